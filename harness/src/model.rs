//! Reference model of FileCheck: what a check file means for an input, written from the property texts.
//!
//! It follows one run: at every check it computes *all* matches at the leftmost start ("candidates"), and
//! the one a matcher takes which commits to each segment of the pattern, greedily and leftmost-first. If the
//! committed one is not a candidate, or there are candidates but no committed match, then the property does
//! not settle the case and it is skipped (counted).
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Re {
    Lit(String),
    Any,
    Class(Vec<(char, char)>),
    /// `[^...]`, which matches a newline as well
    Neg(Vec<(char, char)>),
    /// `\d`, `\w`, `\s` and their complements
    Perl(char),
    /// `\b`
    Wb,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    Rep(Box<Re>, u32, Option<u32>, bool),
    Bol,
    Eol,
    /// A capturing, unnamed group
    Group(Box<Re>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum Kind {
    #[default]
    U,
    D,
    /// hex in either case, printed in lower case
    X,
    /// upper-case hex
    Xu,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Fmt {
    pub kind: Kind,
    pub alt: bool,
    pub prec: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Expr {
    Num(i64),
    Var(String),
    Line,
    Add(Box<Expr>, Box<Expr>),
    Sub(Box<Expr>, Box<Expr>),
    Call(&'static str, Box<Expr>, Box<Expr>),
    Paren(Box<Expr>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Elem {
    Lit(String),
    Re(Re),
    StrDef(String, Re),
    StrUse(String),
    /// a number in a format, bound to a name if there is one
    Num(Option<Fmt>, Option<String>),
    /// the value of an expression, bound to a name if there is one (`true`: written with ==)
    Expr(Option<Fmt>, Option<String>, Expr, bool),
    /// [[@LINE+n]]
    Line(i64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Str(String),
    Num(i128, Option<Fmt>),
}
pub type Env = BTreeMap<String, Val>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Dir {
    Plain,
    Next,
    Same,
    Not,
    Dag,
    Label,
    Empty,
    Count(u32),
}
impl Dir {
    pub fn suffix(self) -> String {
        match self {
            Dir::Plain => "".into(),
            Dir::Next => "-NEXT".into(),
            Dir::Same => "-SAME".into(),
            Dir::Not => "-NOT".into(),
            Dir::Dag => "-DAG".into(),
            Dir::Label => "-LABEL".into(),
            Dir::Empty => "-EMPTY".into(),
            Dir::Count(n) => format!("-COUNT-{n}"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Check {
    pub dir: Dir,
    pub pat: Vec<Elem>,
    pub literal: bool,
    /// 1-based line in the check file
    pub line: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Opts {
    pub ignore_case: bool,
    pub strict: bool,
    pub full_lines: bool,
    pub var_scope: bool,
    pub allow_empty: bool,
    pub implicit_not: Vec<Re>,
    pub vars: Vec<(String, Val)>,
    /// Check and comment prefixes, if they are not the default ones
    pub prefixes: Vec<String>,
    pub comments: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum FailKind {
    /// No match for a positive check
    NoMatch,
    /// A forbidden match, at the first place it may be reported
    Forbidden(usize),
    /// An undefined variable, an overflow or a format conflict
    Error,
    EmptyInput,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Pass,
    Fail { check: Option<usize>, kind: FailKind },
}
#[derive(Clone, Debug)]
pub struct Run {
    pub outcome: Outcome,
    /// (check, start, end) of every positive match, in the order of the checks
    pub matches: Vec<(usize, usize, usize)>,
    /// Checks of a -DAG group competed for the same text
    pub dag_overlap: bool,
    /// The first matches of a -DAG group left no text for one of them, so that others were searched for
    pub dag_reassigned: bool,
    /// Where the failing check was searched for, if it was not found
    pub region: Option<(usize, usize)>,
    /// For a -SAME check which is not on its line: its first match in the rest of the block
    pub elsewhere: Option<(usize, usize)>,
    /// The -LABEL checks found
    pub labels: Vec<(usize, usize, usize)>,
}
/// Why the model does not decide a case
pub type Skip = &'static str;

pub struct Model<'a> {
    pub input: &'a str,
    pub opts: &'a Opts,
    steps: std::cell::Cell<u64>,
    pub line: std::cell::Cell<usize>,
    /// An evaluation error (undefined variable, overflow) happened during the current match
    err: std::cell::Cell<bool>,
    /// A number was seen which is too large to be represented
    large: std::cell::Cell<bool>,
}

type K<'k> = &'k mut dyn FnMut(usize) -> bool;

impl<'a> Model<'a> {
    pub fn new(input: &'a str, opts: &'a Opts) -> Self {
        Model { input, opts, steps: 0.into(), line: 0.into(), err: false.into(), large: false.into() }
    }
    fn step(&self) -> bool {
        let n = self.steps.get() + 1;
        self.steps.set(n);
        n < 400_000
    }
    fn ch(&self, i: usize, hi: usize) -> Option<char> {
        if i < hi { self.input[i..].chars().next() } else { None }
    }
    fn same(&self, a: char, b: char) -> bool {
        a == b || (self.opts.ignore_case && a.eq_ignore_ascii_case(&b))
    }
    fn in_class(&self, c: char, cls: &[(char, char)]) -> bool {
        cls.iter().any(|&(lo, hi)| {
            (lo <= c && c <= hi)
                || (self.opts.ignore_case
                    && c.is_ascii_alphabetic()
                    && [c.to_ascii_lowercase(), c.to_ascii_uppercase()].iter().any(|&d| lo <= d && d <= hi))
        })
    }
    /// Calls `k` with every end of a match of `re` at `i`, in the order a backtracking matcher tries them,
    /// until it returns true.
    fn re(&self, re: &Re, i: usize, hi: usize, k: K) -> bool {
        if !self.step() {
            return true;
        }
        match re {
            Re::Lit(s) => match self.lit(s, i, hi) {
                Some(e) => k(e),
                None => false,
            },
            Re::Any => match self.ch(i, hi) {
                Some(c) if c != '\n' => k(i + c.len_utf8()),
                _ => false,
            },
            Re::Class(cls) => match self.ch(i, hi) {
                Some(c) if self.in_class(c, cls) => k(i + c.len_utf8()),
                _ => false,
            },
            Re::Neg(cls) => match self.ch(i, hi) {
                Some(c) if !self.in_class(c, cls) => k(i + c.len_utf8()),
                _ => false,
            },
            Re::Perl(p) => match self.ch(i, hi) {
                Some(c) if perl(*p, c) => k(i + c.len_utf8()),
                _ => false,
            },
            Re::Wb => {
                let before = self.input[..i].chars().next_back().is_some_and(|c| perl('w', c));
                let after = self.input[i..].chars().next().is_some_and(|c| perl('w', c));
                before != after && k(i)
            }
            Re::Cat(rs) => self.cat(rs, i, hi, k),
            Re::Alt(rs) => rs.iter().any(|r| self.re(r, i, hi, k)),
            Re::Group(r) => self.re(r, i, hi, k),
            Re::Rep(r, min, max, greedy) => self.rep(r, *min, *max, *greedy, i, hi, k),
            Re::Bol => (i == 0 || self.input.as_bytes()[i - 1] == b'\n') && k(i),
            Re::Eol => (i == self.input.len() || self.input.as_bytes()[i] == b'\n') && k(i),
        }
    }
    fn cat(&self, rs: &[Re], i: usize, hi: usize, k: K) -> bool {
        match rs.split_first() {
            None => k(i),
            Some((r, rest)) => self.re(r, i, hi, &mut |e| self.cat(rest, e, hi, k)),
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn rep(&self, r: &Re, min: u32, max: Option<u32>, greedy: bool, i: usize, hi: usize, k: K) -> bool {
        if min > 0 {
            return self.re(r, i, hi, &mut |e| self.rep(r, min - 1, max.map(|m| m - 1), greedy, e, hi, k));
        }
        if max == Some(0) {
            return k(i);
        }
        if !greedy && k(i) {
            return true;
        }
        if self.re(r, i, hi, &mut |e| e > i && self.rep(r, 0, max.map(|m| m - 1), greedy, e, hi, k)) {
            return true;
        }
        greedy && k(i)
    }
    fn lit(&self, s: &str, i: usize, hi: usize) -> Option<usize> {
        let mut p = i;
        for c in s.chars() {
            match self.ch(p, hi) {
                Some(d) if self.same(c, d) => p += d.len_utf8(),
                _ => return None,
            }
        }
        Some(p)
    }
    fn pat_lit(&self, s: &str, i: usize, hi: usize) -> Option<usize> {
        if self.opts.strict {
            return self.lit(s, i, hi);
        }
        // Any horizontal blank matches any other
        let blank = |c| c == ' ' || c == '\t';
        let mut p = i;
        for c in s.chars() {
            match self.ch(p, hi) {
                Some(d) if self.same(c, d) || blank(c) && blank(d) => p += d.len_utf8(),
                _ => return None,
            }
        }
        Some(p)
    }

    /// The value and inferred format. An explicit format makes conflicts between the operands' formats irrelevant.
    pub fn eval(&self, e: &Expr, env: &Env, explicit: Option<Fmt>) -> Option<(i128, Option<Fmt>)> {
        match e {
            Expr::Num(n) => Some((*n as i128, None)),
            Expr::Line => Some((self.line.get() as i128, None)),
            Expr::Paren(e) => self.eval(e, env, explicit),
            Expr::Var(v) => match env.get(v)? {
                Val::Num(n, f) => Some((*n, *f)),
                Val::Str(_) => None,
            },
            Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Call(_, a, b) => {
                let ((x, f), (y, g)) = (self.eval(a, env, explicit)?, self.eval(b, env, explicit)?);
                let fmt = match (f, g) {
                    (Some(f), Some(g)) => {
                        let kind = match (f.kind, g.kind) {
                            (Kind::X, Kind::Xu) | (Kind::Xu, Kind::X) => Some(Kind::Xu),
                            (a, b) => (a == b).then_some(a),
                        };
                        if kind.is_none() || f.alt != g.alt || (f.prec != g.prec && f.prec != 0 && g.prec != 0) {
                            explicit?;
                            explicit
                        } else {
                            Some(Fmt { prec: f.prec.max(g.prec), kind: kind.unwrap(), ..f })
                        }
                    }
                    (f, g) => f.or(g),
                };
                let v = match e {
                    Expr::Add(..) => x.checked_add(y)?,
                    Expr::Sub(..) => x.checked_sub(y)?,
                    Expr::Call(f, ..) => match *f {
                        "add" => x.checked_add(y)?,
                        "sub" => x.checked_sub(y)?,
                        "mul" => x.checked_mul(y)?,
                        "div" => x.checked_div(y)?,
                        "min" => x.min(y),
                        "max" => x.max(y),
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                };
                Some((v, fmt))
            }
        }
    }
    /// All ends and values of a number in format `f` at `i`, longest first.
    fn numbers(&self, f: Fmt, i: usize, hi: usize) -> Vec<(usize, Option<i128>)> {
        let b = &self.input.as_bytes()[..hi];
        let mut p = i;
        let mut neg = false;
        if f.kind == Kind::D && p < hi && (b[p] == b'-' || b[p] == b'+') {
            neg = b[p] == b'-';
            p += 1;
        }
        if f.alt {
            let t = &b[p..];
            if !t.starts_with(b"0x") && !(self.opts.ignore_case && t.starts_with(b"0X")) {
                return vec![];
            }
            p += 2;
        }
        let (radix, max) = match f.kind {
            Kind::U | Kind::D => (10, 39),
            _ => (16, 32),
        };
        let ok = |c: u8| match f.kind {
            Kind::U | Kind::D => c.is_ascii_digit(),
            Kind::X => c.is_ascii_hexdigit(),
            Kind::Xu => matches!(c, b'0'..=b'9' | b'A'..=b'F'),
        };
        let ok = |c: u8| ok(c) || (self.opts.ignore_case && c.is_ascii_alphabetic() && ok(c ^ 0x20));
        let mut n = 0;
        while n < max && p + n < hi && ok(b[p + n]) {
            n += 1;
        }
        let min = (f.prec as usize).max(1);
        (min..=n)
            .rev()
            .map(|n| {
                let v = i128::from_str_radix(&self.input[p..p + n], radix).ok().map(|v| if neg { -v } else { v });
                if v.is_none() {
                    self.large.set(true);
                }
                (p + n, v)
            })
            .collect()
    }

    /// Calls `k` with every (end, environment) of a match of one element at `i`.
    fn elem(&self, el: &Elem, i: usize, hi: usize, env: &Env, k: &mut dyn FnMut(usize, &Env) -> bool) -> bool {
        if !self.step() {
            return true;
        }
        match el {
            Elem::Lit(s) => self.pat_lit(s, i, hi).is_some_and(|e| k(e, env)),
            Elem::Re(r) => self.re(r, i, hi, &mut |e| k(e, env)),
            Elem::StrDef(name, r) => self.re(r, i, hi, &mut |e| {
                let mut env = env.clone();
                env.insert(name.clone(), Val::Str(self.input[i..e].to_string()));
                k(e, &env)
            }),
            Elem::StrUse(name) => match env.get(name) {
                Some(Val::Str(s)) => self.lit(s, i, hi).is_some_and(|e| k(e, env)),
                Some(Val::Num(n, f)) => {
                    let t = text(*n, f.unwrap_or_default());
                    t.is_some_and(|t| self.lit(&t, i, hi).is_some_and(|e| k(e, env)))
                }
                None => {
                    self.err.set(true);
                    false
                }
            },
            Elem::Num(f, name) => {
                for (e, v) in self.numbers(f.unwrap_or_default(), i, hi) {
                    let Some(v) = v else { continue };
                    let r = match name {
                        Some(n) => {
                            let mut env = env.clone();
                            env.insert(n.clone(), Val::Num(v, Some(f.unwrap_or_default())));
                            k(e, &env)
                        }
                        None => k(e, env),
                    };
                    if r {
                        return true;
                    }
                }
                false
            }
            Elem::Line(n) => {
                let t = (self.line.get() as i64 + n).to_string();
                self.lit(&t, i, hi).is_some_and(|e| k(e, env))
            }
            Elem::Expr(f, name, e, _) => {
                let Some((v, ef)) = self.eval(e, env, *f) else {
                    self.err.set(true);
                    return false;
                };
                let fmt = f.or(ef);
                let Some(t) = text(v, fmt.unwrap_or_default()) else {
                    self.err.set(true);
                    return false;
                };
                self.lit(&t, i, hi).is_some_and(|e| {
                    let mut env = env.clone();
                    if let Some(n) = name {
                        env.insert(n.clone(), Val::Num(v, Some(fmt.unwrap_or_default())));
                    }
                    k(e, &env)
                })
            }
        }
    }
    fn elems(&self, els: &[Elem], i: usize, hi: usize, env: &Env, k: &mut dyn FnMut(usize, &Env) -> bool) -> bool {
        match els.split_first() {
            None => k(i, env),
            Some((el, rest)) => self.elem(el, i, hi, env, &mut |e, env| self.elems(rest, e, hi, env, k)),
        }
    }
    fn all_at(&self, els: &[Elem], i: usize, hi: usize, env: &Env) -> Vec<(usize, Env)> {
        let mut out: Vec<(usize, Env)> = vec![];
        self.elems(els, i, hi, env, &mut |e, env| {
            if !out.iter().any(|(x, y)| *x == e && y == env) {
                out.push((e, env.clone()));
            }
            out.len() > 200
        });
        out
    }
    fn commit_at(&self, segs: &[&[Elem]], i: usize, hi: usize, env: &Env) -> Option<(usize, Env)> {
        let (mut p, mut env) = (i, env.clone());
        for seg in segs {
            let mut r = None;
            if let [Elem::Expr(f, name, e, _)] = seg
                && name.is_some()
            {
                // a whole number is read first, and then compared
                let (v, ef) = self.eval(e, &env, *f)?;
                let fmt = f.or(ef);
                let (end, n) = self.numbers(fmt.unwrap_or_default(), p, hi).first().cloned()?;
                if n != Some(v) {
                    return None;
                }
                if let Some(n) = name {
                    env.insert(n.clone(), Val::Num(v, Some(fmt.unwrap_or_default())));
                }
                r = Some((end, env.clone()));
            } else {
                self.elems(seg, p, hi, &env, &mut |e, env| {
                    r = Some((e, env.clone()));
                    true
                });
            }
            (p, env) = r?;
        }
        Some((p, env))
    }
    /// The leftmost match in [from, hi). Err: not settled.
    pub fn find(&self, els: &[Elem], from: usize, hi: usize, env: &Env, split: bool) -> Result<Option<(usize, usize, Env)>, Skip> {
        self.err.set(false);
        let segs = segments(els, false);
        let segs2 = segments(els, true);
        for s in from..=hi {
            if !self.input.is_char_boundary(s) {
                continue;
            }
            let all = self.all_at(els, s, hi, env);
            let c = self.commit_at(&segs, s, hi, env);
            if split && self.commit_at(&segs2, s, hi, env) != c {
                return Err("committed segments differ");
            }
            if self.large.get() {
                return Err("a number which is too large");
            }
            if self.steps.get() > 399_000 {
                return Err("too many steps");
            }
            match (all.is_empty(), c) {
                (true, None) => {}
                (false, Some((e, env))) if all.iter().any(|(x, y)| *x == e && *y == env) => return Ok(Some((s, e, env))),
                _ => return Err("ambiguous match"),
            }
        }
        Ok(None)
    }

    /// The first match of a -DAG check at or after `p` which overlaps none of `taken`
    fn dag_next(&self, c: &Check, mut p: usize, hi: usize, env: &Env, taken: &[(usize, usize)], conflict: &mut bool) -> Result<Option<(usize, usize, Env)>, Skip> {
        self.line.set(c.line);
        loop {
            let Some((s, e, en)) = self.find(&c.pat, p, hi, env, false)? else { return Ok(None) };
            match taken.iter().find(|&&(ts, te)| s < te && ts < e) {
                Some(&(_, te)) => {
                    *conflict = true;
                    p = te;
                }
                None => return Ok(Some((s, e, en))),
            }
        }
    }
    /// Non-overlapping matches for all checks of a -DAG group
    fn dag_assign(&self, group: &[&Check], pos: usize, hi: usize, env: &Env, taken: &mut Vec<(usize, usize)>) -> Result<Option<Env>, Skip> {
        let Some((c, rest)) = group.split_first() else { return Ok(Some(env.clone())) };
        let mut p = pos;
        while p <= hi {
            let Some((s, e, en)) = self.dag_next(c, p, hi, env, taken, &mut false)? else { break };
            taken.push((s, e));
            if let Some(en) = self.dag_assign(rest, pos, hi, &en, taken)? {
                return Ok(Some(en));
            }
            taken.pop();
            p = if s == e { self.input[e..].chars().next().map_or(e + 1, |c| e + c.len_utf8()) } else { e };
        }
        Ok(None)
    }

    /// The match at every start, for every check of a group
    fn dag_candidates(&self, group: &[&Check], pos: usize, hi: usize, env: &Env) -> Result<Vec<Vec<(usize, usize)>>, Skip> {
        let mut out = vec![];
        for c in group {
            self.line.set(c.line);
            let mut p = pos;
            let mut v = vec![];
            while p <= hi {
                let Some((s, e, _)) = self.find(&c.pat, p, hi, env, false)? else { break };
                v.push((s, e));
                p = self.input[s..].chars().next().map_or(s + 1, |c| s + c.len_utf8());
            }
            out.push(v);
        }
        Ok(out)
    }
    /// Whether each check can have one of its candidates, without overlaps
    fn dag_room(&self, cands: &[Vec<(usize, usize)>], taken: &mut Vec<(usize, usize)>) -> Result<bool, Skip> {
        let Some((c, rest)) = cands.split_first() else { return Ok(true) };
        for &(s, e) in c {
            if !self.step() {
                return Err("too many steps");
            }
            if !taken.iter().any(|&(ts, te)| s < te && ts < e) {
                taken.push((s, e));
                if self.dag_room(rest, taken)? {
                    return Ok(true);
                }
                taken.pop();
            }
        }
        Ok(false)
    }

    pub fn run(&self, checks: &[Check]) -> Result<Run, Skip> {
        let len = self.input.len();
        let mut run = Run { outcome: Outcome::Pass, matches: vec![], dag_overlap: false, dag_reassigned: false, region: None, elsewhere: None, labels: vec![] };
        macro_rules! fail {
            ($c:expr, $k:expr) => {{
                run.outcome = Outcome::Fail { check: $c, kind: $k };
                return Ok(run);
            }};
        }
        if len == 0 && !self.opts.allow_empty {
            fail!(None, FailKind::EmptyInput);
        }
        let mut env: Env = self.opts.vars.iter().cloned().collect();
        // Split into blocks: (label, checks)
        let mut blocks: Vec<(Option<usize>, Vec<usize>)> = vec![(None, vec![])];
        for (i, c) in checks.iter().enumerate() {
            if c.dir == Dir::Label {
                blocks.push((Some(i), vec![]));
            } else {
                blocks.last_mut().unwrap().1.push(i);
            }
        }
        // Find the labels first
        let mut bounds: Vec<(usize, usize)> = vec![(0, len)];
        let mut labels = vec![None];
        let mut from = 0;
        for (l, _) in blocks.iter().skip(1) {
            let li = l.unwrap();
            self.line.set(checks[li].line);
            match self.find(&checks[li].pat, from, len, &env, false)? {
                None => {
                    run.region = Some((from, len));
                    fail!(Some(li), if self.err.get() { FailKind::Error } else { FailKind::NoMatch })
                }
                Some((s, e, _)) => {
                    let prev_nl = self.input[..s].rfind('\n').unwrap_or(0);
                    let eol = self.input[s..].find('\n').map(|x| x + s).unwrap_or(len);
                    bounds.last_mut().unwrap().1 = prev_nl.max(bounds.last().unwrap().0);
                    bounds.push((eol, len));
                    labels.push(Some((li, s, e)));
                    run.labels.push((li, s, e));
                    from = eol;
                }
            }
        }
        for (bi, (label, body)) in blocks.iter().enumerate() {
            let (mut pos, hi) = bounds[bi];
            if let Some(m) = labels[bi] {
                run.matches.push(m);
            }
            if label.is_some() && self.opts.var_scope {
                env.retain(|k, _| k.starts_with('$'));
                // variables of the command line are not local to a block
                for (k, v) in &self.opts.vars {
                    env.entry(k.clone()).or_insert_with(|| v.clone());
                }
            }
            let mut nots: Vec<usize> = vec![];
            let mut j = 0;
            let nl_from = |p: usize| self.input[p..].find('\n').map(|x| x + p);
            // The region between two positive matches, with the forbidden patterns
            macro_rules! region {
                ($lo:expr, $hi:expr) => {{
                    let (lo, rhi) = ($lo, $hi);
                    for &n in &nots {
                        self.line.set(checks[n].line);
                        match self.find(&checks[n].pat, lo, rhi, &env, false)? {
                            Some((s, ..)) => fail!(Some(n), FailKind::Forbidden(s)),
                            None if self.err.get() => fail!(Some(n), FailKind::Error),
                            None => {}
                        }
                    }
                    nots.clear();
                    for r in &self.opts.implicit_not {
                        if let Some((s, ..)) = self.find(&[Elem::Re(r.clone())], lo, rhi, &env, false)? {
                            fail!(None, FailKind::Forbidden(s));
                        }
                    }
                }};
            }
            while j < body.len() {
                let ci = body[j];
                let c = &checks[ci];
                self.line.set(c.line);
                match c.dir {
                    Dir::Label => unreachable!(),
                    Dir::Not => {
                        nots.push(ci);
                        j += 1;
                        continue;
                    }
                    Dir::Dag => {
                        let mut group = vec![];
                        while j < body.len() && checks[body[j]].dir == Dir::Dag {
                            group.push(body[j]);
                            j += 1;
                        }
                        // The first match of each that overlaps none of the previous ones
                        let mut taken: Vec<(usize, usize)> = vec![];
                        let mut conflict = false;
                        let mut failed = None;
                        let mut en = env.clone();
                        for &g in &group {
                            match self.dag_next(&checks[g], pos, hi, &en, &taken, &mut conflict)? {
                                Some((s, e, n)) => {
                                    taken.push((s, e));
                                    en = n;
                                }
                                None if failed.is_none() => {
                                    failed = Some((g, if self.err.get() { FailKind::Error } else { FailKind::NoMatch }))
                                }
                                None => {}
                            }
                        }
                        if let Some((g, kind)) = failed {
                            if !conflict {
                                run.region = Some((pos, hi));
                                fail!(Some(g), kind);
                            }
                            taken.clear();
                            let depend = group.iter().any(|&g| uses(&checks[g].pat).iter().any(|u| group.iter().any(|&d| defs(&checks[d].pat).contains(u))));
                            let pats: Vec<&Check> = group.iter().map(|&g| &checks[g]).collect();
                            // Another choice for a check changes what the checks that use its variables look for:
                            // whether that is tried is not specified
                            if depend {
                                if self.dag_assign(&pats, pos, hi, &env, &mut taken)?.is_some() {
                                    return Err("-DAG checks which depend on each other compete for the same text");
                                }
                                run.dag_reassigned = true;
                                fail!(Some(g), kind);
                            }
                            let cands = self.dag_candidates(&pats, pos, hi, &env)?;
                            if !self.dag_room(&cands, &mut vec![])? {
                                run.dag_reassigned = true;
                                fail!(Some(g), kind);
                            }
                            // Which of the overlapping matches of one check are considered is not specified
                            if cands.iter().any(|c| c.windows(2).any(|w| w[1].0 < w[0].1)) {
                                return Err("a -DAG check has overlapping matches, and others compete for them");
                            }
                            match self.dag_assign(&pats, pos, hi, &env, &mut taken)? {
                                Some(n) => en = n,
                                None => unreachable!("there is room"),
                            }
                            run.dag_reassigned = true;
                        }
                        run.dag_overlap |= conflict;
                        env = en;
                        for (&g, &(s, e)) in group.iter().zip(&taken) {
                            run.matches.push((g, s, e));
                        }
                        let start = taken.iter().map(|x| x.0).min().unwrap();
                        let end = taken.iter().map(|x| x.1).max().unwrap();
                        region!(pos, start);
                        pos = end;
                        continue;
                    }
                    Dir::Empty => {
                        let Some(nl) = nl_from(pos).filter(|&n| n < hi) else { fail!(Some(ci), FailKind::NoMatch) };
                        let eol = nl_from(nl + 1).unwrap_or(len);
                        if eol != nl + 1 {
                            run.region = Some((nl + 1, eol));
                            fail!(Some(ci), FailKind::NoMatch);
                        }
                        region!(pos, nl + 1);
                        run.matches.push((ci, nl + 1, nl + 1));
                        pos = nl + 1;
                    }
                    Dir::Plain | Dir::Next | Dir::Same | Dir::Count(_) => {
                        let n = if let Dir::Count(n) = c.dir { n } else { 1 };
                        for k in 0..n {
                            let (lo, rhi) = match c.dir {
                                Dir::Next => match nl_from(pos).filter(|&n| n + 1 < hi || n + 1 == hi && hi < len) {
                                    Some(nl) => (nl + 1, nl_from(nl + 1).unwrap_or(hi).min(hi)),
                                    None => {
                                        run.region = Some((hi, hi));
                                        fail!(Some(ci), FailKind::NoMatch)
                                    }
                                },
                                Dir::Same => (pos, nl_from(pos).unwrap_or(hi).min(hi)),
                                _ => (pos, hi),
                            };
                            self.line.set(c.line);
                            let Some((s, e, en)) = self.find(&c.pat, lo, rhi, &env, false)? else {
                                let error = self.err.get();
                                run.region = Some((lo, rhi));
                                if c.dir == Dir::Same {
                                    run.elsewhere = self.find(&c.pat, lo, hi, &env, false)?.map(|(s, e, _)| (s, e));
                                }
                                fail!(Some(ci), if error { FailKind::Error } else { FailKind::NoMatch })
                            };
                            env = en;
                            if k == 0 {
                                region!(pos, s);
                            } else if !self.opts.implicit_not.is_empty() {
                                return Err("implicit not within a count");
                            }
                            run.matches.push((ci, s, e));
                            pos = e;
                        }
                    }
                }
                j += 1;
            }
            if !nots.is_empty() || !self.opts.implicit_not.is_empty() {
                region!(pos, hi);
            }
            let _ = &nots;
        }
        Ok(run)
    }
}

pub fn defs(els: &[Elem]) -> Vec<&String> {
    els.iter()
        .filter_map(|e| match e {
            Elem::StrDef(n, _) | Elem::Num(_, Some(n)) | Elem::Expr(_, Some(n), ..) => Some(n),
            _ => None,
        })
        .collect()
}
fn expr_uses<'e>(e: &'e Expr, out: &mut Vec<&'e String>) {
    match e {
        Expr::Var(v) => out.push(v),
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Call(_, a, b) => {
            expr_uses(a, out);
            expr_uses(b, out);
        }
        Expr::Paren(e) => expr_uses(e, out),
        Expr::Num(_) | Expr::Line => {}
    }
}
pub fn uses(els: &[Elem]) -> Vec<&String> {
    let mut out = vec![];
    for e in els {
        match e {
            Elem::StrUse(n) => out.push(n),
            Elem::Expr(_, _, e, _) => expr_uses(e, &mut out),
            _ => {}
        }
    }
    out
}

/// The text of a value in a format, if it has one.
pub fn text(v: i128, f: Fmt) -> Option<String> {
    let p = f.prec as usize;
    let alt = if f.alt { "0x" } else { "" };
    match f.kind {
        Kind::D => Some(format!("{}{:0p$}", if v < 0 { "-" } else { "" }, v.unsigned_abs())),
        _ if v < 0 => None,
        Kind::U => Some(format!("{v:0p$}")),
        Kind::X => Some(format!("{alt}{v:0p$x}")),
        Kind::Xu => Some(format!("{alt}{v:0p$X}")),
    }
}

/// The parts of a pattern which are matched one after another, each committed.
fn segments(els: &[Elem], split_first: bool) -> Vec<&[Elem]> {
    let mut out = vec![];
    let mut start = 0;
    for (i, e) in els.iter().enumerate() {
        let alone = matches!(e, Elem::StrUse(_) | Elem::Expr(..) | Elem::Line(_));
        if alone {
            if start < i {
                out.push(&els[start..i]);
            }
            out.push(&els[i..i + 1]);
            start = i + 1;
        } else if split_first && i == 0 {
            out.push(&els[0..1]);
            start = 1;
        }
    }
    if start < els.len() {
        out.push(&els[start..]);
    }
    out
}

pub fn perl(p: char, c: char) -> bool {
    let is = match p.to_ascii_lowercase() {
        'd' => c.is_numeric(),
        'w' => c.is_alphanumeric() || c == '_',
        's' => c.is_whitespace(),
        _ => unreachable!(),
    };
    is != p.is_ascii_uppercase()
}
pub fn render_re(r: &Re, o: &mut String, top: bool) {
    match r {
        Re::Lit(s) => {
            for c in s.chars() {
                if r"\.+*?()|[]{}^$#&-~".contains(c) {
                    o.push('\\');
                }
                o.push(c);
            }
        }
        Re::Any => o.push('.'),
        Re::Perl(c) => {
            o.push('\\');
            o.push(*c);
        }
        Re::Wb => o.push_str(r"\b"),
        Re::Class(cls) | Re::Neg(cls) => {
            o.push_str(if matches!(r, Re::Neg(_)) { "[^" } else { "[" });
            for &(a, b) in cls {
                for c in if a == b { vec![a] } else { vec![a, '-', b] } {
                    if c != '-' && r"\[]^&~-".contains(c) || (c == '-' && a == b) {
                        o.push('\\');
                    }
                    o.push(c);
                }
            }
            o.push(']');
        }
        Re::Cat(rs) => rs.iter().for_each(|r| match r {
            Re::Alt(_) => {
                o.push_str("(?:");
                render_re(r, o, true);
                o.push(')');
            }
            r => render_re(r, o, false),
        }),
        Re::Alt(rs) => {
            if !top {
                o.push_str("(?:");
            }
            for (i, r) in rs.iter().enumerate() {
                if i > 0 {
                    o.push('|');
                }
                render_re(r, o, false);
            }
            if !top {
                o.push(')');
            }
        }
        Re::Group(r) => {
            o.push('(');
            render_re(r, o, true);
            o.push(')');
        }
        Re::Rep(r, min, max, greedy) => {
            let single = match &**r {
                Re::Lit(s) => s.chars().count() == 1,
                Re::Any | Re::Class(_) | Re::Neg(_) | Re::Perl(_) | Re::Group(_) => true,
                _ => false,
            };
            if single {
                render_re(r, o, false);
            } else {
                o.push_str("(?:");
                render_re(r, o, true);
                o.push(')');
            }
            match (min, max) {
                (0, None) => o.push('*'),
                (1, None) => o.push('+'),
                (0, Some(1)) => o.push('?'),
                (a, Some(b)) if a == b => o.push_str(&format!("{{{a}}}")),
                (a, None) => o.push_str(&format!("{{{a},}}")),
                (a, Some(b)) => o.push_str(&format!("{{{a},{b}}}")),
            }
            if !greedy {
                o.push('?');
            }
        }
        Re::Bol => o.push('^'),
        Re::Eol => o.push('$'),
    }
}
pub fn render_fmt(f: Fmt, o: &mut String) {
    o.push('%');
    if f.alt {
        o.push('#');
    }
    if f.prec > 0 {
        o.push_str(&format!(".{}", f.prec));
    }
    o.push(match f.kind {
        Kind::U => 'u',
        Kind::D => 'd',
        Kind::X => 'x',
        Kind::Xu => 'X',
    });
}
pub fn render_expr(e: &Expr, o: &mut String) {
    match e {
        Expr::Num(n) => o.push_str(&n.to_string()),
        Expr::Var(v) => o.push_str(v),
        Expr::Line => o.push_str("@LINE"),
        Expr::Paren(e) => {
            o.push('(');
            render_expr(e, o);
            o.push(')');
        }
        Expr::Add(a, b) | Expr::Sub(a, b) => {
            render_expr(a, o);
            o.push(if matches!(e, Expr::Add(..)) { '+' } else { '-' });
            render_expr(b, o);
        }
        Expr::Call(f, a, b) => {
            o.push_str(f);
            o.push('(');
            render_expr(a, o);
            o.push_str(", ");
            render_expr(b, o);
            o.push(')');
        }
    }
}
pub fn render(els: &[Elem]) -> String {
    let mut o = String::new();
    for e in els {
        match e {
            Elem::Lit(s) => o.push_str(s),
            Elem::Re(r) => {
                o.push_str("{{");
                render_re(r, &mut o, true);
                o.push_str("}}");
            }
            Elem::StrDef(n, r) => {
                o.push_str("[[");
                o.push_str(n);
                o.push(':');
                render_re(r, &mut o, true);
                o.push_str("]]");
            }
            Elem::StrUse(n) => {
                o.push_str("[[");
                o.push_str(n);
                o.push_str("]]");
            }
            Elem::Num(f, n) => {
                o.push_str("[[#");
                if let Some(f) = f {
                    render_fmt(*f, &mut o);
                    o.push(',');
                }
                if let Some(n) = n {
                    if f.is_some() {
                        o.push(' ');
                    }
                    o.push_str(n);
                    o.push(':');
                }
                o.push_str("]]");
            }
            Elem::Expr(f, n, e, eq) => {
                o.push_str("[[#");
                if let Some(f) = f {
                    render_fmt(*f, &mut o);
                    o.push_str(", ");
                }
                if let Some(n) = n {
                    o.push_str(n);
                    o.push_str(": ");
                }
                if *eq {
                    o.push_str("== ");
                }
                render_expr(e, &mut o);
                o.push_str("]]");
            }
            Elem::Line(n) => {
                o.push_str("[[@LINE");
                if *n != 0 {
                    o.push_str(&format!("{n:+}"));
                }
                o.push_str("]]");
            }
        }
    }
    o
}
