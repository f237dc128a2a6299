//! Generates check files together with inputs which satisfy, or nearly satisfy, them.
use crate::model::*;
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Feat {
    pub next: u64,
    pub same: u64,
    pub empty: u64,
    pub not: u64,
    pub dag: u64,
    pub label: u64,
    pub count: u64,
    pub plain: u64,
    /// chances (of 100) of the elements of a pattern
    pub re: u64,
    pub strdef: u64,
    pub struse: u64,
    pub num: u64,
    pub numexpr: u64,
    pub line: u64,
    pub literal: u64,
    pub special: u64,
    pub max_checks: usize,
    pub var_scope: u64,
    pub ignore_case: u64,
    pub strict: u64,
    pub implicit: u64,
    pub cli_vars: u64,
    pub noise: u64,
    pub mutate: u64,
    /// tabs and runs of blanks
    pub tabs: u64,
    /// regexes which are anchored or match nothing
    pub null: u64,
    /// unusual prefixes, text which looks like checks
    pub prefixes: u64,
}
impl Default for Feat {
    fn default() -> Self {
        Feat {
            next: 0, same: 0, empty: 0, not: 0, dag: 0, label: 0, count: 0, plain: 10,
            re: 20, strdef: 0, struse: 0, num: 0, numexpr: 0, line: 0, literal: 0, special: 8,
            max_checks: 6, var_scope: 0, ignore_case: 0, strict: 0, implicit: 0, cli_vars: 0, noise: 40, mutate: 45, tabs: 0, null: 12, prefixes: 0,
        }
    }
}

pub struct GCase {
    pub checks: Vec<Check>,
    pub opts: Opts,
    pub input: String,
    pub check_text: String,
}

pub const WORDS: &[&str] = &["foo", "bar", "a", "b", "ab", "aa", "aba", "ba", "add", "0", "1", "10", "r1", "r2", "foo bar", "abab"];
pub const SPECIALS: &[&str] = &["x.y", "(z)", "a*", "[q]", "é", "%0", "$r", "a|b", "\\d", "^", "$", "+", "{1}", "ß→x", "a]b", "#1", "{a", "w:", "-", "\\", "a?b", "\"", "日"];

pub fn word(rng: &mut Rng, f: &Feat) -> String {
    if rng.chance(f.special, 100) { rng.pick(SPECIALS).to_string() } else { rng.pick(WORDS).to_string() }
}

pub fn gen_re(rng: &mut Rng, depth: u32) -> Re {
    let leaf = |rng: &mut Rng| match rng.below(10) {
        7 => Re::Neg(rng.pick(&[vec![('a', 'a')], vec![('0', '9')], vec![(' ', ' ')], vec![('b', 'b'), (',', ',')], vec![('a', 'z')]]).clone()),
        8 => Re::Perl(*rng.pick(&['d', 'w', 's', 'd', 'w', 'S', 'D', 'W'])),
        9 => Re::Class(rng.pick(&[vec![('a', 'a'), (' ', ' ')], vec![('0', '9'), ('a', 'f')], vec![('.', '.'), ('*', '*')], vec![(']', ']'), ('a', 'a')], vec![('A', 'Z'), ('é', 'é')]]).clone()),
        0 => Re::Any,
        1 => Re::Class(vec![('a', 'b')]),
        2 => Re::Class(vec![('0', '9')]),
        3 => Re::Class(vec![('a', 'z')]),
        4 => Re::Class(vec![('a', 'z'), ('0', '9'), ('_', '_')]),
        5 => Re::Lit(rng.pick(&["a", "b", "ab", "foo", "r", "x", "1", "ba"]).to_string()),
        _ => Re::Lit(rng.pick(&["a", "b", "aa", "bar", ".", "*", "(", "é", "$", "a.b", " "]).to_string()),
    };
    if depth == 0 {
        return leaf(rng);
    }
    match rng.below(9) {
        0 | 1 => {
            let r = leaf(rng);
            let (lo, hi) = *rng.pick(&[(0, None), (1, None), (1, None), (0, Some(1)), (2, Some(2)), (1, Some(3)), (2, None)]);
            let r = match r {
                Re::Lit(s) if s.chars().count() > 1 && rng.chance(1, 2) => Re::Group(Box::new(Re::Lit(s))),
                r => r,
            };
            Re::Rep(Box::new(r), lo, hi, !rng.chance(1, 6))
        }
        2 | 3 => Re::Alt((0..rng.range(2, 3)).map(|_| gen_re(rng, depth - 1)).collect()),
        4 | 5 => Re::Cat((0..rng.range(2, 3)).map(|_| gen_re(rng, depth - 1)).collect()),
        6 => Re::Group(Box::new(gen_re(rng, depth - 1))),
        _ => leaf(rng),
    }
}
pub fn nullable(r: &Re) -> bool {
    match r {
        Re::Lit(s) => s.is_empty(),
        Re::Any | Re::Class(_) | Re::Neg(_) | Re::Perl(_) => false,
        Re::Cat(rs) => rs.iter().all(nullable),
        Re::Alt(rs) => rs.iter().any(nullable),
        Re::Rep(r, min, ..) => *min == 0 || nullable(r),
        Re::Bol | Re::Eol | Re::Wb => true,
        Re::Group(r) => nullable(r),
    }
}
fn lazy(r: &Re) -> bool {
    match r {
        Re::Cat(rs) | Re::Alt(rs) => rs.iter().any(lazy),
        Re::Rep(r, _, _, g) => !*g || lazy(r),
        Re::Group(r) => lazy(r),
        _ => false,
    }
}
pub fn nonnull_re(rng: &mut Rng) -> Re {
    for _ in 0..20 {
        let r = gen_re(rng, 2);
        if !nullable(&r) {
            return r;
        }
    }
    Re::Lit("a".into())
}
/// A regex of a pattern, which may be anchored, and may match nothing
fn pattern_re(rng: &mut Rng, f: &Feat) -> Re {
    if !rng.chance(f.null, 100) {
        return nonnull_re(rng);
    }
    match rng.below(8) {
        0 => Re::Bol,
        1 => Re::Eol,
        2 => Re::Wb,
        3 => Re::Rep(Box::new(Re::Any), 0, None, !rng.chance(1, 5)),
        4 => Re::Cat(vec![if rng.chance(1, 2) { Re::Bol } else { Re::Wb }, nonnull_re(rng)]),
        5 => Re::Cat(vec![nonnull_re(rng), if rng.chance(1, 2) { Re::Eol } else { Re::Wb }]),
        6 => Re::Rep(Box::new(Re::Perl('s')), 0, None, true),
        _ => gen_re(rng, 2),
    }
}
/// A string the regex matches
pub fn sample(r: &Re, rng: &mut Rng, o: &mut String) {
    match r {
        Re::Lit(s) => o.push_str(s),
        Re::Any => o.push_str(rng.pick(&["a", "b", "1", "x", ".", "é"])),
        Re::Class(cls) => {
            let (a, b) = *rng.pick(cls);
            let n = b as u32 - a as u32 + 1;
            let d = if rng.chance(1, 2) { 0 } else { rng.below(n.min(12) as usize) as u32 };
            o.push(char::from_u32(a as u32 + d).unwrap());
        }
        Re::Cat(rs) => rs.iter().for_each(|r| sample(r, rng, o)),
        Re::Alt(rs) => {
            let r = rng.below(rs.len());
            sample(&rs[r], rng, o)
        }
        Re::Group(r) => sample(r, rng, o),
        Re::Rep(r, min, max, _) => {
            let n = rng.range(*min as usize, max.unwrap_or(min + 2) as usize);
            (0..n).for_each(|_| sample(r, rng, o))
        }
        Re::Neg(cls) => {
            let c = *rng.pick(&['a', 'b', '1', 'x', ' ', '.', 'é', '\n', 'q', '-']);
            o.push(if cls.iter().any(|&(a, b)| a <= c && c <= b) { '=' } else { c });
        }
        Re::Perl(p) => {
            let c = *rng.pick(&['a', 'b', '1', '7', ' ', '.', 'é', '\n', '_', '\t']);
            o.push(if perl(*p, c) { c } else { *['1', 'w', ' ', 'x', '-', '<'].iter().find(|c| perl(*p, **c)).unwrap() });
        }
        Re::Bol | Re::Eol | Re::Wb => {}
    }
}

fn gen_fmt(rng: &mut Rng, main: Kind) -> Fmt {
    // mostly one kind per file, so that variables can be combined
    let kind = if rng.chance(3, 5) { main } else { *rng.pick(&[Kind::U, Kind::U, Kind::D, Kind::X, Kind::Xu]) };
    Fmt {
        kind,
        alt: matches!(kind, Kind::X | Kind::Xu) && rng.chance(1, 4),
        prec: if rng.chance(1, 4) { *rng.pick(&[1, 2, 3, 4, 8]) } else { 0 },
    }
}
fn gen_expr(rng: &mut Rng, vars: &[String], depth: u32, first: bool) -> Expr {
    let var = |rng: &mut Rng| {
        if vars.is_empty() || rng.chance(1, 25) { Expr::Var("UNDEF".into()) } else { Expr::Var(rng.pick(vars).clone()) }
    };
    let num = |rng: &mut Rng| Expr::Num(*rng.pick(&[0, 1, 1, 2, 3, 7, 9, 10, 15, 16, 255, 1000]));
    if depth == 0 {
        return if !first && rng.chance(1, 2) { num(rng) } else { var(rng) };
    }
    match rng.below(10) {
        0..=2 => var(rng),
        3..=5 => {
            let a = gen_expr(rng, vars, depth - 1, first);
            let b = gen_expr(rng, vars, 0, false);
            if rng.chance(1, 2) { Expr::Add(a.into(), b.into()) } else { Expr::Sub(a.into(), b.into()) }
        }
        6 | 7 => {
            let f = *rng.pick(&["add", "sub", "mul", "div", "min", "max"]);
            let a = gen_expr(rng, vars, depth - 1, false);
            let b = gen_expr(rng, vars, depth - 1, false);
            Expr::Call(f, a.into(), b.into())
        }
        8 if !first => num(rng),
        _ => {
            let e = gen_expr(rng, vars, depth - 1, true);
            if matches!(e, Expr::Add(..) | Expr::Sub(..)) { Expr::Paren(e.into()) } else { e }
        }
    }
}

pub struct Names {
    pub strs: Vec<String>,
    pub nums: Vec<String>,
    pub main: Kind,
}

fn gen_pattern(rng: &mut Rng, f: &Feat, dir: Dir, names: &mut Names, literal: bool) -> Vec<Elem> {
    let label = dir == Dir::Label;
    let not = dir == Dir::Not;
    let n = *rng.pick(&[1, 1, 1, 2, 2, 3, 4]);
    let mut els: Vec<Elem> = vec![];
    for i in 0..n {
        if i > 0 && rng.chance(3, 5) {
            let blank = if rng.chance(f.tabs, 100) { *rng.pick(&["\t", "  ", " \t", "\t\t", " "]) } else { " " };
            els.push(Elem::Lit(rng.pick(&[blank, blank, blank, ",", ", ", "=", "<"]).to_string()));
        }
        let r = rng.below(100) as u64;
        let mut t = 0;
        let mut hit = |p: u64| {
            t += p;
            r < t
        };
        let el = if literal {
            Elem::Lit(if rng.chance(1, 4) { rng.pick(&["{{a}}", "[[A]]", "[[#B]]", "{{", "[[", "a{{b"]).to_string() } else { word(rng, f) })
        } else if hit(f.re) {
            Elem::Re(pattern_re(rng, f))
        } else if hit(if label || not { 0 } else { f.strdef }) {
            let re = loop {
                let r = pattern_re(rng, f);
                let mut s = String::new();
                render_re(&r, &mut s, true);
                if !s.contains("]]") && !lazy(&r) {
                    break r;
                }
            };
            let name = if rng.chance(1, 6) && f.var_scope > 0 { rng.pick(&["$G", "$H"]) } else { rng.pick(&["A", "B", "C", "R_1"]) }.to_string();
            if els.iter().any(|e| defs(std::slice::from_ref(e)).contains(&&name)) {
                continue;
            }
            names.strs.push(name.clone());
            Elem::StrDef(name, re)
        } else if hit(if label { 0 } else { f.struse }) {
            if names.strs.is_empty() || rng.chance(1, 30) {
                if !rng.chance(1, 8) {
                    continue;
                }
                Elem::StrUse("UNDEF".into())
            } else {
                Elem::StrUse(rng.pick(&names.strs).clone())
            }
        } else if hit(if label || not { 0 } else { f.num }) {
            let fmt = if rng.chance(2, 3) { Some(gen_fmt(rng, names.main)) } else { None };
            let name = if rng.chance(3, 4) { Some(rng.pick(&["N", "M", "K"]).to_string()) } else { None };
            if let Some(n) = &name {
                if defs(&els).contains(&n) {
                    continue;
                }
                names.nums.push(n.clone());
            }
            Elem::Num(fmt, name)
        } else if hit(if label { 0 } else { f.numexpr }) {
            if names.nums.is_empty() {
                continue;
            }
            let fmt = if rng.chance(1, 4) { Some(gen_fmt(rng, names.main)) } else { None };
            // not a variable which this line defines
            let avail: Vec<String> = names.nums.iter().filter(|n| !defs(&els).contains(n)).cloned().collect();
            let leading = rng.chance(1, 6);
            let depth = if rng.chance(1, 6) { 3 } else { 2 };
            let e = gen_expr(rng, &avail, depth, !leading);
            let name = if !not && rng.chance(1, 5) { Some(rng.pick(&["N", "M", "K"]).to_string()) } else { None };
            if let Some(n) = &name {
                if defs(&els).contains(&n) {
                    continue;
                }
                names.nums.push(n.clone());
            }
            Elem::Expr(fmt, name, e, rng.chance(1, 5))
        } else if hit(if label { 0 } else { f.line }) {
            Elem::Line(*rng.pick(&[0, 0, 1, 2, -1, 5]))
        } else {
            Elem::Lit(word(rng, f))
        };
        els.push(el);
    }
    // no blanks at the ends, and nothing which would read as something else
    while matches!(els.first(), Some(Elem::Lit(s)) if s.trim().is_empty()) {
        els.remove(0);
    }
    while matches!(els.last(), Some(Elem::Lit(s)) if s.trim().is_empty()) {
        els.pop();
    }
    if els.is_empty() {
        els.push(Elem::Lit(word(rng, f)));
    }
    if let Some(Elem::Lit(s)) = els.last_mut() {
        s.truncate(s.trim_end().len());
    }
    els
}

/// The lexer reads the first `}}` and `]]` as the end of a block
pub fn readable(els: &[Elem], literal: bool) -> bool {
    if literal {
        return true;
    }
    for (i, e) in els.iter().enumerate() {
        match e {
            Elem::Lit(s) => {
                if s.contains("{{") || s.contains("[[") {
                    return false;
                }
                // a brace or bracket next to a block would join it
                let before_block = els.get(i + 1).is_some_and(|n| !matches!(n, Elem::Lit(_)));
                if before_block && (s.ends_with('{') || s.ends_with('[')) {
                    return false;
                }
                if let Some(Elem::Lit(t)) = els.get(i + 1) {
                    let j = format!("{s}{t}");
                    if j.contains("{{") || j.contains("[[") {
                        return false;
                    }
                }
                let after_block = i > 0 && !matches!(els[i - 1], Elem::Lit(_));
                if after_block && (s.starts_with('}') || s.starts_with(']')) {
                    return false;
                }
            }
            Elem::Re(r) => {
                let mut s = String::new();
                render_re(r, &mut s, true);
                if s.contains("}}") || s.ends_with('}') {
                    return false;
                }
            }
            Elem::StrDef(_, r) => {
                let mut s = String::new();
                render_re(r, &mut s, true);
                if s.contains("]]") || s.ends_with(']') || s.trim() != s {
                    return false;
                }
            }
            _ => {}
        }
    }
    true
}

/// Text which the pattern matches, updating the bindings
fn instantiate(els: &[Elem], rng: &mut Rng, m: &Model, env: &mut Env, line: usize) -> String {
    let mut o = String::new();
    m.line.set(line);
    for e in els {
        match e {
            Elem::Lit(s) => o.push_str(s),
            Elem::Re(r) => sample(r, rng, &mut o),
            Elem::StrDef(n, r) => {
                let mut s = String::new();
                sample(r, rng, &mut s);
                o.push_str(&s);
                env.insert(n.clone(), Val::Str(s));
            }
            Elem::StrUse(n) => match env.get(n) {
                Some(Val::Str(s)) => {
                    let mut s = s.clone();
                    if rng.chance(1, 12) {
                        s = WORDS[rng.below(WORDS.len())].to_string();
                    } else if rng.chance(1, 20) {
                        s.pop();
                    }
                    o.push_str(&s)
                }
                Some(Val::Num(n, f)) => o.push_str(&text(*n, f.unwrap_or_default()).unwrap_or_default()),
                None => o.push_str("undef"),
            },
            Elem::Num(f, n) => {
                let ff = f.unwrap_or_default();
                let mut v: i128 = *rng.pick(&[0, 1, 2, 3, 5, 9, 10, 12, 15, 16, 31, 99, 100, 254, 255, 256, 1000, 65535, 4294967295, 9223372036854775807, 18446744073709551615]);
                if ff.kind == Kind::D && rng.chance(1, 3) {
                    v = -v;
                }
                let mut t = text(v, ff).unwrap();
                if rng.chance(1, 10) && ff.kind != Kind::D && !ff.alt {
                    t.insert(0, '0');
                }
                if rng.chance(1, 15) {
                    t = t.replace('f', "F");
                }
                o.push_str(&t);
                if let Some(n) = n {
                    env.insert(n.clone(), Val::Num(v, Some(f.unwrap_or_default())));
                }
            }
            Elem::Line(n) => {
                let mut l = line as i64 + n;
                if rng.chance(1, 12) {
                    l += 1;
                }
                o.push_str(&l.to_string());
            }
            Elem::Expr(f, name, e, _) => {
                let (v, ef) = m.eval(e, env, *f).unwrap_or((0, None));
                let fmt = f.or(ef);
                let mut w = v;
                if rng.chance(1, 8) {
                    w = w.saturating_add(*rng.pick(&[1, -1, 10, -10]));
                }
                let ff = fmt.unwrap_or_default();
                let t = match text(w, ff) {
                    Some(t) => t,
                    // what a wrapped value would look like
                    None if rng.chance(1, 2) => (w as u64).to_string(),
                    None => w.to_string(),
                };
                let t = match rng.below(30) {
                    0 => t.to_uppercase(),
                    1 => t.trim_start_matches("0x").to_string(),
                    2 => format!("0{t}"),
                    _ => t,
                };
                o.push_str(&t);
                if let Some(n) = name {
                    env.insert(n.clone(), Val::Num(w, Some(ff)));
                }
            }
        }
    }
    o
}

pub fn generate(rng: &mut Rng, f: &Feat) -> GCase {
    let mut opts = Opts {
        ignore_case: rng.chance(f.ignore_case, 100),
        strict: rng.chance(f.strict, 100),
        var_scope: rng.chance(f.var_scope, 100),
        ..Default::default()
    };
    let mut names = Names { strs: vec![], nums: vec![], main: *rng.pick(&[Kind::U, Kind::D, Kind::X, Kind::Xu]) };
    if rng.chance(f.cli_vars, 100) {
        if f.struse > 0 {
            let n = *rng.pick(&["V", "A", "G1", "G"]);
            opts.vars.push((n.into(), Val::Str(rng.pick(&["foo", "a.b", "a", "(", "x y", "é"]).to_string())));
            names.strs.push(n.into());
        }
        if f.numexpr > 0 {
            let n = *rng.pick(&["N", "P"]);
            let fmt = rng.chance(1, 2).then(|| gen_fmt(rng, names.main));
            let v = *rng.pick(&[0, 1, 7, 42, 255]);
            opts.vars.push((n.into(), Val::Num(if fmt.is_some_and(|f| f.kind == Kind::D) && rng.chance(1, 3) { -v } else { v }, fmt)));
            names.nums.push(n.into());
        }
    }
    if rng.chance(f.implicit, 100) {
        for _ in 0..rng.range(1, 2) {
            opts.implicit_not.push(if rng.chance(2, 5) { nonnull_re(rng) } else { Re::Lit(rng.pick(&["warn", "foo", "b", "r2", "x.y", "1"]).to_string()) });
        }
    }
    // The checks
    let n = rng.range(1, f.max_checks);
    let mut checks: Vec<Check> = vec![];
    let weights = [
        (Dir::Plain, f.plain),
        (Dir::Next, f.next),
        (Dir::Same, f.same),
        (Dir::Empty, f.empty),
        (Dir::Not, f.not),
        (Dir::Dag, f.dag),
        (Dir::Label, f.label),
        (Dir::Count(0), f.count),
    ];
    let total: u64 = weights.iter().map(|w| w.1).sum();
    let mut anchored = false; // is there a check which -NEXT, -SAME and -EMPTY may follow?
    let mut after_label = false;
    while checks.len() < n {
        let mut r = rng.next() % total;
        let mut dir = Dir::Plain;
        for (d, w) in weights {
            if r < w {
                dir = d;
                break;
            }
            r -= w;
        }
        if let Dir::Count(_) = dir {
            dir = Dir::Count(rng.range(1, 4) as u32);
        }
        if matches!(dir, Dir::Next | Dir::Same | Dir::Empty) && !anchored {
            dir = Dir::Plain;
        }
        // -SAME on the line of a label, see DESIGN.md
        if matches!(dir, Dir::Same) && after_label {
            dir = Dir::Plain;
        }
        let literal = dir != Dir::Empty && rng.chance(f.literal, 100);
        let mut pat = vec![];
        if dir != Dir::Empty {
            let before = (names.strs.len(), names.nums.len());
            loop {
                names.strs.truncate(before.0);
                names.nums.truncate(before.1);
                pat = if !checks.is_empty() && rng.chance(1, 10) {
                    let c: &Check = rng.pick(&checks);
                    c.pat.clone()
                } else {
                    gen_pattern(rng, f, dir, &mut names, literal)
                };
                let vars = pat.iter().any(|e| !matches!(e, Elem::Lit(_) | Elem::Re(_)));
                let anch = pat.iter().all(|e| !matches!(e, Elem::Lit(s) if s.is_empty()));
                if !pat.is_empty() && anch && readable(&pat, literal) && !(vars && dir == Dir::Label) && !(dir == Dir::Not && !defs(&pat).is_empty()) {
                    break;
                }
            }
        }
        match dir {
            Dir::Label => {
                anchored = true;
                after_label = true;
            }
            Dir::Not => {}
            _ => {
                anchored = true;
                after_label = false;
            }
        }
        let literal = literal && pat.iter().all(|e| matches!(e, Elem::Lit(_)));
        checks.push(Check { dir, pat, literal, line: 0 });
    }
    // The text of the check file
    if rng.chance(f.prefixes, 100) {
        gen_prefixes(rng, &mut opts);
    }
    let text_ = render_checks(rng, f, &mut checks, &opts);
    let input = gen_input(rng, f, &checks, &opts);
    GCase { checks, opts, input, check_text: text_ }
}

const PREFIXES: &[&str] = &["CHECK", "FOO", "A", "AB", "A-B", "X-Y", "A_1", "foo", "N0", "CHECK-B", "B", "check"];
const COMMENTS: &[&str] = &["COM", "RUN", "REM", "C-1", "note"];

fn gen_prefixes(rng: &mut Rng, opts: &mut Opts) {
    let mut p = PREFIXES.to_vec();
    rng.shuffle(&mut p);
    opts.prefixes = p[..rng.range(1, 3)].iter().map(|s| s.to_string()).collect();
    if rng.chance(1, 2) {
        let mut c = COMMENTS.to_vec();
        rng.shuffle(&mut c);
        opts.comments = c[..rng.range(1, 2)].iter().map(|s| s.to_string()).collect();
    }
}

/// Whether a line holds a check: `None` if it does not, or where the text after its colon starts.
/// This is the definition in the property: a prefix at the start of a line or after a blank, a known suffix, a colon.
pub fn directive(line: &str, prefixes: &[String], comments: &[String]) -> Option<usize> {
    for (i, _) in line.char_indices() {
        if i > 0 && !line[..i].ends_with(char::is_whitespace) {
            continue;
        }
        let rest = &line[i..];
        if comments.iter().any(|c| rest.strip_prefix(c.as_str()).is_some_and(|r| r.starts_with(':'))) {
            return None;
        }
        for p in prefixes {
            let Some(r) = rest.strip_prefix(p.as_str()) else { continue };
            let Some(colon) = r.find(':') else { continue };
            let (mut suffix, at) = (&r[..colon], i + p.len() + colon + 1);
            if let Some((s, m)) = suffix.strip_suffix('}').and_then(|s| s.split_once('{'))
                && m.split(',').all(|m| m.trim() == "LITERAL")
            {
                suffix = s;
            }
            let known = ["", "-NEXT", "-SAME", "-NOT", "-DAG", "-LABEL", "-EMPTY"].contains(&suffix);
            let count = suffix.strip_prefix("-COUNT-").is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit()));
            if known || count {
                return Some(at);
            }
        }
    }
    None
}

/// Text which looks like a check, but is none
pub fn decoy(rng: &mut Rng, ps: &[String], cs: &[String]) -> String {
    let p = rng.pick(ps).clone();
    let c = rng.pick(cs).clone();
    let t = rng.pick(&["zzz", "{{.*}}", "{{", "[[Q]]", "foo", "a", ""]).to_string();
    let l = rng.pick(&["", "  ", "x ", "\t"]).to_string();
    let d = match rng.below(18) {
        0 => format!("{l}X{p}: {t}"),
        1 => format!("{l}-{p}: {t}"),
        2 => format!("{l}_{p}-NOT: {t}"),
        3 => format!("{l}1{p}: {t}"),
        4 => format!("{l}{p}-FOO: {t}"),
        5 => format!("{l}{p} : {t}"),
        6 => format!("{l}{p}-NEXT {t}"),
        7 => format!("{l}{p}-NOT-NEXT: {t}"),
        8 => format!("{l}{p}-COUNT: {t}"),
        9 => format!("{l}{p}-COUNT-x: {t}"),
        10 => format!("{l}{p}-COUNT-: {t}"),
        11 => format!("{l}{}: {t}", p.to_lowercase()),
        12 => format!("{l}{}-NOT: {t}", p.to_uppercase()),
        13 => format!("{l}{}: {t}", rng.pick(PREFIXES)),
        14 => format!("{l}{c}: {p}: {t}"),
        15 => format!("{l}{c}:{p}-NOT: {t} {p}: foo"),
        16 => format!("{l}{p}"),
        _ => format!("{l}{p}-not: {t}"),
    };
    if directive(&d, ps, cs).is_some() { format!("{l}{t}") } else { d }
}

/// Writes the check file, and sets the lines of the checks
pub fn render_checks(rng: &mut Rng, f: &Feat, checks: &mut [Check], opts: &Opts) -> String {
    let mut text_ = String::new();
    let mut line = 1;
    let odd = f.prefixes > 0;
    let ps = if opts.prefixes.is_empty() { vec!["CHECK".to_string()] } else { opts.prefixes.clone() };
    let cs = if opts.comments.is_empty() { vec!["COM".to_string(), "RUN".to_string()] } else { opts.comments.clone() };
    let mut unused = ps.clone();
    for c in checks.iter_mut() {
        while rng.chance(1, if odd { 2 } else { 6 }) {
            if odd && rng.chance(2, 3) {
                text_.push_str(&decoy(rng, &ps, &cs));
                text_.push('\n');
            } else {
                text_.push_str(rng.pick(&["\n", "; foo bar\n", "a\n", "// [[A]] {{x\n", "10 r1\n"]));
            }
            line += 1;
        }
        c.line = line;
        let lead = if odd { *rng.pick(&["", "; ", "// ", "  ", "foo ", "CHEC ", "x: ", "é ", "\t", "a-b, ", "{{ ", "[[ "]) } else { *rng.pick(&["", "", "", "; ", "// ", "  "]) };
        // every prefix is used, unless there are not enough checks
        let p = match unused.pop() {
            Some(p) => p,
            None => rng.pick(&ps).clone(),
        };
        let lit = if c.literal { *rng.pick(&["{LITERAL}", "{LITERAL}", "{ LITERAL }", "{LITERAL, LITERAL}"]) } else { "" };
        let gap = if f.tabs > 0 && !opts.strict { *rng.pick(&[" ", "", "\t", "  \t"]) } else { " " };
        text_.push_str(&format!("{lead}{p}{}{lit}:{gap}{}", c.dir.suffix(), render(&c.pat)));
        if f.tabs > 0 && !opts.strict && rng.chance(1, 3) {
            text_.push_str(rng.pick(&[" ", "\t", " \t "]));
        }
        if c.dir == Dir::Empty {
            while text_.ends_with(' ') {
                text_.pop();
            }
        }
        text_.push('\n');
        line += 1;
    }
    while odd && rng.chance(1, 3) {
        text_.push_str(&decoy(rng, &ps, &cs));
        text_.push('\n');
    }
    text_
}

fn noise(rng: &mut Rng, f: &Feat) -> String {
    let n = rng.below(3);
    (0..n).map(|_| word(rng, f)).collect::<Vec<_>>().join(" ")
}

pub fn gen_input(rng: &mut Rng, f: &Feat, checks: &[Check], opts: &Opts) -> String {
    let m = Model::new("", opts);
    let mut env: Env = opts.vars.iter().cloned().collect();
    let mut lines: Vec<String> = vec![String::new()];
    let app = |lines: &mut Vec<String>, s: &str, rng: &mut Rng| {
        let l = lines.last_mut().unwrap();
        if !l.is_empty() && rng.chance(5, 6) {
            l.push(' ');
        }
        l.push_str(s);
    };
    let mut closed = false; // nothing more on this line
    let mut i = 0;
    while i < checks.len() {
        let c = &checks[i];
        let tail = |lines: &mut Vec<String>, rng: &mut Rng| {
            if rng.chance(f.noise / 2, 100) {
                let n = noise(rng, f);
                let l = lines.last_mut().unwrap();
                if !n.is_empty() {
                    l.push(' ');
                    l.push_str(&n);
                }
            }
        };
        match c.dir {
            Dir::Plain | Dir::Count(_) => {
                let n = if let Dir::Count(n) = c.dir {
                    match rng.below(8) {
                        0 => n - 1,
                        1 => n + 1,
                        _ => n,
                    }
                } else {
                    1
                };
                for _ in 0..n {
                    while rng.chance(f.noise, 100) {
                        let s = noise(rng, f);
                        if closed || rng.chance(1, 2) {
                            lines.push(s);
                            closed = false;
                        } else if !s.is_empty() {
                            app(&mut lines, &s, rng);
                        }
                    }
                    if closed || rng.chance(1, 2) {
                        lines.push(String::new());
                        closed = false;
                    }
                    let s = instantiate(&c.pat, rng, &m, &mut env, c.line);
                    app(&mut lines, &s, rng);
                }
                tail(&mut lines, rng);
            }
            Dir::Next | Dir::Label => {
                if c.dir == Dir::Label && rng.chance(1, 3) {
                    lines.push(noise(rng, f));
                }
                lines.push(String::new());
                if rng.chance(f.noise / 3, 100) {
                    let s = noise(rng, f);
                    app(&mut lines, &s, rng);
                }
                let s = instantiate(&c.pat, rng, &m, &mut env, c.line);
                app(&mut lines, &s, rng);
                tail(&mut lines, rng);
                closed = c.dir == Dir::Label;
            }
            Dir::Same => {
                let s = instantiate(&c.pat, rng, &m, &mut env, c.line);
                app(&mut lines, &s, rng);
                tail(&mut lines, rng);
            }
            Dir::Empty => {
                lines.push(String::new());
                closed = true;
            }
            Dir::Not => {
                if rng.chance(1, 5) {
                    let mut env = env.clone();
                    let s = instantiate(&c.pat, rng, &m, &mut env, c.line);
                    if closed || rng.chance(1, 2) {
                        lines.push(s);
                        closed = false;
                    } else {
                        app(&mut lines, &s, rng);
                    }
                }
            }
            Dir::Dag => {
                let mut group = vec![];
                while i < checks.len() && checks[i].dir == Dir::Dag {
                    group.push(instantiate(&checks[i].pat, rng, &m, &mut env, checks[i].line));
                    i += 1;
                }
                rng.shuffle(&mut group);
                for s in group {
                    if closed || rng.chance(2, 3) {
                        lines.push(String::new());
                        closed = false;
                    }
                    if rng.chance(f.noise / 2, 100) {
                        let s = noise(rng, f);
                        app(&mut lines, &s, rng);
                    }
                    app(&mut lines, &s, rng);
                }
                continue;
            }
        }
        i += 1;
    }
    while rng.chance(f.noise, 100) {
        let s = noise(rng, f);
        lines.push(s);
    }
    if rng.chance(f.mutate, 100) {
        for _ in 0..rng.range(1, 2) {
            let n = lines.len();
            let k = rng.below(n);
            match rng.below(9) {
                0 if n > 1 => {
                    lines.remove(k);
                }
                1 => {
                    let j = rng.below(n);
                    lines.swap(k, j);
                }
                2 => {
                    let l = lines[k].clone();
                    lines.insert(k, l);
                }
                3 => {
                    let mut ws: Vec<String> = lines[k].split(' ').map(String::from).collect();
                    let j = rng.below(ws.len());
                    ws[j] = word(rng, f);
                    lines[k] = ws.join(" ");
                }
                4 => {
                    let mut ws: Vec<String> = lines[k].split(' ').map(String::from).collect();
                    let j = rng.below(ws.len());
                    ws.remove(j);
                    lines[k] = ws.join(" ");
                }
                5 => lines.insert(k, String::new()),
                6 => {
                    let mut ws: Vec<String> = lines[k].split(' ').map(String::from).collect();
                    rng.shuffle(&mut ws);
                    lines[k] = ws.join(" ");
                }
                7 => lines.insert(k, noise(rng, f)),
                _ => {
                    if k + 1 < lines.len() {
                        let l = lines.remove(k + 1);
                        lines[k].push_str(&l);
                    }
                }
            }
        }
    }
    if opts.ignore_case && rng.chance(1, 2) {
        for l in &mut lines {
            if rng.chance(1, 2) {
                *l = match rng.below(4) {
                    0 => l.to_ascii_lowercase(),
                    1 => l.chars().map(|c| if !rng.chance(1, 2) { c } else if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
                    _ => l.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
                };
            }
        }
    }
    if rng.chance(f.tabs, 100) {
        for l in &mut lines {
            let mut n = String::new();
            for c in l.chars() {
                match c {
                    ' ' | '\t' if rng.chance(1, 4) => n.push_str(rng.pick(&["\t", " ", "\t", " ", "  ", "\t ", ""])),
                    c => n.push(c),
                }
            }
            *l = n;
        }
    }
    let mut s = lines.join("\n");
    if rng.chance(7, 10) {
        s.push('\n');
    }
    if rng.chance(1, 4) {
        s.insert(0, '\n');
    }
    s
}

#[allow(dead_code)]
pub fn histogram(checks: &[Check]) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for c in checks {
        *m.entry(c.dir.suffix()).or_default() += 1;
    }
    m
}
