//! Monitors for lit's boolean expressions over features (the library part of L05).
use crate::mon::*;
use crate::rng::Rng;
use crate::{ensure, fail};
use litcheck_lit::config::{BooleanExpr, FeatureSet};
use std::collections::BTreeSet;
use std::sync::Arc;

/// Patterns with a matcher of their own (all end positions, over characters).
#[derive(Clone, Debug)]
enum Re {
    Lit(String),
    Any,
    Class(Vec<char>, bool),
    Star(Box<Re>),
    Plus(Box<Re>),
    Opt(Box<Re>),
    Rep(Box<Re>, usize),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
}
impl Re {
    fn ends(&self, s: &[char], at: &BTreeSet<usize>) -> BTreeSet<usize> {
        match self {
            Re::Lit(l) => {
                let l: Vec<char> = l.chars().collect();
                at.iter().filter(|&&p| s[p..].starts_with(&l)).map(|p| p + l.len()).collect()
            }
            Re::Any => at.iter().filter(|&&p| p < s.len() && s[p] != '\n').map(|p| p + 1).collect(),
            Re::Class(cs, neg) => at.iter().filter(|&&p| p < s.len() && cs.contains(&s[p]) != *neg).map(|p| p + 1).collect(),
            Re::Star(r) => {
                let mut all = at.clone();
                loop {
                    let next: BTreeSet<usize> = r.ends(s, &all).union(&all).copied().collect();
                    if next == all {
                        return all;
                    }
                    all = next;
                }
            }
            Re::Plus(r) => Re::Star(r.clone()).ends(s, &r.ends(s, at)),
            Re::Opt(r) => r.ends(s, at).union(at).copied().collect(),
            Re::Rep(r, n) => (0..*n).fold(at.clone(), |at, _| r.ends(s, &at)),
            Re::Cat(rs) => rs.iter().fold(at.clone(), |at, r| r.ends(s, &at)),
            Re::Alt(rs) => rs.iter().flat_map(|r| r.ends(s, at)).collect(),
        }
    }
    fn full(&self, s: &str) -> bool {
        let s: Vec<char> = s.chars().collect();
        self.ends(&s, &BTreeSet::from([0])).contains(&s.len())
    }
    fn text(&self) -> String {
        let atom = |r: &Re| match r {
            Re::Lit(l) if l.chars().count() != 1 => format!("(?:{})", r.text()),
            Re::Lit(_) | Re::Any | Re::Class(..) => r.text(),
            _ => format!("({})", r.text()),
        };
        match self {
            Re::Lit(l) => l.chars().map(|c| if c.is_alphanumeric() || "_-=".contains(c) { c.to_string() } else { format!("\\{c}") }).collect(),
            Re::Any => ".".into(),
            Re::Class(cs, neg) => format!("[{}{}]", if *neg { "^" } else { "" }, cs.iter().collect::<String>()),
            Re::Star(r) => format!("{}*", atom(r)),
            Re::Plus(r) => format!("{}+", atom(r)),
            Re::Opt(r) => format!("{}?", atom(r)),
            // never at the very end of a pattern, where its brace would close it
            Re::Rep(r, n) => format!("{}{{{n}}}(?:)", atom(r)),
            Re::Cat(rs) => rs.iter().map(|r| if matches!(r, Re::Alt(_)) { format!("({})", r.text()) } else { r.text() }).collect(),
            Re::Alt(rs) => rs.iter().map(|r| r.text()).collect::<Vec<_>>().join("|"),
        }
    }
}
const NAMES: &[&str] = &["a", "b", "aa", "ab", "a.b", "axb", "a-b", "x86_64", "x86-64", "system-linux", "linux", "c++", "cxx", "opt=1", "opt=2", "opt1", "true1", "notrue", "_", "-", "9", "A", "é", "a\nb"];

fn gen_re(r: &mut Rng, depth: usize) -> Re {
    match if depth == 0 { r.below(4) } else { r.below(11) } {
        0 | 1 => Re::Lit(r.pick(&["a", "b", "ab", ".", "x", "+", "-", "linux", "=", "é", "a.b", "1"]).to_string()),
        2 => Re::Any,
        3 => Re::Class(r.pick(&["ab", "x.+", "12", "aé=", "-_"]).chars().filter(|c| *c != '-' || true).collect(), r.chance(1, 3)),
        4 => Re::Star(Box::new(gen_re(r, depth - 1))),
        5 => Re::Plus(Box::new(gen_re(r, depth - 1))),
        6 => Re::Opt(Box::new(gen_re(r, depth - 1))),
        7 => Re::Rep(Box::new(gen_re(r, depth - 1)), r.below(3)),
        8 | 9 => Re::Alt((0..r.range(2, 3)).map(|_| gen_re(r, depth - 1)).collect()),
        _ => Re::Cat((0..r.range(1, 3)).map(|_| gen_re(r, depth - 1)).collect()),
    }
}

#[derive(Clone, Debug)]
enum Ex {
    Lit(bool),
    Var(String),
    /// identifiers and patterns next to each other
    Pat(Vec<Result<String, Re>>),
    Not(Box<Ex>),
    And(Box<Ex>, Box<Ex>),
    Or(Box<Ex>, Box<Ex>),
}
impl Ex {
    fn eval(&self, env: &[String]) -> bool {
        match self {
            Ex::Lit(b) => *b,
            Ex::Var(v) => env.contains(v),
            Ex::Pat(parts) => {
                let re = Re::Cat(parts.iter().map(|p| match p { Ok(s) => Re::Lit(s.clone()), Err(r) => r.clone() }).collect());
                env.iter().any(|v| re.full(v))
            }
            Ex::Not(x) => !x.eval(env),
            Ex::And(x, y) => x.eval(env) && y.eval(env),
            Ex::Or(x, y) => x.eval(env) || y.eval(env),
        }
    }
    fn size(&self) -> usize {
        match self {
            Ex::Not(x) => 1 + x.size(),
            Ex::And(x, y) | Ex::Or(x, y) => 1 + x.size() + y.size(),
            _ => 1,
        }
    }
    /// Text with no more parentheses than needed, plus random ones. `level`: 0 or, 1 and, 2 not.
    fn text(&self, r: &mut Rng, level: usize, out: &mut String) {
        let mine = match self { Ex::Or(..) => 0, Ex::And(..) => 1, _ => 2 };
        let parens = mine < level || r.chance(1, 8);
        let sp = |r: &mut Rng, out: &mut String| out.push_str(r.pick(&["", "", " ", " ", "  ", "\t", "\u{a0}"]));
        if parens {
            out.push('(');
            sp(r, out);
        }
        match self {
            Ex::Lit(b) => out.push_str(if *b { "true" } else { "false" }),
            Ex::Var(v) => out.push_str(v),
            Ex::Pat(ps) => for p in ps {
                match p {
                    Ok(s) => out.push_str(s),
                    Err(re) => { out.push_str("{{"); out.push_str(&re.text()); out.push_str("}}"); }
                }
            },
            Ex::Not(x) => { out.push('!'); sp(r, out); x.text(r, 2, out) }
            // chains associate either way
            Ex::And(x, y) => { let l = 1; x.text(r, l, out); sp(r, out); out.push_str("&&"); sp(r, out); let l = if r.chance(1, 2) { 1 } else { 2 }; y.text(r, l, out) }
            Ex::Or(x, y) => { x.text(r, 0, out); sp(r, out); out.push_str("||"); sp(r, out); let l = if r.chance(1, 2) { 0 } else { 1 }; y.text(r, l, out) }
        }
        if parens {
            sp(r, out);
            out.push(')');
        }
    }
}
fn ident(r: &mut Rng) -> String {
    loop {
        let n = *r.pick(NAMES);
        if n.chars().all(|c| c.is_ascii_alphanumeric() || "-+=._".contains(c)) {
            return n.to_string();
        }
    }
}
fn gen_ex(r: &mut Rng, depth: usize, pats: bool) -> Ex {
    match if depth == 0 { r.below(6) } else { r.below(14) } {
        0 => Ex::Lit(r.chance(1, 2)),
        1..=3 => Ex::Var(ident(r)),
        4 | 5 if pats => {
            let n = r.range(1, 3);
            let mut v: Vec<Result<String, Re>> = vec![];
            let must = r.below(n);
            for i in 0..n {
                // identifiers next to each other are one identifier
                let id = i != must && r.chance(1, 2) && !matches!(v.last(), Some(Ok(_)));
                v.push(if id { Ok(ident(r)) } else { Err(gen_re(r, 2)) });
            }
            Ex::Pat(v)
        }
        4 | 5 => Ex::Var(ident(r)),
        6 | 7 => Ex::Not(Box::new(gen_ex(r, depth - 1, pats))),
        8..=10 => Ex::And(Box::new(gen_ex(r, depth - 1, pats)), Box::new(gen_ex(r, depth - 1, pats))),
        _ => Ex::Or(Box::new(gen_ex(r, depth - 1, pats)), Box::new(gen_ex(r, depth - 1, pats))),
    }
}
fn envs(r: &mut Rng, n: usize) -> Vec<Vec<String>> {
    let mut v = vec![vec![], NAMES.iter().map(|s| s.to_string()).collect()];
    for _ in 0..n {
        let k = r.below(5);
        v.push((0..k).map(|_| r.pick(NAMES).to_string()).collect());
    }
    v
}
/// All ways of asking for the value of an expression
fn values(e: &BooleanExpr, env: &[String]) -> Vec<(&'static str, bool)> {
    let fs = FeatureSet::new(env.iter().cloned());
    let set: BTreeSet<String> = env.iter().cloned().collect();
    let vec = env.to_vec();
    let list = [e.clone()];
    vec![
        ("FeatureSet", e.evaluate(&fs)),
        ("Vec", e.evaluate(&vec)),
        ("slice", e.evaluate(&&env[..])),
        ("BTreeSet", e.evaluate(&set)),
        ("missing_features", fs.missing_features(&list).is_none()),
        ("unsupported_features", fs.unsupported_features(&list).is_some()),
    ]
}

// ---- a reference parser for arbitrary token sequences -----------------------
/// Simple patterns whose validity and language are known.
fn known(pat: &str) -> Option<Re> {
    let l = |s: &str| Re::Lit(s.into());
    Some(match pat {
        "a" => l("a"),
        "a.*" => Re::Cat(vec![l("a"), Re::Star(Box::new(Re::Any))]),
        ".*" => Re::Star(Box::new(Re::Any)),
        "a|b" => Re::Alt(vec![l("a"), l("b")]),
        "a{2}(?:)" => Re::Rep(Box::new(l("a")), 2),
        "[ab]+" => Re::Plus(Box::new(Re::Class(vec!['a', 'b'], false))),
        " a" => l(" a"),
        "&&" => l("&&"),
        "(a)(b)?" => Re::Cat(vec![l("a"), Re::Opt(Box::new(l("b")))]),
        "^a" | "a$" => l("a"),
        "(?i)a" => Re::Alt(vec![l("a"), l("A")]),
        _ => return None,
    })
}
const BAD_PATTERNS: &[&str] = &["(", "[", "*", ")", "a)|(b", "a{2,1}(?:)", "\\", "(?P<1>a)", "a**)", "[b-a]", "(?z)", ")("];
#[derive(Clone, Debug, PartialEq)]
enum Tk {
    Id(String),
    Re(String),
    And,
    Or,
    Not,
    L,
    R,
    Space,
    Junk,
}
struct RefParser<'a> {
    t: &'a [Tk],
    i: usize,
}
impl RefParser<'_> {
    fn sp(&mut self) {
        while self.t.get(self.i) == Some(&Tk::Space) {
            self.i += 1;
        }
    }
    fn eat(&mut self, k: Tk) -> bool {
        self.sp();
        let hit = self.t.get(self.i) == Some(&k);
        self.i += hit as usize;
        hit
    }
    fn or(&mut self) -> Option<Ex> {
        let mut l = self.and()?;
        while self.eat(Tk::Or) {
            l = Ex::Or(Box::new(l), Box::new(self.and()?));
        }
        Some(l)
    }
    fn and(&mut self) -> Option<Ex> {
        let mut l = self.not()?;
        while self.eat(Tk::And) {
            l = Ex::And(Box::new(l), Box::new(self.not()?));
        }
        Some(l)
    }
    fn not(&mut self) -> Option<Ex> {
        if self.eat(Tk::Not) {
            return Some(Ex::Not(Box::new(self.not()?)));
        }
        if self.eat(Tk::L) {
            let e = self.or()?;
            return self.eat(Tk::R).then_some(e);
        }
        self.sp();
        let mut parts: Vec<Result<String, Re>> = vec![];
        loop {
            match self.t.get(self.i) {
                Some(Tk::Id(s)) => match parts.last_mut() {
                    Some(Ok(p)) => p.push_str(s), // adjacent identifiers are one
                    _ => parts.push(Ok(s.clone())),
                },
                Some(Tk::Re(p)) => parts.push(Err(known(p)?)),
                _ => break,
            }
            self.i += 1;
        }
        match &parts[..] {
            [] => None,
            [Ok(s)] if s == "true" || s == "false" => Some(Ex::Lit(s == "true")),
            [Ok(s)] => Some(Ex::Var(s.clone())),
            _ => Some(Ex::Pat(parts)),
        }
    }
}
fn reference(t: &[Tk]) -> Option<Ex> {
    if t.contains(&Tk::Junk) {
        return None;
    }
    let mut p = RefParser { t, i: 0 };
    let e = p.or()?;
    p.sp();
    (p.i == t.len()).then_some(e)
}

pub fn l05(ctx: &Arc<Ctx>) -> i32 {
    ctx.run("exprs", ctx.n(12_000, 20), |c| {
        let e = { let d = c.rng.range(0, 5); gen_ex(&mut c.rng, d, true) };
        let mut s = String::new();
        e.text(&mut c.rng, 0, &mut s);
        let d = || format!("expression {s:?}, built as {e:?}");
        if s.contains("}}}") || s.contains("{{{") {
            return Ok(()); // which braces close the pattern is left open
        }
        let parsed = match s.parse::<BooleanExpr>() {
            Ok(p) => p,
            Err(err) => fail!(d(), "refused: {err}"),
        };
        // what it displays as means the same
        let shown = parsed.to_string();
        let again = shown.parse::<BooleanExpr>();
        let comparable = !shown.contains("}}}") && !shown.contains("{{{");
        let (mut t, mut f) = (0, 0);
        for env in envs(&mut c.rng, 6) {
            let want = e.eval(&env);
            for (how, got) in values(&parsed, &env) {
                ensure!(got == want, format!("{}\nfeatures {env:?}", d()), "evaluates to {got} instead of {want} ({how})");
            }
            if comparable {
                match &again {
                    Ok(a) => ensure!(a.evaluate(&env) == want, format!("{}\nfeatures {env:?}", d()), "its display {shown:?} evaluates to {}", !want),
                    Err(err) => fail!(d(), "its display {shown:?} is refused: {err}"),
                }
            }
            if want { t += 1 } else { f += 1 }
        }
        c.count_n("evaluations to true", t);
        c.count_n("evaluations to false", f);
        c.evaluated((e.size() > 1 && t > 0 && f > 0).then_some(s.as_str()));
        Ok(())
    });
    // truth tables: every assignment of up to four variables
    ctx.run("tables", ctx.n(4_000, 20), |c| {
        let vars = ["a", "aa", "a.b", "x86_64"];
        fn go(r: &mut Rng, depth: usize, vars: &[&str]) -> Ex {
            match if depth == 0 { 0 } else { r.below(5) } {
                0 => Ex::Var(r.pick(vars).to_string()),
                1 => Ex::Not(Box::new(go(r, depth - 1, vars))),
                2 | 3 if r.chance(1, 2) => Ex::And(Box::new(go(r, depth - 1, vars)), Box::new(go(r, depth - 1, vars))),
                _ => Ex::Or(Box::new(go(r, depth - 1, vars)), Box::new(go(r, depth - 1, vars))),
            }
        }
        let e = { let d = c.rng.range(1, 6); go(&mut c.rng, d, &vars) };
        let mut s = String::new();
        e.text(&mut c.rng, 0, &mut s);
        let parsed = match s.parse::<BooleanExpr>() {
            Ok(p) => p,
            Err(err) => fail!(format!("expression {s:?}"), "refused: {err}"),
        };
        let mut rows = 0u32;
        for m in 0..16u32 {
            let env: Vec<String> = (0..4).filter(|i| m >> i & 1 == 1).map(|i| vars[i as usize].to_string()).collect();
            let want = e.eval(&env);
            rows |= (want as u32) << m;
            for (how, got) in values(&parsed, &env) {
                ensure!(got == want, format!("expression {s:?}\nfeatures {env:?}"), "evaluates to {got} instead of {want} ({how})");
            }
        }
        c.count_n("rows of truth tables", 16);
        c.evaluated((rows != 0 && rows != 0xffff).then_some(format!("{s}")).as_deref());
        Ok(())
    });
    ctx.run("soups", ctx.n(40_000, 20), |c| {
        let n = c.rng.range(0, 12);
        let r = &mut c.rng;
        let mut toks = vec![];
        let mut text = String::new();
        // mostly alternate operands and operators, so that many are valid
        let mut operand = true;
        for _ in 0..n {
            let natural = r.chance(7, 8);
            let pick = if !natural { r.below(20) } else if operand { r.below(12) } else { 12 + r.below(5) };
            let (tk, s) = match pick {
                0..=4 => { let i = r.pick(&["a", "b", "true", "false", "aa", "a.b", "-", "x=1", "TRUE", "A"]).to_string(); operand = false; (Tk::Id(i.clone()), i) }
                5 | 6 => { let p = r.pick(&["a", "a.*", ".*", "a|b", "a{2}(?:)", "[ab]+", " a", "&&", "(a)(b)?", "(?i)a"]).to_string(); operand = false; (Tk::Re(p.clone()), format!("{{{{{p}}}}}")) }
                7 if r.chance(1, 3) => { let p = r.pick(BAD_PATTERNS).to_string(); operand = false; (Tk::Re(p.clone()), format!("{{{{{p}}}}}")) }
                7..=9 => (Tk::Not, "!".into()),
                10 | 11 => (Tk::L, "(".into()),
                12 | 13 => { operand = true; (Tk::And, "&&".into()) }
                14 => { operand = true; (Tk::Or, "||".into()) }
                15 | 16 => (Tk::R, ")".into()),
                17 => (Tk::Space, r.pick(&[" ", "\t", "  ", "\u{2003}"]).to_string()),
                _ => {
                    let j = r.pick(&["&", "|", "{{}}", "{a}}", "{", "}", "}}", "é", "\0", "~", ",", "*", "#", "\"", "@", "1:2", "/", "&|", "|&", "^", "😀", "<", "\\"]).to_string();
                    (Tk::Junk, j)
                }
            };
            // what would merge with its neighbours into other tokens
            if matches!(tk, Tk::Junk) && matches!(toks.last(), Some(Tk::Junk | Tk::And | Tk::Or | Tk::Re(_))) {
                continue;
            }
            if matches!(tk, Tk::And | Tk::Or | Tk::Re(_)) && matches!(toks.last(), Some(Tk::Junk)) {
                toks.push(Tk::Space);
                text.push(' ');
            }
            toks.push(tk);
            text.push_str(&s);
            if r.chance(1, 4) {
                toks.push(Tk::Space);
                text.push(' ');
            }
        }
        let d = || format!("expression {text:?}\ntokens {toks:?}");
        let want = reference(&toks);
        match (text.parse::<BooleanExpr>(), &want) {
            (Err(_), None) => c.count("malformed, refused"),
            (Ok(p), None) => fail!(d(), "malformed, but accepted as {p}"),
            (Err(err), Some(_)) => fail!(d(), "well-formed, but refused: {err}"),
            (Ok(p), Some(e)) => {
                c.count("well-formed");
                for env in envs(&mut c.rng, 4) {
                    let want = e.eval(&env);
                    for (how, got) in values(&p, &env) {
                        ensure!(got == want, format!("{}\nfeatures {env:?}", d()), "evaluates to {got} instead of {want} ({how})");
                    }
                }
            }
        }
        c.evaluated((toks.len() > 2).then_some(text.as_str()));
        Ok(())
    });
    // lists of conditions
    ctx.run("lists", ctx.n(4_000, 10), |c| {
        let n = c.rng.below(4);
        let mut exs = vec![];
        for _ in 0..n {
            let e = gen_ex(&mut c.rng, 2, false);
            let mut s = String::new();
            e.text(&mut c.rng, 0, &mut s);
            match s.parse::<BooleanExpr>() {
                Ok(p) => exs.push((e, s, p)),
                Err(err) => fail!(s, "refused: {err}"),
            }
        }
        let list: Vec<BooleanExpr> = exs.iter().map(|x| x.2.clone()).collect();
        for env in envs(&mut c.rng, 6) {
            let fs = FeatureSet::new(env.iter().cloned());
            let d = || format!("conditions {:?}\nfeatures {env:?}", exs.iter().map(|x| &x.1).collect::<Vec<_>>());
            let (all, any) = (exs.iter().all(|x| x.0.eval(&env)), exs.iter().any(|x| x.0.eval(&env)));
            ensure!(fs.missing_features(&list).is_none() == all, d(), "REQUIRES would be {}, but they are {all}", !all);
            ensure!(fs.unsupported_features(&list).is_some() == any, d(), "UNSUPPORTED would be {}, but it is {any}", !any);
        }
        let key = format!("{:?}", exs.iter().map(|x| &x.1).collect::<Vec<_>>());
        c.evaluated((n > 1).then_some(key.as_str()));
        Ok(())
    });
    // long and deep expressions are evaluated or refused, in a thread as small as those that run tests
    ctx.run("deep", ctx.n(80, 5), |c| {
        let n = if c.rng.chance(1, 2) { c.rng.range(1, if c.idx % 7 == 6 { 1000 } else { 100 }) } else { 10usize.pow(c.rng.range(1, 5) as u32) + c.rng.below(9) };
        let s = match c.idx % 7 {
            // wide, but not deep
            6 => "!b".to_string() + &" && (a)".repeat(n / 3) + &" && !(b)".repeat(n / 3),
            0 => "!".repeat(n) + "a",
            1 => "(".repeat(n) + "a" + &")".repeat(n),
            2 => "a".to_string() + &" || a".repeat(n),
            3 => "a".to_string() + &" && a".repeat(n),
            4 => "!(".repeat(n) + "a" + &")".repeat(n),
            _ => "(".repeat(n),
        };
        let (ops, kind) = (n, c.idx % 7);
        let out = std::thread::Builder::new().stack_size(2 << 20).spawn(move || match s.parse::<BooleanExpr>() {
            Ok(e) => {
                let _ = e.to_string();
                let _ = e.clone() == e;
                Some((e.evaluate(&vec!["a"]), e.evaluate(&Vec::<&str>::new())))
            }
            Err(_) => None,
        }).unwrap().join();
        let d = || format!("kind {kind}, {ops} operators");
        match out {
            Err(_) => fail!(d(), "panicked"),
            Ok(None) => {
                ensure!(ops > if kind == 6 { 1000 } else { 100 } || kind == 5, d(), "a simple expression is refused");
                c.count("refused");
            }
            Ok(Some(got)) => {
                let want = match kind { 6 if ops < 3 => (true, true), 0 | 4 if ops % 2 == 1 => (false, true), _ => (true, false) };
                ensure!(kind != 5 && got == want, d(), "evaluates to {got:?} instead of {want:?}");
                c.count("evaluated");
            }
        }
        c.evaluated(Some(&format!("{kind} {ops}")));
        Ok(())
    });
    ctx.finish(
        "exploration",
        "One case is a generated expression (from an AST with random spelling, a truth table, a soup of tokens or a list of conditions), parsed by the library and evaluated over generated feature sets in every available way; a reference parser and evaluator with its own regular expression matcher gives the expected value or rejection. Non-trivial: more than one operator with both truth values seen.",
        &["which of three or more consecutive braces end a pattern is left open"],
    )
}
