//! FileCheck properties: runs the library on generated check files and inputs, and compares what it
//! reports with the reference model.
use crate::genr::*;
use crate::model::*;
use crate::mon::*;
use crate::{ensure, fail};
use litcheck::Symbol;
use litcheck::diagnostics::{FileName, SourceFile, SourceLanguage};
use litcheck_filecheck::{Config, Options, Test};
use std::sync::Arc;

/// What the library reported
#[derive(Debug, Clone, PartialEq)]
pub enum Real {
    Pass(Vec<RealMatch>),
    Fail(String),
}
#[derive(Debug, Clone, PartialEq)]
pub struct RealMatch {
    /// 1-based line of the check
    pub line: usize,
    pub start: usize,
    pub end: usize,
}

pub fn config(o: &Opts) -> Config {
    let mut options = Options {
        ignore_case: o.ignore_case,
        strict_whitespace: o.strict,
        match_full_lines: o.full_lines,
        enable_var_scope: o.var_scope,
        allow_empty: o.allow_empty,
        ..Options::default()
    };
    options.implicit_check_not = o
        .implicit_not
        .iter()
        .map(|r| {
            let mut s = String::new();
            render_re(r, &mut s, true);
            Symbol::intern(s)
        })
        .collect();
    let syms = |v: &[String]| v.iter().map(Symbol::intern).collect::<Vec<_>>();
    if !o.prefixes.is_empty() {
        options.check_prefixes = syms(&o.prefixes);
        options.allow_unused_prefixes = true;
    }
    if !o.comments.is_empty() {
        options.comment_prefixes = syms(&o.comments);
    }
    options.variables = o.vars.iter().map(|(n, v)| cli_var(n, v).parse().expect("a variable")).collect();
    Config { options, ..Config::default() }
}
pub fn cli_var(n: &str, v: &Val) -> String {
    match v {
        Val::Str(s) => format!("{n}={s}"),
        Val::Num(v, f) => {
            let mut s = String::from("#");
            if let Some(f) = f {
                render_fmt(*f, &mut s);
                s.push(',');
            }
            // spelled as an expression for some values
            s + &match v {
                42 => format!("{n}=40+2"),
                255 => format!("{n}=256-1"),
                7 => format!("{n}=max(7,min(3,9))"),
                -42 => format!("{n}=-21 - 21"),
                -7 => format!("{n}=mul(7,-1)"),
                v => format!("{n}={v}"),
            }
        }
    }
}
pub fn load(c: &Config, name: &str, text: &str) -> Arc<SourceFile> {
    c.source_manager.load(SourceLanguage::Unknown, FileName::from(name.to_string()), text.to_string())
}
pub fn verify(c: &Config, checks: &str, input: &str) -> Result<Real, String> {
    let cf = load(c, "checks", checks);
    let inp = load(c, "input", input);
    verify_files(c, cf, inp)
}
pub fn verify_files(c: &Config, cf: Arc<SourceFile>, inp: Arc<SourceFile>) -> Result<Real, String> {
    let text = cf.as_str().to_string();
    let id = cf.id();
    let mut t = Test::new(cf, c);
    match guarded(|| t.verify(inp))? {
        Ok(ms) => Ok(Real::Pass(
            ms.iter()
                .map(|m| {
                    let at = m.pattern_span.start().to_usize().min(text.len());
                    let line = if m.pattern_span.source_id() == id { text.as_bytes()[..at].iter().filter(|b| **b == b'\n').count() + 1 } else { 0 };
                    RealMatch { line, start: m.span.start().to_usize(), end: m.span.end().to_usize() }
                })
                .collect(),
        )),
        Err(e) => Ok(Real::Fail(format!("{e:?}"))),
    }
}

pub fn show(g: &GCase) -> String {
    let mut o = String::new();
    let opt = &g.opts;
    for (b, n) in [(opt.ignore_case, "--ignore-case"), (opt.strict, "--strict-whitespace"), (opt.full_lines, "--match-full-lines"), (opt.var_scope, "--enable-var-scope"), (opt.allow_empty, "--allow-empty")] {
        if b {
            o += n;
            o.push(' ');
        }
    }
    for r in &opt.implicit_not {
        o += "--implicit-check-not '";
        render_re(r, &mut o, true);
        o += "' ";
    }
    for (l, n) in [(&opt.prefixes, "--check-prefixes"), (&opt.comments, "--comment-prefixes")] {
        if !l.is_empty() {
            o += &format!("{n} {} ", l.join(","));
        }
    }
    for (n, v) in &opt.vars {
        o += &format!("-D'{}' ", cli_var(n, v));
    }
    format!("options: {o}\n--- checks\n{}--- input\n{}\n---", g.check_text, g.input)
}

/// Compares one case with the model.
pub fn compare(case: &mut Case, g: &GCase) -> Result<Option<Run>, Fail> {
    let m = Model::new(&g.input, &g.opts);
    let run = match m.run(&g.checks) {
        Ok(r) => r,
        Err(why) => {
            case.count(&format!("skipped: {why}"));
            case.evaluated(None);
            return Ok(None);
        }
    };
    case.describe(|| show(g));
    let c = config(&g.opts);
    let real = match verify(&c, &g.check_text, &g.input) {
        Ok(r) => r,
        Err(p) => fail!(show(g), "{p}"),
    };
    let det = |extra: String| format!("{}\nexpected: {:?} {:?}\n{extra}", show(g), run.outcome, run.matches);
    match (&run.outcome, &real) {
        (Outcome::Pass, Real::Pass(ms)) => {
            case.count("accepted");
            if run.dag_overlap {
                case.count("accepted: -DAG checks competed for the same text");
            }
            if run.dag_reassigned {
                case.count("accepted: -DAG matches were reassigned");
            }
            {
                let mut want: Vec<RealMatch> = run.matches.iter().map(|&(c, s, e)| RealMatch { line: g.checks[c].line, start: s, end: e }).collect();
                want.sort_by_key(|m| m.line);
                ensure!(*ms == want, det(format!("reported: {ms:?}")), "the reported matches are not those of the checks");
            }
        }
        (Outcome::Fail { kind, .. }, Real::Fail(_)) => {
            case.count(match kind {
                FailKind::NoMatch => "rejected: no match",
                FailKind::Forbidden(_) => "rejected: forbidden text",
                FailKind::Error => "rejected: error in an expression",
                FailKind::EmptyInput => "rejected: empty input",
            });
        }
        (Outcome::Pass, Real::Fail(e)) => fail!(det(e.clone()), "an input which satisfies every check is rejected"),
        (Outcome::Fail { check, kind }, Real::Pass(ms)) => fail!(det(format!("reported: {ms:?}")), "an input is accepted although check {:?} fails ({kind:?})", check.map(|c| g.checks[c].line)),
    }
    for c in &g.checks {
        let d = match c.dir {
            Dir::Count(_) => "checks: -COUNT".into(),
            d => format!("checks: {}", if d == Dir::Plain { "plain".into() } else { d.suffix() }),
        };
        case.count(&d);
    }
    let nontrivial = !run.matches.is_empty();
    let shown = show(g);
    case.evaluated(nontrivial.then_some(shown.as_str()));
    Ok(Some(run))
}

fn feat(prop: &str, variant: usize) -> Feat {
    let d = Feat::default();
    match (prop, variant) {
        ("C01", _) => Feat { next: 5, same: 4, empty: 3, ..d },
        ("C02", 0) => Feat { not: 8, next: 2, same: 1, empty: 1, ..d },
        ("C02", 1) => Feat { not: 5, plain: 6, dag: 3, implicit: 60, re: 10, ..d },
        ("C02", _) => Feat { not: 4, plain: 5, dag: 2, label: 4, next: 2, same: 1, empty: 1, implicit: 70, max_checks: 8, re: 10, mutate: 25, ..d },
        ("C03", 0) => Feat { dag: 14, plain: 4, re: 15, ..d },
        ("C03", _) => Feat { dag: 14, plain: 4, not: 4, strdef: 8, struse: 8, next: 1, ..d },
        ("C04", _) => Feat { label: 8, not: 2, next: 2, same: 2, empty: 1, dag: 2, max_checks: 9, ..d },
        ("C05", _) => Feat { count: 10, plain: 5, next: 2, not: 2, ..d },
        ("C06", 0) => Feat { strdef: 22, struse: 25, re: 10, next: 2, same: 2, cli_vars: 20, special: 15, ..d },
        ("C06", _) => Feat { strdef: 22, struse: 25, re: 5, label: 4, var_scope: 60, not: 2, dag: 2, cli_vars: 20, ..d },
        ("C07", _) => Feat { num: 30, numexpr: 35, re: 3, line: 4, next: 2, cli_vars: 15, noise: 25, mutate: 20, ..d },
        ("C10", _) => Feat { re: 35, special: 35, literal: 15, strdef: 5, not: 2, ..d },
        ("C08", 0) => Feat { tabs: 60, strict: 50, re: 10, next: 3, same: 2, literal: 10, label: 1, dag: 2, not: 3, mutate: 25, ..d },
        ("C08", _) => Feat { ignore_case: 70, strict: 20, tabs: 10, next: 2, same: 2, literal: 6, label: 2, dag: 3, not: 3, strdef: 6, struse: 6, num: 12, numexpr: 8, cli_vars: 10, ..d },
        ("C09", _) => Feat { prefixes: 80, next: 3, same: 2, empty: 1, not: 3, dag: 3, label: 2, count: 2, literal: 5, ..d },
        ("mix", _) => Feat {
            next: 3, same: 2, empty: 1, not: 3, dag: 3, label: 2, count: 2, strdef: 10, struse: 10, num: 8, numexpr: 8, line: 1,
            literal: 5, special: 10, var_scope: 15, ignore_case: 10, strict: 10, cli_vars: 10, max_checks: 8, ..d
        },
        _ => d,
    }
}

fn one(case: &mut Case, f: &Feat) -> Result<(), Fail> {
    let g = generate(&mut case.rng.clone(), f);
    compare(case, &g).map(|_| ())
}

const RULE: &str = "A case is one check file, input and option set run through the library and the reference model. It is non-trivial when at least one positive check matched. Cases the property does not settle are counted as skipped.";

pub fn modelled(ctx: &Arc<Ctx>, variants: usize, n: u64) -> i32 {
    ctx.run("large", ctx.n(400, 10), crate::fc_scale::scale);
    for v in 0..variants {
        let f = feat(&ctx.prop, v);
        ctx.run(&format!("model{v}"), ctx.n(n, 25), |case| one(case, &f));
    }
    if ctx.prop == "C08" {
        ctx.probe("full-lines", || {
            let mut c = Config::default();
            c.options.match_full_lines = true;
            match verify(&c, "CHECK: b\n", "abc\n") {
                Ok(Real::Fail(_)) => Ok(()),
                r => Err(Fail::new(format!("--match-full-lines accepts a match within a line: {r:?}"), String::new())),
            }
        });
    }
    let f = feat("mix", 0);
    ctx.run("mix", ctx.n(n / 4, 25), |case| one(case, &f));
    ctx.finish("exploration", RULE, &["the reference model"])
}
