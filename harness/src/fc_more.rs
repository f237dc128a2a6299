//! Robustness, determinism, line endings and failure reports of FileCheck (C11-C14).
use crate::fc_checks::*;
use crate::genr::*;
use crate::model::*;
use crate::mon::*;
use crate::rng::{hash_str, mix, Rng};
use crate::{ensure, fail};
use litcheck::Symbol;
use litcheck::diagnostics::{Diagnostic, Report, SourceCode, SourceFile};
use litcheck_filecheck::{Config, Test, TestFailed};
use std::sync::Arc;

/// One match as the library reports it: where its check is, and the text it covers
#[derive(Debug, Clone, PartialEq)]
pub struct M {
    pub line: usize,
    pub in_checks: bool,
    pub pattern: (usize, usize),
    pub span: (usize, usize),
    pub text: String,
    pub input_line: usize,
}
fn line_of(t: &str, at: usize) -> usize {
    t.as_bytes()[..at.min(t.len())].iter().filter(|b| **b == b'\n').count() + 1
}

/// Runs a verification; the outer error is a panic.
pub fn run_raw(c: &Config, checks: &str, input: &str) -> Result<Result<Vec<M>, Report>, String> {
    let cf = load(c, "checks", checks);
    let inp = load(c, "input", input);
    run_files(c, cf, inp)
}
pub fn run_files(c: &Config, cf: Arc<SourceFile>, inp: Arc<SourceFile>) -> Result<Result<Vec<M>, Report>, String> {
    guarded(|| {
        let mut t = Test::new(cf.clone(), c);
        t.verify(inp.clone()).map(|ms| {
            ms.iter()
                .map(|m| {
                    let src = c.source_manager.get(m.span.source_id()).expect("the source of a match");
                    let t = src.as_str();
                    let (s, e) = (m.span.start().to_usize(), m.span.end().to_usize());
                    let (ps, pe) = (m.pattern_span.start().to_usize(), m.pattern_span.end().to_usize());
                    let cs = cf.as_str();
                    let inside = m.pattern_span.source_id() == cf.id();
                    if inside {
                        assert!(cs.get(ps..pe).is_some(), "the span {ps}..{pe} of a check is not in the check file");
                    }
                    for (k, cap) in m.captures.iter().enumerate() {
                        let (a, b) = (cap.span.start().to_usize(), cap.span.end().to_usize());
                        assert!(cap.span.source_id() == m.span.source_id() && s <= a && a <= b && b <= e, "the span {a}..{b} of a capture is not within its match at {s}..{e}");
                        if let litcheck_filecheck::expr::Value::Str(v) = &cap.value {
                            assert!(t.get(a..b) == Some(&**v), "a capture of {v:?} is located at {:?}", t.get(a..b));
                        }
                        let same = m.captures[..k].iter().any(|o| o.span == cap.span && o.index == cap.index && o.capture == cap.capture);
                        assert!(!same, "the capture at {a}..{b} is listed twice");
                    }
                    M {
                        line: if inside { line_of(cs, ps) } else { 0 },
                        in_checks: inside,
                        pattern: (ps, pe),
                        span: (s, e),
                        text: t.get(s..e).unwrap_or_else(|| panic!("the span {s}..{e} of a match is not in the input")).to_string(),
                        input_line: line_of(t, s),
                    }
                })
                .collect()
        })
    })
}

/// Renders a report in every way the tool can
pub fn render_all(e: &Report) -> Result<String, String> {
    guarded(|| {
        use miette::{GraphicalReportHandler, GraphicalTheme, JSONReportHandler, NarratableReportHandler, ReportHandler};
        struct Graphical<'a>(litcheck::reporting::NarrateDistantLabels<GraphicalReportHandler>, &'a dyn Diagnostic);
        impl std::fmt::Display for Graphical<'_> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                self.0.debug(self.1, f)
            }
        }
        let mut all = String::new();
        let d: &dyn Diagnostic = e.as_ref();
        // the raw handler panics for labels in extremely long lines, so the tool does not use it for those
        let handler = GraphicalReportHandler::new_themed(GraphicalTheme::unicode_nocolor());
        all.push_str(&Graphical(litcheck::reporting::NarrateDistantLabels(handler), d).to_string());
        NarratableReportHandler::new().render_report(&mut all, d).unwrap_or_else(|e| panic!("narratable: {e} {d:?}"));
        JSONReportHandler::new().render_report(&mut all, d).expect("json");
        all.push_str(&format!("{e} {e:?}"));
        all
    })
}

#[derive(Debug, Clone)]
pub struct L {
    pub file: String,
    pub start: usize,
    pub len: usize,
    /// 1-based, as the source itself counts
    pub line: usize,
    pub text: String,
    pub msg: String,
}
/// All labels of a diagnostic, with the name of the file each refers to.
pub fn labels(d: &dyn Diagnostic, src: Option<&dyn SourceCode>, out: &mut Vec<Result<L, String>>) {
    let src = d.source_code().or(src);
    for l in d.labels().into_iter().flatten() {
        let text = l.label().unwrap_or("").to_string();
        match src {
            None => out.push(Err(format!("a label ({text}) without a source"))),
            Some(s) => match s.read_span(l.inner(), 0, 0) {
                Err(e) => out.push(Err(format!("the label {text:?} at {}+{} cannot be read: {e}", l.offset(), l.len()))),
                Ok(c) => out.push(Ok(L { file: c.name().unwrap_or("?").to_string(), start: l.offset(), len: l.len(), line: c.line() + 1, text, msg: d.to_string() })),
            },
        }
    }
    for r in d.related().into_iter().flatten() {
        labels(r, src, out);
    }
    if let Some(r) = d.diagnostic_source() {
        labels(r, src, out);
    }
}

// ---------------------------------------------------------------- C11

const TOKENS: &[&str] = &[
    "CHECK:", "CHECK-NEXT:", "CHECK-SAME:", "CHECK-NOT:", "CHECK-DAG:", "CHECK-LABEL:", "CHECK-EMPTY:", "CHECK-COUNT-2:", "CHECK-COUNT-0:", "CHECK-COUNT-99999999999999999999:",
    "CHECK-COUNT-x:", "CHECK{LITERAL}:", "CHECK{LITERAL", "CHECK{}:", "CHECK{FOO}:", "CHECK-", "CHECK", "COM:", "RUN:", "{{", "}}", "[[", "]]", "[[#", "[[@", "@LINE", "[[@LINE", "[[#@LINE+1]]", "[[@LINE-9]]",
    "%", "%u", "%.3d", "%#x", "%X,", "%.99999999999u", "N:", "N", "[[N]]", "[[N:", "[[#N:]]", "[[#N]]", "[[#N+1]]", "[[#N-18446744073709551615]]", "==", "+", "-", "*", "(", ")", "|", "?", ",", "mul(", "add(1,2)", "div(1,0)", "min(", "$", "[[$G:.*]]", "[[$G]]",
    ".*", "[a-z]+", "(?i)", "(?P<a>b)", "\\", "\\b", "\\1", "\\Q", "{3}", "{,}", "{1000000}", "^", "[^", "[a", "é", "日本", "\u{200b}", "\u{feff}", "\0", "\r", "\t", " ", " ", "\n", "\n", "\n", "\r\n", "a", "b", "foo", "1", "18446744073709551616", "-1", "0x", "0xFF", "ffff", "\u{2028}", "\u{85}", "𝒳", "{{a|b}}", "{{}}", "[[]]", "[[:]]", "[[A:]]", "[[A:a{{b}}]]", "[[#]]", "[[#%]]", "[[# ]]", "[[ A]]", "[[-A]]", "[[9:]]",
];

fn soup(rng: &mut Rng, n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        if rng.chance(1, 40) {
            let c = loop {
                if let Some(c) = char::from_u32(rng.next() as u32 % 0x11_0000) {
                    break c;
                }
            };
            s.push(c);
        } else {
            s.push_str(rng.pick(TOKENS));
            if rng.chance(1, 3) {
                s.push(' ');
            }
        }
    }
    s
}
fn hostile_checks(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.range(1, 5) {
        if rng.chance(4, 5) {
            s.push_str(rng.pick(&TOKENS[..16]));
            s.push(' ');
        }
        let n = rng.range(0, 6);
        s.push_str(&soup(rng, n));
        if rng.chance(9, 10) {
            s.push('\n');
        }
    }
    s
}
fn mutate_text(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..rng.range(1, 4) {
        let at = rng.below(c.len() + 1);
        match rng.below(5) {
            0 if !c.is_empty() => {
                let end = (at + rng.range(1, 6)).min(c.len());
                c.drain(at.min(end)..end);
            }
            1 | 2 => {
                let t: Vec<char> = rng.pick(TOKENS).chars().collect();
                c.splice(at..at, t);
            }
            3 if c.len() > 1 => {
                let (i, j) = (rng.below(c.len()), rng.below(c.len()));
                c.swap(i, j);
            }
            _ => {
                let end = (at + rng.range(1, 10)).min(c.len());
                let t: Vec<char> = c[at..end].to_vec();
                let to = rng.below(c.len() + 1);
                c.splice(to..to, t);
            }
        }
    }
    c.into_iter().collect()
}
fn hostile_config(rng: &mut Rng) -> (Config, String) {
    let mut c = Config::default();
    let o = &mut c.options;
    o.allow_empty = rng.chance(1, 3);
    o.allow_unused_prefixes = rng.chance(1, 2);
    o.strict_whitespace = rng.chance(1, 4);
    o.match_full_lines = rng.chance(1, 6);
    o.ignore_case = rng.chance(1, 4);
    o.enable_var_scope = rng.chance(1, 4);
    o.verbose = if rng.chance(1, 10) { rng.range(1, 2) as u8 } else { 0 };
    o.dump_input = *rng.pick(&[litcheck_filecheck::Dump::Fail, litcheck_filecheck::Dump::Always, litcheck_filecheck::Dump::Never]);
    if rng.chance(1, 4) {
        for _ in 0..rng.range(1, 3) {
            let n = rng.range(1, 3);
            o.implicit_check_not.push(Symbol::intern(soup(rng, n)));
        }
    }
    if rng.chance(1, 6) {
        o.check_prefixes = (0..rng.range(1, 3)).map(|_| Symbol::intern(*rng.pick(&["CHECK", "A", "FOO", "CHECK-NOT", "CHECK-DAG", "N", "COM", "X-1", "_"]))).collect();
    }
    if rng.chance(1, 4) {
        for _ in 0..rng.range(1, 3) {
            let v = if rng.chance(1, 2) {
                let n = rng.range(1, 4);
                soup(rng, n)
            } else {
                rng.pick(&["A=b", "#N=5", "N=", "#%x,N=0xff", "$G=1", "#N=-1", "A=", "=", "", "#", "#N=N", "#N=99999999999999999999", "N=[[", "#M=N+1", "#%.3u,N=007"]).to_string()
            };
            if let Ok(v) = v.parse() {
                o.variables.push(v);
            }
        }
    }
    let d = format!("{:?}", o);
    (c, d)
}

/// Runs one verification; a panic, in it or in rendering the report, is a failure.
fn robust(case: &mut Case, c: &Config, d: &str, checks: &str, input: &str) -> Result<Option<bool>, Fail> {
    let shown = || format!("options: {d}\n--- checks {checks:?}\n{checks}\n--- input {:?}\n---", &input[..input.floor_char_boundary(3000)]);
    case.describe(shown);
    match run_raw(c, checks, input) {
        Err(p) => fail!(shown(), "verification panics: {p}"),
        Ok(Ok(ms)) => {
            case.count("passed");
            case.evaluated((!ms.is_empty()).then(|| format!("{checks:?} {d}")).as_deref());
            Ok(Some(true))
        }
        Ok(Err(e)) => {
            match render_all(&e) {
                Err(p) => fail!(shown(), "rendering the report panics: {p}"),
                Ok(text) => {
                    ensure!(!text.trim().is_empty(), shown(), "the report is empty");
                    let failed = e.downcast_ref::<TestFailed>().is_some();
                    case.count(if failed { "failed checks" } else { "rejected check files" });
                    case.evaluated(Some(&format!("{checks:?} {d}")));
                    Ok(Some(false))
                }
            }
        }
    }
}

/// Lines which make any check file invalid
const MALFORMED: &[&str] = &[
    "CHECK: {{a", "CHECK: [[X", "CHECK: [[X:a", "CHECK: [[#X", "CHECK: {{(}}", "CHECK: {{[}}", "CHECK: {{*}}", "CHECK: {{a{2,1}}} ", "CHECK: [[X:(]]", "CHECK: [[#%q,N:]]", "CHECK-COUNT-0: a",
    "CHECK-COUNT-99999999999999999999: a", "CHECK-EMPTY: foo", "CHECK:", "CHECK-NOT:", "CHECK-DAG:  ", "CHECK-LABEL:", "CHECK-NEXT:", "CHECK-LABEL: [[X:a]]", "CHECK-LABEL: a [[X]]", "CHECK: [[#1+]]",
    "CHECK: [[#foo(1,2)]]", "CHECK: [[#add(1)]]", "CHECK: [[]]", "CHECK: [[9X:a]]",
];
const FIRST: &[&str] = &["CHECK-NEXT: a", "CHECK-SAME: a", "CHECK-EMPTY:"];

/// A check file with one malformed line, and that line's number
fn malformed(rng: &mut Rng, f: &Feat) -> (GCase, String, usize) {
    let g = generate(rng, f);
    let mut lines: Vec<&str> = g.check_text.lines().collect();
    let at = if rng.chance(1, 6) {
        let first = lines.iter().position(|l| directive(l, &["CHECK".into()], &["COM".into(), "RUN".into()]).is_some()).unwrap_or(0);
        let at = rng.below(first + 1);
        lines.insert(at, rng.pick(FIRST));
        at
    } else {
        let at = rng.below(lines.len() + 1);
        lines.insert(at, rng.pick(MALFORMED));
        at
    };
    let checks = lines.join("\n") + if rng.chance(1, 2) { "\n" } else { "" };
    (g, checks, at + 1)
}

pub fn c11(ctx: &Arc<Ctx>) -> i32 {
    let mix_feat = mixed();
    ctx.run("soup", ctx.n(20_000, 30), |case| {
        let mut rng = case.rng.clone();
        let (c, d) = hostile_config(&mut rng);
        let checks = hostile_checks(&mut rng);
        let n = rng.below(30);
        let input = soup(&mut rng, n);
        // no check line at all, and no implicit check: never a pass
        let ps: Vec<String> = c.options.check_prefixes.iter().map(|s| s.as_str().to_string()).collect();
        let cs: Vec<String> = c.options.comment_prefixes.iter().map(|s| s.as_str().to_string()).collect();
        let r = robust(case, &c, &d, &checks, &input)?;
        if r == Some(true) && c.options.implicit_check_not.is_empty() && !ps.iter().any(|p| checks.contains(p.as_str())) {
            fail!(format!("{d}\n{checks:?} {cs:?}"), "a check file without checks passes");
        }
        Ok(())
    });
    ctx.run("mutants", ctx.n(20_000, 30), |case| {
        let mut rng = case.rng.clone();
        let g = generate(&mut rng, &mix_feat);
        let mut checks = g.check_text.clone();
        let mut input = g.input.clone();
        if rng.chance(3, 4) {
            checks = mutate_text(&mut rng, &checks);
        }
        if rng.chance(1, 2) {
            input = mutate_text(&mut rng, &input);
        }
        let (c, d) = if rng.chance(1, 2) { (config(&g.opts), String::new()) } else { hostile_config(&mut rng) };
        robust(case, &c, &d, &checks, &input).map(|_| ())
    });
    // A malformed check line, wherever it stands, is an error
    ctx.run("malformed", ctx.n(6_000, 30), |case| {
        let mut rng = case.rng.clone();
        let (g, checks, _) = malformed(&mut rng, &mix_feat);
        let c = config(&g.opts);
        if robust(case, &c, "", &checks, &g.input)? == Some(true) {
            fail!(format!("{checks}--- input\n{}", g.input), "a malformed check file passes");
        }
        case.count("malformed check files rejected");
        Ok(())
    });
    // The same construct again and again, nested or in a row, on a stack of the usual size
    ctx.run("huge", ctx.n(160, 8), |case| {
        let mut rng = case.rng.clone();
        let n = 10usize.pow(rng.range(1, 3) as u32) * rng.range(1, 30);
        // groups of CHECK-DAG take (much) more than quadratic time
        let n = if case.idx % 26 == 11 { n.min(400) } else { n };
        // one text too few, and each position of the input is tried in vain
        let n = if matches!(case.idx % 26, 9 | 10) { n.min(500) } else { n };
        // showing where each of them matched takes quadratic time
        let n = if matches!(case.idx % 26, 12..=17) { n.min(2000) } else { n };
        let r = |a: &str| a.repeat(n);
        let many = |a: &str| format!("CHECK: a\n{}", r(a));
        let kind = case.idx % 26;
        let checks = match kind {
            0 => format!("CHECK: [[#{}1{}]]\n", r("("), r(")")),
            1 => format!("CHECK: [[#1{}]]\n", r("+1")),
            2 => format!("CHECK: [[#{}1{}]]\n", r("min("), r(",1)")),
            3 => format!("CHECK: [[#X:{}1{}]]\n", r("add(1,"), r(")")),
            4 => format!("CHECK: {{{{{}a{}}}}}\n", r("("), r(")")),
            5 => format!("CHECK: {{{{a{}}}}}\n", r("|a")),
            6 => format!("CHECK: {}\n", r("{{a*}}")),
            7 => format!("CHECK: {}\n", r("a {{.*}}")),
            8 => format!("CHECK: {}\n", r("[[X:a]]")),
            9 => format!("CHECK: [[X:a]]{}\n", r("[[X]]")),
            10 => format!("CHECK: [[#X:]]{}\n", r("[[#X]]")),
            11 => many("CHECK-DAG: a\n"),
            12 => many("CHECK-NOT: b\n"),
            13 => many("CHECK-LABEL: a\n"),
            14 => many("CHECK-SAME: a\n"),
            15 => many("CHECK-NEXT: a\n"),
            16 => many("CHECK-EMPTY:\n"),
            17 => format!("CHECK-COUNT-{n}: a\n"),
            18 => format!("CHECK: {}\n", r("[[")),
            19 => format!("CHECK: {}\n", r("{{")),
            20 => format!("CHECK: {}\n", r("a")),
            21 => format!("{}CHECK: a\n", r("COM: a\n")),
            22 => format!("CHECK: [[#{}X]]\n", r("-")),
            23 => format!("CHECK: [[{}:a]]\n", r("X")),
            24 => format!("CHECK{}: a\n", r("{LITERAL}")),
            _ => format!("CHECK: [[#X:1]]\nCHECK: [[#{}X{}]]\n", r("(X+"), r(")")),
        };
        let input = match rng.below(5) {
            0 => r("a"),
            1 => r("a\n"),
            2 => format!("1\n{}", n + 1),
            3 => r("a b\n\n"),
            _ => String::new(),
        };
        let d = format!("construct {kind} repeated {n} times");
        case.count("repeated constructs");
        std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || robust(case, &Config::default(), &d, &checks, &input).map(|_| ())).unwrap().join().unwrap_or(Ok(())))
    });
    ctx.run("nochecks", ctx.n(3_000, 30), |case| {
        let mut rng = case.rng.clone();
        let ps = vec!["CHECK".to_string()];
        let cs = vec!["COM".to_string(), "RUN".to_string()];
        let mut checks = String::new();
        for _ in 0..rng.below(6) {
            let l = decoy(&mut rng, &ps, &cs);
            if directive(&l, &ps, &cs).is_none() {
                checks.push_str(&l);
                checks.push('\n');
            }
        }
        let n = rng.below(10);
        let input = if rng.chance(1, 2) { checks.clone() } else { soup(&mut rng, n) };
        let mut c = Config::default();
        c.options.allow_empty = rng.chance(1, 2);
        c.options.allow_unused_prefixes = rng.chance(1, 2);
        if robust(case, &c, "", &checks, &input)? == Some(true) {
            fail!(checks, "a check file without checks passes");
        }
        case.count("check files without checks rejected");
        Ok(())
    });
    // Long lines, many lines, many checks
    ctx.run("large", ctx.n(60, 10), |case| {
        let mut rng = case.rng.clone();
        let g = generate(&mut rng, &mix_feat);
        let (mut checks, mut input) = (g.check_text.clone(), g.input.clone());
        match rng.below(4) {
            0 => input = format!("{}{input}", "lorem ipsum dolor 12 a b\n".repeat(8000)),
            1 => input = format!("{}\n{input}", "x y 1 é ".repeat(20_000)),
            2 => {
                checks = String::new();
                input = String::new();
                for i in 0..1500 {
                    checks.push_str(&format!("CHECK{}: line {i}\n", rng.pick(&["", "-NEXT", "-DAG"]).replace("-NEXT", if i == 0 { "" } else { "-NEXT" })));
                    input.push_str(&format!("a line {i} b\n"));
                }
                if rng.chance(1, 2) {
                    checks.push_str("CHECK: missing\n");
                }
            }
            _ => {
                let n = rng.range(20, 200);
                checks.push_str(&format!("CHECK: {}\n", "{{a*}}".repeat(n)));
                input.push_str(&"a".repeat(3000));
            }
        }
        let c = config(&g.opts);
        robust(case, &c, "", &checks, &input).map(|_| ())
    });
    // Lines so long that what is to be shown of them is extremely far to the right
    ctx.run("wide", ctx.n(400, 8), |case| {
        let mut rng = case.rng.clone();
        let g = generate(&mut rng, &mix_feat);
        let widen = |rng: &mut Rng, text: &str, chance: u64, anywhere: bool| {
            let mut out: Vec<String> = vec![];
            for l in text.lines() {
                let mut l = l.to_string();
                if rng.chance(chance, 10) {
                    let unit = *rng.pick(&["x", "x", " ", "\t", "\t", "é", "日", "x\t", "a ", "\u{200b}", "\r", "👩‍👩‍👧"]);
                    let n = *rng.pick(&[16_382, 16_384, 21_845, 32_768, 65_534, 65_535, 65_536, 65_537, 70_000, 140_000]) / if rng.chance(1, 3) { unit.len() } else { 1 } + rng.below(3);
                    // A text of which a long prefix is repeated, and which a variable captures, takes a minute to build a searcher for
                    let filler = if anywhere {
                        let mut f = String::new();
                        while f.len() < n * unit.len() {
                            f.push_str(&unit.repeat(1 + rng.below(20)));
                            f.push((b'a' + rng.below(26) as u8) as char);
                        }
                        f
                    } else {
                        unit.repeat(n)
                    };
                    let at = match rng.below(4) {
                        _ if !anywhere => 0,
                        0 | 1 => 0,
                        2 => l.len(),
                        _ => l.floor_char_boundary(rng.below(l.len() + 1)),
                    };
                    l.insert_str(at, &filler);
                    if anywhere && rng.chance(1, 5) {
                        l.push_str(&filler);
                    }
                }
                out.push(l);
            }
            out.join("\n") + "\n"
        };
        let (ci, cc) = *rng.pick(&[(3, 0), (8, 0), (0, 3), (0, 8), (3, 3), (8, 2)]);
        let (mut checks, input) = (g.check_text.clone(), widen(&mut rng, &g.input, ci, true));
        match rng.below(6) {
            0 => checks.push_str("CHECK: missing\n"),
            1 => checks.push_str("CHECK-NEXT: {{.}}\n"),
            2 => checks.insert_str(0, "CHECK-NOT: {{[a-z]$}}\n"),
            3 => checks.push_str(rng.pick(MALFORMED)),
            _ => {}
        }
        // a literal as long as that takes a minute to build a searcher for, without optimizations
        let checks = widen(&mut rng, &checks, cc, false);
        let c = config(&g.opts);
        robust(case, &c, "", &checks, &input).map(|_| ())
    });
    ctx.finish("exploration", "One case is a hostile check file, input and option set; verification and rendering of its report (three renderers) run under a panic monitor and a 20 s watchdog, with overflow and debug assertions on. Malformed check files must be rejected. Non-trivial: a check file was rejected, a check failed, or something matched.", &["time bound: 20 s per verification"])
}

pub fn mixed() -> Feat {
    Feat {
        next: 3, same: 2, empty: 1, not: 3, dag: 3, label: 2, count: 2, strdef: 10, struse: 10, num: 8, numexpr: 8, line: 1,
        literal: 5, special: 10, var_scope: 15, ignore_case: 10, strict: 10, cli_vars: 10, max_checks: 8, ..Feat::default()
    }
}

// ---------------------------------------------------------------- C12

/// `Config` holds a `dyn SourceManager` which is not declared to be shareable; the one in use is.
struct Shared(Config);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
const _: fn() = || {
    fn sync<T: Send + Sync>() {}
    sync::<litcheck::diagnostics::DefaultSourceManager>();
};

/// What a user sees of a verification: matches, or every label of the report, in order.
pub fn digest(c: &Config, checks: &str, input: &str) -> Result<String, String> {
    Ok(match run_raw(c, checks, input)? {
        Ok(ms) => format!("{ms:?}"),
        Err(e) => render_all(&e)?,
    })
}
fn c12_case(seed: u64, i: u64, f: &Feat) -> GCase {
    generate(&mut Rng::new(mix(seed ^ 0xC12, i)), f)
}
/// The hidden sub-command: digests of cases `0..n`, run in an order given by `order`
pub fn print_digests(seed: u64, n: u64, order: u64) {
    let f = c12_feat();
    let mut ids: Vec<u64> = (0..n).collect();
    if order > 0 {
        let mut rng = Rng::new(order);
        for i in 0..rng.below(500) {
            Symbol::intern(format!("noise{i}"));
        }
        rng.shuffle(&mut ids);
    }
    let shared: Arc<dyn litcheck::diagnostics::SourceManager> = Config::default().source_manager;
    let mut out: Vec<(u64, u64)> = ids
        .into_iter()
        .map(|i| {
            let g = c12_case(seed, i, &f);
            let mut c = config(&g.opts);
            if order > 0 {
                c.source_manager = shared.clone();
            }
            (i, hash_str(&digest(&c, &g.check_text, &g.input).unwrap_or_else(|p| p)))
        })
        .collect();
    out.sort();
    for (i, h) in out {
        println!("{i} {h:x}");
    }
}
fn c12_feat() -> Feat {
    Feat { mutate: 70, dag: 6, implicit: 20, ..mixed() }
}

pub fn c12(ctx: &Arc<Ctx>) -> i32 {
    let f = c12_feat();
    // One thread: the same verification again, with a used and with a fresh configuration
    ctx.run("repeat", ctx.n(6_000, 30), |case| {
        let g = generate(&mut case.rng.clone(), &f);
        let h = generate(&mut case.rng.clone(), &Feat { max_checks: 9, ..f.clone() });
        let c = config(&g.opts);
        let first = digest(&c, &g.check_text, &g.input).map_err(|p| Fail::new(p, show(&g)))?;
        for k in 0..3 {
            let other = match k {
                0 => digest(&c, &g.check_text, &g.input),
                1 => {
                    let _ = digest(&c, &h.check_text, &h.input);
                    digest(&c, &g.check_text, &g.input)
                }
                _ => digest(&config(&g.opts), &g.check_text, &g.input),
            };
            let other = other.map_err(|p| Fail::new(p, show(&g)))?;
            ensure!(other == first, format!("{}\nfirst: {first}\nthen: {other}", show(&g)), "a repeated verification reports something else");
        }
        case.count_n("repetitions", 3);
        case.evaluated(Some(&show(&g)));
        Ok(())
    });
    // Threads: several verifications at the same time, sharing the configuration or the source manager
    ctx.run_on(2, "threads", ctx.n(150, 40), |case| {
        let mut rng = case.rng.clone();
        let k = 6;
        let share_config = rng.chance(1, 2);
        let gs: Vec<GCase> = (0..k)
            .map(|_| generate(&mut rng, &if share_config { Feat { cli_vars: 0, implicit: 0, ignore_case: 0, strict: 0, var_scope: 0, ..f.clone() } } else { f.clone() }))
            .collect();
        let base: Vec<String> = gs.iter().map(|g| digest(&config(&g.opts), &g.check_text, &g.input)).collect::<Result<_, _>>().map_err(|p| Fail::new(p, ""))?;
        let one = Shared(Config::default());
        let configs: Vec<Shared> = gs
            .iter()
            .map(|g| {
                let mut c = config(&g.opts);
                c.source_manager = one.0.source_manager.clone();
                Shared(c)
            })
            .collect();
        let nthreads = rng.range(2, 8);
        let seeds: Vec<u64> = (0..nthreads).map(|_| rng.next()).collect();
        case.describe(|| gs.iter().map(show).collect::<Vec<_>>().join("\n\n"));
        let bar = std::sync::Barrier::new(nthreads);
        let bad: Vec<(usize, String)> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|&s| {
                    let (gs, base, configs, one, bar) = (&gs, &base, &configs, &one, &bar);
                    sc.spawn(move || {
                        let mut rng = Rng::new(s);
                        let mut order: Vec<usize> = (0..k).chain(0..k).collect();
                        rng.shuffle(&mut order);
                        bar.wait();
                        let mut bad = vec![];
                        for i in order {
                            Symbol::intern(format!("t{}", rng.next() % 5000));
                            let c: &Shared = if share_config { one } else { &configs[i] };
                            let d = digest(&c.0, &gs[i].check_text, &gs[i].input).unwrap_or_else(|p| p);
                            if d != base[i] {
                                bad.push((i, d));
                            }
                        }
                        bad
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        if let Some((i, d)) = bad.first() {
            fail!(format!("{}\nalone: {}\namong others: {d}", show(&gs[*i]), base[*i]), "a verification among concurrent ones reports something else");
        }
        case.count_n("concurrent verifications", (nthreads * 2 * k) as u64);
        case.evaluated(Some(&format!("{nthreads} {share_config} {}", gs.iter().map(|g| g.check_text.as_str()).collect::<Vec<_>>().join("---"))));
        Ok(())
    });
    // Processes: other hash seeds, addresses and interning orders
    let n = ctx.n(1500, 10);
    ctx.run("processes", ctx.n(4, 4), |case| {
        let exe = std::env::current_exe().map_err(|e| Fail::new(e.to_string(), ""))?;
        let seed = mix(case.ctx.seed, 12);
        let run = |order: u64| -> Result<Vec<String>, Fail> {
            let o = std::process::Command::new(&exe).args(["digests", &seed.to_string(), &n.to_string(), &order.to_string()]).output().map_err(|e| Fail::new(e.to_string(), ""))?;
            ensure!(o.status.success(), String::from_utf8_lossy(&o.stderr).to_string(), "the process ends with {}", o.status);
            Ok(String::from_utf8_lossy(&o.stdout).lines().map(String::from).collect())
        };
        let a = run(0)?;
        let b = run(case.idx * 77 + 1)?;
        ensure!(a.len() as u64 == n && a.len() == b.len(), String::new(), "{} and {} of {n} results", a.len(), b.len());
        let f = c12_feat();
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            ensure!(x == y, show(&c12_case(seed, i as u64, &f)), "another process, in which other verifications ran before, reports something else ({x} and {y})");
        }
        case.count_n("verifications compared across processes", n);
        case.evaluated(Some(&format!("process pair {}", case.idx)));
        Ok(())
    });
    ctx.finish("exploration", "Every verification is digested (each match with its spans and text, or the report as rendered) and compared with the digest of the same verification alone: repeated, after others, on 2-8 threads that share configuration or source manager, and in other processes in another order.", &["thread schedules are those the OS gives"])
}

// ---------------------------------------------------------------- C13

fn crlf(rng: &mut Rng, s: &str, mixed: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c == '\n' && (!mixed || rng.chance(1, 2)) {
            o.push('\r');
        }
        o.push(c);
    }
    o
}

/// What must not depend on line ends
#[derive(Debug, PartialEq, Clone)]
enum Seen {
    Pass(Vec<(usize, usize, String)>),
    Fail(Vec<(String, usize, String)>),
}
fn seen(c: &Config, checks: &str, input: &str) -> Result<(Seen, Option<Report>), String> {
    Ok(match run_raw(c, checks, input)? {
        Ok(ms) => (Seen::Pass(ms.iter().map(|m| (m.line, m.input_line, m.text.clone())).collect()), None),
        Err(e) => {
            let mut ls = vec![];
            labels(e.as_ref(), None, &mut ls);
            let mut v = vec![];
            for l in ls.into_iter().flatten() {
                if l.file == "checks" {
                    v.push((l.file, l.line, l.text));
                } else if l.file == "input" && l.text.starts_with("match") {
                    v.push((l.file, l.line, l.text));
                }
            }
            (Seen::Fail(v), Some(e))
        }
    })
}

pub fn c13(ctx: &Arc<Ctx>) -> i32 {
    let feats = [
        Feat { mutate: 30, ..mixed() },
        Feat { next: 5, same: 4, empty: 5, not: 3, strdef: 20, struse: 20, re: 30, num: 10, numexpr: 10, ..Feat::default() },
        Feat { tabs: 50, prefixes: 40, strict: 40, literal: 10, next: 3, same: 2, empty: 2, not: 3, count: 2, dag: 3, label: 3, ..Feat::default() },
    ];
    for (k, f) in feats.iter().enumerate() {
        ctx.run(&format!("endings{k}"), ctx.n(3_000, 60), |case| {
            let mut rng = case.rng.clone();
            let mut g = generate(&mut rng, f);
            // regexes and captures which reach the end of the line
            if rng.chance(1, 4) {
                g.check_text.push_str(rng.pick(&["CHECK: [[Z:.+]]\nCHECK-NOT: [[Z]]x\n", "CHECK-SAME: {{.*}}\n", "CHECK: {{.*}}\nCHECK-NEXT: {{[^a]*}}\n", "CHECK: {{a$}}\n", "CHECK: {{\\S+$}}\n", "CHECK: [[#Y:]]\n"]));
                if directive(&g.check_text, &["CHECK".into()], &["COM".into(), "RUN".into()]).is_none() && !g.opts.prefixes.is_empty() {
                    return Ok(());
                }
            }
            // many lines before, among or after the interesting ones
            if rng.chance(1, 6) {
                for text in [&mut g.input, &mut g.check_text] {
                    if rng.chance(2, 3) {
                        let at = if rng.chance(1, 3) { 0 } else { let l: Vec<usize> = text.match_indices('\n').map(|(i, _)| i + 1).collect(); if l.is_empty() { 0 } else { *rng.pick(&l) } };
                        let filler: String = (0..rng.range(20, 400)).map(|i| format!("{}\n", ["", "~", " ~ ~", "~%~"][i % 4])).collect();
                        text.insert_str(at, &filler);
                    }
                }
                case.count("long files");
            }
            let c = config(&g.opts);
            case.describe(|| show(&g));
            let (base, shown) = seen(&c, &g.check_text, &g.input).map_err(|p| Fail::new(p, show(&g)))?;
            let trimmed = g.check_text.strip_suffix('\n').unwrap_or(&g.check_text).to_string();
            let m = rng.chance(1, 3);
            let variants = [
                ("input with CRLF", g.check_text.clone(), crlf(&mut rng, &g.input, false)),
                ("checks with CRLF", crlf(&mut rng, &g.check_text, m), g.input.clone()),
                ("both with CRLF", crlf(&mut rng, &g.check_text, m), crlf(&mut rng, &g.input, m)),
                ("no final newline", trimmed.clone(), g.input.clone()),
                ("CRLF and no final newline", crlf(&mut rng, &trimmed, false), crlf(&mut rng, &g.input, true)),
            ];
            for (name, ch, inp) in &variants {
                // the same file again, or one of another name
                let c2 = if rng.chance(1, 2) { &c } else { &config(&g.opts) };
                let (v, vs) = seen(c2, ch, inp).map_err(|p| Fail::new(format!("{name}: {p}"), show(&g)))?;
                let det = || format!("{}\nLF: {base:?}\n{shown:?}\n{name}: {v:?}\n{vs:?}", show(&g));
                if let Seen::Pass(ms) = &v {
                    ensure!(ms.iter().all(|m| !m.2.contains('\r')), det(), "{name}: a carriage return is part of a match");
                }
                match (&base, &v) {
                    (Seen::Fail(_), Seen::Fail(_)) => case.count("failing in both"),
                    _ => case.count("passing in both"),
                }
                ensure!(v == base, det(), "{name}: the result is another one");
            }
            case.evaluated(matches!(&base, Seen::Pass(v) if !v.is_empty()).then(|| show(&g)).as_deref());
            Ok(())
        });
    }
    ctx.finish("exploration", "Each generated check file and input is verified with LF, with CRLF or mixed line ends in either or both, and without the final newline of the check file; verdict, check lines, input lines and matched texts (or the places the report blames) are compared. Non-trivial: something matched.", &["carriage returns occur only before line feeds"])
}

// ---------------------------------------------------------------- C14

const BLAME: &[&str] = &[
    "this check failed", "pattern at this location was not matched", "pattern at this location was invalid", "due to pattern at this location", "by this pattern", "excluded by this pattern",
    "no matches were found for expected pattern",
];
fn blames(l: &str) -> bool {
    BLAME.contains(&l) || l.starts_with("when matching this pattern")
}

pub fn c14(ctx: &Arc<Ctx>) -> i32 {
    let feats = [
        Feat { mutate: 80, ..mixed() },
        Feat { mutate: 60, not: 6, label: 3, dag: 4, next: 3, count: 3, special: 40, ..Feat::default() },
        Feat { mutate: 60, prefixes: 60, next: 3, same: 2, empty: 1, not: 4, dag: 3, label: 2, count: 2, literal: 5, ..Feat::default() },
    ];
    for (k, f) in feats.iter().enumerate() {
        ctx.run(&format!("reports{k}"), ctx.n(9_000, 40), |case| report_case(case, f));
    }
    let mix_feat = Feat { prefixes: 0, ..mixed() };
    ctx.run("rejected", ctx.n(6_000, 40), |case| {
        let mut rng = case.rng.clone();
        let (g, checks, line) = malformed(&mut rng, &mix_feat);
        let shown = || format!("{checks}--- input\n{}", g.input);
        case.describe(shown);
        let c = config(&g.opts);
        match run_raw(&c, &checks, &g.input).map_err(|p| Fail::new(p, shown()))? {
            Ok(_) => fail!(shown(), "a malformed check file passes"),
            Err(e) => {
                let rendered = render_all(&e).map_err(|p| Fail::new(p, shown()))?;
                let mut ls = vec![];
                labels(e.as_ref(), None, &mut ls);
                let mut at = vec![];
                for l in ls {
                    let l = l.map_err(|p| Fail::new(p, format!("{}\n{rendered}", shown())))?;
                    if l.file == "checks" {
                        at.push(l.line);
                    }
                }
                ensure!(at.contains(&line), format!("{}\nlabels on lines {at:?}\n{rendered}", shown()), "the report does not show line {line}, which is malformed");
                ensure!(rendered.contains(&format!("checks:{line}:")), format!("{}\n{rendered}", shown()), "the rendered report does not name line {line}");
                case.count("malformed lines located");
                case.evaluated(Some(&checks));
            }
        }
        Ok(())
    });
    ctx.finish("exploration", "Generated verifications of which the reference model knows the failing check or the matches. On a pass, the span of each match and of its check; on a failure, every label of the report: readable, on character boundaries, blaming the failing check and none that the model found satisfied. Non-trivial: a check failed, or matched.", &["the reference model decides which check fails", "after the first failure, which later checks are reported is not judged"])
}

fn report_case(case: &mut Case, f: &Feat) -> Result<(), Fail> {
    let g = generate(&mut case.rng.clone(), f);
    let model = Model::new(&g.input, &g.opts);
    let Ok(run) = model.run(&g.checks) else {
        case.evaluated(None);
        return Ok(());
    };
    case.describe(|| show(&g));
    let c = config(&g.opts);
    let lines: Vec<&str> = g.check_text.split('\n').collect();
    let ps = if g.opts.prefixes.is_empty() { vec!["CHECK".to_string()] } else { g.opts.prefixes.clone() };
    let cs = if g.opts.comments.is_empty() { vec!["COM".to_string(), "RUN".to_string()] } else { g.opts.comments.clone() };
    let r = run_raw(&c, &g.check_text, &g.input).map_err(|p| Fail::new(p, show(&g)))?;
    let e = match r {
        Ok(ms) => {
            for m in &ms {
                ensure!(m.in_checks, format!("{}\n{m:?}", show(&g)), "the check of a match is not in the check file");
                let start: usize = lines[..m.line - 1].iter().map(|l| l.len() + 1).sum();
                let end = start + lines[m.line - 1].len();
                ensure!(m.pattern.1 <= end, format!("{}\n{m:?}", show(&g)), "the location of a check reaches beyond its line");
                let Some(k) = g.checks.iter().find(|k| k.line == m.line) else { fail!(format!("{}\n{m:?}", show(&g)), "a match is located on line {}, which has no check", m.line) };
                if k.dir != Dir::Empty {
                    let at = start + directive(lines[m.line - 1], &ps, &cs).unwrap_or(0);
                    ensure!(m.pattern.0 >= at && m.pattern.0 < m.pattern.1, format!("{}\n{m:?}", show(&g)), "the location of a match is not the pattern of its check");
                }
                case.count("matches located");
            }
            if run.outcome == Outcome::Pass {
                let mut want: Vec<(usize, usize, usize)> = run.matches.iter().map(|&(c, s, e)| (g.checks[c].line, s, e)).collect();
                let mut got: Vec<(usize, usize, usize)> = ms.iter().map(|m| (m.line, m.span.0, m.span.1)).collect();
                want.sort();
                got.sort();
                ensure!(want == got, format!("{}\nexpected (line, start, end): {want:?}\nreported: {got:?}", show(&g)), "the reported matches are not where the checks matched");
            }
            case.evaluated((!ms.is_empty()).then(|| show(&g)).as_deref());
            return Ok(());
        }
        Err(e) => e,
    };
    let rendered = render_all(&e).map_err(|p| Fail::new(p, show(&g)))?;
    let mut ls = vec![];
    labels(e.as_ref(), None, &mut ls);
    let det = |x: String| format!("{}\nmodel: {:?} {:?}\n{x}\n{rendered}", show(&g), run.outcome, run.matches);
    let mut good = vec![];
    for l in ls {
        match l {
            Err(p) => fail!(det(String::new()), "{p}"),
            Ok(l) => {
                let t = match l.file.as_str() {
                    "checks" => Some(&g.check_text),
                    "input" => Some(&g.input),
                    _ => None,
                };
                if let Some(t) = t {
                    ensure!(t.get(l.start..l.start + l.len).is_some(), det(format!("{l:?}")), "the label {:?} is not on character boundaries of its file", l.text);
                    ensure!(l.line == line_of(t, l.start), det(format!("{l:?}")), "the label {:?} is said to be on line {}", l.text, l.line);
                } else {
                    case.count("labels in pseudo files");
                }
                // a check is blamed by its pattern
                if l.file == "checks"
                    && blames(&l.text)
                    && let Some(k) = g.checks.iter().find(|k| k.line == l.line)
                    && k.dir != Dir::Empty
                {
                    let start: usize = lines[..l.line - 1].iter().map(|l| l.len() + 1).sum();
                    let at = start + directive(lines[l.line - 1], &ps, &cs).unwrap_or(0);
                    ensure!(l.start >= at, det(format!("{l:?}")), "the label {:?} does not point to the pattern of the check on line {}", l.text, l.line);
                    case.count("blamed patterns");
                }
                case.count("labels checked");
                good.push(l);
            }
        }
    }
    ensure!(!rendered.contains("Failed to read contents"), det(String::new()), "a label cannot be rendered");
    let Outcome::Fail { check, kind } = &run.outcome else {
        // the model decides C01-C10; not judged here
        case.evaluated(None);
        return Ok(());
    };
    // A check which was found, but too early, is named like this
    let named: Vec<usize> = good.iter().filter(|l| l.file == "checks" && l.text == "because it cannot be reordered past this pattern").map(|l| l.line).collect();
    let blamed: Vec<usize> = good.iter().filter(|l| l.file == "checks" && blames(&l.text)).map(|l| l.line).collect();
    let group = |i: usize| -> Vec<usize> {
        let mut v = vec![i];
        if g.checks[i].dir == Dir::Dag {
            let mut j = i;
            while j > 0 && g.checks[j - 1].dir == Dir::Dag {
                j -= 1;
                v.push(j);
            }
            j = i;
            while j + 1 < g.checks.len() && g.checks[j + 1].dir == Dir::Dag {
                j += 1;
                v.push(j);
            }
        }
        v
    };
    // With a forbidden text and a missing match, either may be reported
    let positives: Vec<Check> = g.checks.iter().filter(|c| c.dir != Dir::Not).cloned().collect();
    let opts2 = Opts { implicit_not: vec![], ..g.opts.clone() };
    let run2 = Model::new(&g.input, &opts2).run(&positives).ok();
    let own2: Vec<usize> = match &run2 {
        Some(Run { outcome: Outcome::Fail { check: Some(j), .. }, dag_overlap, dag_reassigned, .. }) if *dag_overlap || *dag_reassigned => {
            let l = positives[*j].line;
            group(g.checks.iter().position(|c| c.line == l).unwrap()).into_iter().map(|i| g.checks[i].line).collect()
        }
        Some(Run { outcome: Outcome::Fail { check: Some(j), .. }, .. }) => vec![positives[*j].line],
        None => return Ok(()),
        _ => vec![],
    };
    // Of several forbidden texts, any may be reported, if it really is forbidden, and there
    let mut other = vec![];
    if matches!(kind, FailKind::Forbidden(_)) {
        for (j, c) in g.checks.iter().enumerate() {
            if c.dir != Dir::Not || !blamed.contains(&c.line) || *check == Some(j) {
                continue;
            }
            let only: Vec<Check> = g.checks.iter().filter(|o| o.dir != Dir::Not || o.line == c.line).cloned().collect();
            let Ok(run3) = Model::new(&g.input, &opts2).run(&only) else { return Ok(()) };
            let Outcome::Fail { check: Some(k), kind: FailKind::Forbidden(at) } = run3.outcome else {
                if run3.dag_reassigned || run3.dag_overlap {
                    return Ok(());
                }
                // not judged after a missing match
                if !own2.is_empty() || matches!(run3.outcome, Outcome::Fail { check: Some(k), kind: FailKind::Error } if only[k].line == c.line) {
                    other.push(c.line);
                    continue;
                }
                fail!(det(format!("alone: {:?}", run3.outcome)), "the report blames the check on line {}, which is satisfied", c.line)
            };
            let found: Vec<usize> = good.iter().filter(|l| l.file == "input" && l.text == "match found here").map(|l| l.start).collect();
            if only[k].line == c.line {
                ensure!(found.contains(&at), det(format!("reported at {found:?}")), "the place {at} of the forbidden text is not reported");
                other.push(c.line);
                case.count("another forbidden text reported");
            }
        }
    }
    if let Some(i) = *check {
        case.count(&format!("failing: {}{}", g.checks[i].dir.suffix().trim_end_matches(|c: char| c.is_ascii_digit()), match kind { FailKind::Forbidden(_) => " forbidden", FailKind::Error => " error", _ => "" }));
        let own: Vec<usize> = if run.dag_reassigned || run.dag_overlap { group(i) } else { vec![i] }.into_iter().map(|i| g.checks[i].line).collect();
        ensure!(blamed.iter().chain(&named).any(|l| own.contains(l) || own2.contains(l) || other.contains(l)), det(format!("blamed lines: {blamed:?}")), "the report does not blame the check on line {}, which fails", g.checks[i].line);
        // no satisfied check is blamed
        let last = run.matches.iter().map(|m| m.0).filter(|&m| m < i).max();
        for (j, c) in g.checks.iter().enumerate() {
            let matched = run.matches.iter().any(|m| m.0 == j) && j != i && !group(i).contains(&j);
            let not_ok = c.dir == Dir::Not && last.is_some_and(|l| j < l) && j != i && !other.contains(&c.line);
            // Where the order is what is blamed, the CHECK-DAG before the check that came too early bound nothing
            let unbounded = c.dir == Dir::Not && !named.is_empty() && g.checks[j..].iter().find(|o| o.dir != Dir::Not).is_some_and(|o| o.dir == Dir::Dag);
            if (matched || not_ok) && !unbounded && !own2.contains(&c.line) && g.checks[i].dir != Dir::Label {
                ensure!(!blamed.contains(&c.line), det(format!("blamed lines: {blamed:?}")), "the report blames the check on line {}, which is satisfied", c.line);
                case.count("satisfied checks not blamed");
            }
        }
    }
    if let FailKind::Forbidden(at) = kind
        && other.is_empty()
        && !blamed.iter().chain(&named).any(|l| own2.contains(l))
    {
        case.count("forbidden places");
        let found: Vec<usize> = good.iter().filter(|l| l.file == "input" && l.text == "match found here").map(|l| l.start).collect();
        ensure!(found.contains(at), det(format!("reported at {found:?}")), "the place {at} of the forbidden text is not reported");
    }
    // The dump of the input shows the matches of the checks before
    let dump: Vec<(String, usize, usize)> = good.iter().filter(|l| l.file == "input" && l.text.starts_with("matched by the check")).map(|l| (l.text.clone(), l.start, l.len)).collect();
    if !dump.is_empty() && named.is_empty() && check.is_some_and(|i| g.checks[i].dir != Dir::Label && !matches!(g.checks[i].dir, Dir::Count(_))) {
        for &(m, s, e) in &run.matches {
            if s == e || check.is_some_and(|i| group(i).contains(&m)) {
                continue;
            }
            let want = (format!("matched by the check on line {}", g.checks[m].line), s, e - s);
            ensure!(dump.contains(&want), det(format!("{dump:?}")), "the dump of the input does not show {want:?}");
            case.count("dumped matches");
        }
    }
    for l in good.iter().filter(|l| l.file == "input") {
        if let Some(r) = l.msg.strip_prefix("searched this region of the input (line") {
            let first = line_of(&g.input, l.start);
            let last = line_of(&g.input, (l.start + l.len).saturating_sub(1));
            let want = if first == last { format!(" {first})") } else { format!("s {first}-{last})") };
            ensure!(r == want, det(format!("{l:?}")), "the report names other lines than it shows");
            case.count("searched regions");
        }
    }
    case.evaluated(Some(&show(&g)));
    Ok(())
}
