//! What a failure report shows of the input, and the options which decide it (C16).
use crate::fc_checks::*;
use crate::fc_more::*;
use crate::genr::*;
use crate::model::*;
use crate::mon::*;
use crate::{ensure, fail};
use litcheck::diagnostics::{Diagnostic, Spanned};
use litcheck_filecheck::{CheckFailedError, Dump, SearchedRegion, TestFailed};
use std::sync::Arc;

fn line_of(t: &str, at: usize) -> usize {
    t.as_bytes()[..at.min(t.len())].iter().filter(|b| **b == b'\n').count() + 1
}
fn count_lines(t: &str) -> usize {
    t.matches('\n').count() + (!t.is_empty() && !t.ends_with('\n')) as usize
}

/// A search without a match, as reported
#[derive(Debug, Clone)]
struct Miss {
    line: usize,
    /// (start, len, headline, label) of the places shown; only the headline for a note
    shown: Vec<(Option<(usize, usize)>, String, String)>,
}
fn misses(e: &[CheckFailedError], checks: &str, out: &mut Vec<Miss>) {
    for e in e {
        match e {
            CheckFailedError::MatchNoneButExpected { span, match_file, searched, .. } => {
                let line = if match_file.as_str() == checks { line_of(checks, span.start().to_usize()) } else { 0 };
                let shown = searched
                    .iter()
                    .map(|s| match s {
                        SearchedRegion::Marker { span, message, label, .. } => (Some((span.start().to_usize(), span.len())), message.clone().unwrap_or_default(), label.to_string()),
                        SearchedRegion::Note(n) => (None, n.to_string(), String::new()),
                    })
                    .collect();
                out.push(Miss { line, shown });
            }
            CheckFailedError::MatchGroupFailed { cause, .. } => misses(cause, checks, out),
            CheckFailedError::MatchAllFailed { failed } => misses(failed, checks, out),
            _ => {}
        }
    }
}
fn each<'a>(e: &'a [CheckFailedError], f: &mut dyn FnMut(&'a CheckFailedError)) {
    for e in e {
        f(e);
        match e {
            CheckFailedError::MatchGroupFailed { cause, .. } => each(cause, f),
            CheckFailedError::MatchAllFailed { failed } => each(failed, f),
            _ => {}
        }
    }
}

/// How a search of these bytes is to be shown: (place, start of the headline)
fn region(input: &str, (s, e): (usize, usize), whole: bool) -> Vec<(Option<(usize, usize)>, String, String)> {
    let e = e.min(input.len());
    if s >= e {
        return vec![];
    }
    let (a, b) = (line_of(input, s), line_of(input, e - 1));
    if whole || b - a < 10 {
        let lines = if a == b { format!("line {a}") } else { format!("lines {a}-{b}") };
        return vec![(Some((s, e - s)), format!("searched this region of the input ({lines})"), "no match anywhere in this region".into())];
    }
    let last = input.as_bytes()[..e - 1].iter().rposition(|b| *b == b'\n').map_or(0, |x| x + 1);
    let end = if e == input.len() { "...and ran to the end of the input" } else { "...and ran to here" };
    vec![
        (Some((s, 0)), format!("searched {} lines of input without a match (lines {a}-{b})", b - a + 1), "search began here".into()),
        (Some((last, 0)), end.into(), "no match was found in any of the intervening lines".into()),
    ]
}

struct Seen {
    pass: bool,
    misses: Vec<Miss>,
    /// summary and labels of the dump
    dump: Option<(String, Vec<(String, usize, usize)>)>,
    /// the labels of the report, but for the dump and the searched regions
    rest: Vec<String>,
    errors: usize,
    err: Option<TestFailed>,
}
fn look(g: &GCase, dump: Dump, verbose: u8) -> Result<Seen, String> {
    let mut c = config(&g.opts);
    c.options.dump_input = dump;
    c.options.verbose = verbose;
    let mut seen = Seen { pass: true, misses: vec![], dump: None, rest: vec![], errors: 0, err: None };
    let e = match run_raw(&c, &g.check_text, &g.input)? {
        Ok(ms) => {
            seen.rest = ms.iter().map(|m| format!("{m:?}")).collect();
            return Ok(seen);
        }
        Err(e) => e,
    };
    seen.pass = false;
    render_all(&e)?;
    let e = e.downcast::<TestFailed>().map_err(|e| format!("not a failed test: {e:?}"))?;
    misses(&e.errors, &g.check_text, &mut seen.misses);
    seen.errors = e.errors.len();
    for x in &e.errors {
        let mut ls = vec![];
        labels(x, None, &mut ls);
        for l in ls {
            let l = l?;
            if !["no match anywhere in this region", "search began here", "no match was found in any of the intervening lines"].contains(&l.text.as_str()) {
                seen.rest.push(format!("{l:?}"));
            }
        }
    }
    if let Some(d) = &e.input_dump {
        let mut ls = vec![];
        labels(d, None, &mut ls);
        let mut v = vec![];
        for l in ls {
            let l = l?;
            if l.file != "input" {
                return Err(format!("the dump of the input shows another file: {l:?}"));
            }
            v.push((l.text, l.start, l.len));
        }
        seen.dump = Some((d.to_string(), v));
    }
    seen.err = Some(e);
    Ok(seen)
}

fn dump_case(case: &mut Case, f: &Feat) -> Result<(), Fail> {
    let mut rng = case.rng.clone();
    let mut g = generate(&mut rng, f);
    // many lines, so that regions are too large to be shown
    if rng.chance(1, 3) && !g.input.is_empty() {
        for _ in 0..rng.range(1, 3) {
            let at: Vec<usize> = std::iter::once(0).chain(g.input.match_indices('\n').map(|(i, _)| i + 1)).collect();
            let at = *rng.pick(&at);
            let n = if rng.chance(1, 4) { rng.range(20, 200) } else { rng.range(5, 12) };
            let filler: String = (0..n).map(|i| format!("{}\n", ["~", " ~ é", "~%~", "日~"][i % 4])).collect();
            g.input.insert_str(at, &filler);
        }
    }
    let Ok(run) = Model::new(&g.input, &g.opts).run(&g.checks) else {
        case.evaluated(None);
        return Ok(());
    };
    case.describe(|| show(&g));
    let get = |d, v| look(&g, d, v).map_err(|p| Fail::new(p, show(&g)));
    // -v prints remarks
    let verbose = if rng.chance(1, 2) { 0 } else { 2 };
    let verbose = if verbose == 2 && !rng.chance(1, 8) { 0 } else { verbose };
    let on = get(Dump::Fail, verbose)?;
    let det = |x: String| format!("{}\nverbose {verbose}\nmodel: {:?} region {:?} {:?}\n{x}\ndump {:#?}\nsearches {:#?}", show(&g), run.outcome, run.region, run.matches, on.dump, on.misses);
    // the options do not change the verdict, or what is blamed
    let off = get(Dump::Never, if rng.chance(1, 20) { 1 } else { 0 })?;
    let all = get(Dump::Always, verbose)?;
    for (name, o) in [("never", &off), ("always", &all)] {
        ensure!(o.pass == on.pass, det(name.into()), "--dump-input={name} changes the verdict");
        ensure!(o.rest == on.rest, det(format!("{name}: {:#?}\nfail: {:#?}", o.rest, on.rest)), "--dump-input={name} changes the failures which are reported");
    }
    if on.pass {
        case.count("passing");
        case.evaluated((!on.rest.is_empty()).then(|| show(&g)).as_deref());
        return Ok(());
    }
    ensure!(off.dump.is_none() && off.misses.iter().all(|m| m.shown.is_empty()), det(format!("never: {:?} {:?}", off.dump, off.misses)), "the input is shown with --dump-input=never");
    ensure!(format!("{:?} {:?}", all.dump, all.misses) == format!("{:?} {:?}", on.dump, on.misses), det(format!("always: {:?} {:?}", all.dump, all.misses)), "--dump-input=always shows something else of a failure than fail");
    let Outcome::Fail { check, kind } = &run.outcome else {
        case.evaluated(None);
        return Ok(());
    };
    if *kind == FailKind::EmptyInput {
        case.evaluated(None);
        return Ok(());
    }
    // ---- the dump
    let Some((summary, ls)) = &on.dump else { fail!(det(String::new()), "the input is not dumped") };
    let want = format!("the input that was checked ({} line(s), {} failed check(s))", count_lines(&g.input), on.errors);
    ensure!(*summary == want, det(format!("expected {want:?}")), "the summary of the dump is wrong");
    let Some((head, marks)) = ls.split_first() else { fail!(det(String::new()), "the dump is empty") };
    ensure!((head.1, head.2) == (0, g.input.len()), det(String::new()), "the dump does not show the whole input");
    let total: usize = if head.0 == "no checks matched anywhere in this input" { 0 } else { head.0.strip_suffix(" check(s) matched, as annotated above").and_then(|n| n.parse().ok()).ok_or_else(|| Fail::new("the dump does not say how many checks matched", det(String::new())))? };
    let empties: usize = g.checks.iter().map(|c| match c.dir { Dir::Empty => 1, Dir::Count(n) => n as usize, _ => 1 }).sum();
    ensure!(total >= marks.len() && total <= marks.len() + empties, det(String::new()), "the dump shows {} matches, and says there are {total}", marks.len());
    // what matched before the failing check is there, in its place
    let failing = *check;
    let group = |i: usize| g.checks[i].dir == Dir::Dag;
    let mut prefix = 0;
    let label = failing.is_some_and(|i| g.checks[i].dir == Dir::Label);
    let before = if label { &run.labels } else { &run.matches };
    for &(m, s, e) in before {
        if failing.is_some_and(|i| m == i && !matches!(g.checks[i].dir, Dir::Not) || group(i) && group(m)) || failing.is_none() {
            continue;
        }
        if g.checks[m].dir == Dir::Dag || failing.is_some_and(|i| g.checks[i].dir == Dir::Not || i < m) {
            continue;
        }
        prefix += 1;
        if s == e {
            continue;
        }
        let w = (format!("matched by the check on line {}", g.checks[m].line), s, e - s);
        ensure!(marks.contains(&w), det(format!("{w:?}")), "the dump does not show the match of the check on line {}", g.checks[m].line);
        case.count("matches in the dump");
    }
    ensure!(total >= prefix, det(String::new()), "the dump says that {total} checks matched, but {prefix} did");
    for (t, s, n) in marks {
        let text = &g.input[*s..*s + *n];
        if t == "matched by an implicit check" {
            continue;
        }
        let line: usize = t.strip_prefix("matched by the check on line ").and_then(|l| l.parse().ok()).ok_or_else(|| Fail::new(format!("the dump marks {text:?} with {t:?}"), det(String::new())))?;
        let Some(k) = g.checks.iter().find(|k| k.line == line) else { fail!(det(String::new()), "the dump names line {line}, which has no check") };
        // a check without variables, found wherever, matches what is shown
        if k.pat.iter().all(|e| matches!(e, Elem::Lit(_))) && !g.opts.full_lines && !g.opts.strict && k.dir != Dir::Not {
            let at = Model::new(&g.input, &g.opts).find(&k.pat, *s, *s + *n, &Default::default(), false);
            if let Ok(at) = at {
                ensure!(at.is_some_and(|(a, b, _)| (a, b) == (*s, *s + *n)), det(format!("{text:?}")), "the check on line {line} does not match what the dump says it matched");
                case.count("marks verified");
            }
        }
    }
    // ---- what was searched
    let Some(i) = failing else {
        case.evaluated(Some(&show(&g)));
        return Ok(());
    };
    let k = &g.checks[i];
    for m in &on.misses {
        for (at, head, label) in &m.shown {
            let Some((s, n)) = *at else { continue };
            ensure!(g.input.get(s..s + n).is_some(), det(format!("{m:?}")), "a searched region is not on character boundaries");
            // lines which are named are those which are shown
            if label == "no match anywhere in this region" {
                let want = region(&g.input, (s, s + n), true);
                ensure!(want.first().is_some_and(|w| w.1 == *head), det(format!("{m:?}")), "the report names other lines than it shows");
                ensure!(verbose == 2 || region(&g.input, (s, s + n), false).len() == 1, det(format!("{m:?}")), "a large region is shown in full");
            } else if head.starts_with("searched ") {
                let a = head.split("(lines ").nth(1).and_then(|x| x.split('-').next()).and_then(|x| x.parse::<usize>().ok());
                ensure!(a == Some(line_of(&g.input, s)), det(format!("{m:?}")), "the report names other lines than it shows");
                ensure!(verbose < 2, det(format!("{m:?}")), "a region is not shown in full with -vv");
                case.count("large regions");
            }
        }
    }
    // regions are shown once
    let mut regions: Vec<Vec<(usize, usize)>> = on.misses.iter().map(|m| m.shown.iter().filter_map(|s| s.0).collect::<Vec<_>>()).filter(|v| !v.is_empty()).collect();
    let n = regions.len();
    regions.sort();
    regions.dedup();
    ensure!(n == regions.len(), det(String::new()), "a region is shown twice");
    let undetermined = g.checks.iter().any(|c| c.dir == Dir::Not) || !g.opts.implicit_not.is_empty() || run.dag_overlap || run.dag_reassigned
        // what follows a -DAG group is searched for before it as well, to say that it is there
        || k.dir != Dir::Dag && g.checks[..i].iter().rev().take_while(|c| c.dir != Dir::Label).any(|c| c.dir == Dir::Dag);
    let mine: Vec<&Miss> = on.misses.iter().filter(|m| m.line == k.line).collect();
    if *kind == FailKind::NoMatch
        && !undetermined
        && let Some(r) = run.region
    {
        match k.dir {
            Dir::Count(n) => {
                let mut seen = None;
                each(&on.err.as_ref().unwrap().errors, &mut |e| {
                    if let CheckFailedError::MatchRepeatedError { span, n, count, .. } = e
                        && line_of(&g.check_text, span.span().start().to_usize()) == k.line
                    {
                        seen = Some((*n, *count));
                    }
                });
                let had = run.matches.iter().filter(|m| m.0 == i).count();
                if n > 1 {
                    ensure!(seen == Some((had, n as usize)), det(format!("{seen:?}")), "the check on line {} matched {had} of {n} times", k.line);
                    case.count("repetitions");
                }
            }
            Dir::Same if run.elsewhere.is_some() => {
                let mut seen = vec![];
                each(&on.err.as_ref().unwrap().errors, &mut |e| {
                    if let CheckFailedError::MatchFoundButWrongLine { span, pattern, .. } = e
                        && pattern.as_ref().is_some_and(|p| line_of(&g.check_text, p.span.start().to_usize()) == k.line)
                    {
                        seen.push((span.start().to_usize(), span.end().to_usize()));
                    }
                });
                if let Some(at) = seen.first() {
                    ensure!(Some(*at) == run.elsewhere, det(format!("{seen:?} {:?}", run.elsewhere)), "the match on the wrong line is not where the report shows it");
                    case.count("matches on the wrong line");
                }
            }
            _ => {
                let want = region(&g.input, r, verbose == 2);
                let Some(m) = mine.first() else {
                    // a number was found, but with the wrong value
                    if k.pat.iter().any(|e| matches!(e, Elem::Num(..) | Elem::Expr(..))) {
                        case.evaluated(Some(&show(&g)));
                        return Ok(());
                    }
                    fail!(det(String::new()), "the search for the check on line {} is not reported", k.line)
                };
                let same = m.shown.len() == 1 && m.shown[0].1 == "searched the same region of the input as an earlier failure";
                if same {
                    ensure!(on.misses.iter().take_while(|o| o.line != k.line).any(|o| o.shown == want), det(format!("expected {want:#?}")), "no earlier failure shows the region searched for the check on line {}", k.line);
                    case.count("regions shown before");
                } else if want.is_empty() {
                    ensure!(m.shown.len() == 1 && m.shown[0].0.is_none(), det(format!("{m:?}")), "a region is shown for the check on line {}, but there was nothing to search", k.line);
                    case.count("empty regions");
                } else {
                    ensure!(m.shown == want, det(format!("expected {want:#?}\nshown {m:#?}")), "the region searched for the check on line {} is another one", k.line);
                    case.count(&format!("regions: {:?}{}", k.dir, if want.len() > 1 { ", large" } else { "" }));
                }
            }
        }
    }
    // checks which were skipped come after the failing one
    let mut skipped = vec![];
    each(&on.err.as_ref().unwrap().errors, &mut |e| {
        if let CheckFailedError::MatchGroupFailed { span, skipped: Some(s), .. } = e {
            skipped.push((line_of(&g.check_text, span.start().to_usize()), line_of(&g.check_text, s.start().to_usize()), line_of(&g.check_text, s.end().to_usize())));
        }
    });
    for (at, a, b) in skipped {
        ensure!(at < a && a <= b, det(format!("{at} {a} {b}")), "checks before line {at}, which failed, are said to be skipped");
        ensure!(!marks.iter().any(|m| (a..=b).any(|l| m.0 == format!("matched by the check on line {l}"))), det(format!("{at} {a} {b}")), "a check is said to be skipped, and to have matched");
        case.count("skipped checks");
    }
    case.evaluated(Some(&show(&g)));
    Ok(())
}

pub fn c16(ctx: &Arc<Ctx>) -> i32 {
    let feats = [
        Feat { mutate: 85, ..mixed() },
        Feat { mutate: 85, next: 6, same: 5, empty: 4, label: 3, count: 3, ..Feat::default() },
        Feat { mutate: 85, dag: 6, not: 3, label: 3, special: 40, implicit: 10, ..Feat::default() },
    ];
    for (k, f) in feats.iter().enumerate() {
        ctx.run(&format!("context{k}"), ctx.n(6_000, 40), |case| dump_case(case, f));
    }
    ctx.finish("exploration", "Generated verifications, most of them failing, each run with every --dump-input mode; what the report shows of the input (the dump, the searched regions, matches on the wrong line, counts) is compared with the reference model's search. Non-trivial: a failure with a dump.", &["the reference model decides where a check is searched for", "which searches are shown after the first failure is judged only for their own truth"])
}
