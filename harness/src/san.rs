//! K05: small workloads for the components with unsafe code. They run natively (with the precondition
//! checks of the standard library), under AddressSanitizer, ThreadSanitizer and Miri; every text which
//! comes out of unsafe code is also checked to be UTF-8, which none of those tools watches.
use crate::list_checks::{self, Maker};
use crate::mon::*;
use crate::rng::Rng;
use crate::{core_checks, ensure, fail, fc_checks};
use litcheck::diagnostics::*;
use litcheck::fs::PathPrefixTree;
use litcheck::text::{self, Newline};
use litcheck::{Input, Symbol};
use litcheck_filecheck::expr::{CasingStyle, Number, NumberFormat};
use litcheck_lit::config::BooleanExpr;
use litcheck_lit::TestFormat;
use std::path::PathBuf;
use std::sync::Arc;

fn utf8(s: &str, what: &str) -> Result<(), Fail> {
    ensure!(std::str::from_utf8(s.as_bytes()).is_ok(), format!("{:?}", s.as_bytes()), "{what} is a text which is not UTF-8");
    Ok(())
}
/// What a call answers; a panic is an answer too.
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    guarded(f).ok()
}
/// fewer steps in the interpreter
fn steps(n: usize) -> usize {
    if cfg!(miri) { n.div_ceil(8).max(2) } else { n }
}

fn symbols(c: &mut Case) -> Result<(), Fail> {
    let mut held: Vec<(String, Symbol, &'static str)> = vec![];
    let n = steps(200);
    for i in 0..n {
        let t = match c.rng.below(5) {
            0 => format!("k{}", c.rng.below(30)),
            1 => "long ".repeat(c.rng.below(if cfg!(miri) { 20 } else { 3000 })),
            2 => core_checks::gen_text(&mut c.rng, 12),
            3 => String::new(),
            _ => format!("{}-{i}", c.idx),
        };
        let s = match c.rng.below(3) {
            0 => Symbol::intern(&t),
            1 => Symbol::from(t.clone()),
            _ => Symbol::from(t.clone().into_boxed_str()),
        };
        let st = s.as_str();
        ensure!(st == t, "", "symbol of {t:?} has the text {st:?}");
        held.push((t, s, st));
        let (t, s, st) = c.rng.pick(&held);
        utf8(st, "a symbol's text")?;
        ensure!(st == t && s.as_str() == t, "", "the text of symbol {t:?} became {st:?}");
    }
    for (t, s, st) in &held {
        ensure!(st == t && s.as_str() == t && *s == t.as_str(), "", "the text of symbol {t:?} became {st:?}");
    }
    c.count_n("symbols interned", n as u64);
    c.evaluated(Some(&format!("symbols {}", c.idx)));
    Ok(())
}
fn symbol_threads(c: &mut Case) -> Result<(), Fail> {
    let (nt, per) = (c.rng.range(2, if cfg!(miri) { 3 } else { 8 }), c.rng.range(2, if cfg!(miri) { 6 } else { 60 }));
    let (n, d) = core_checks::k04_round(&mut c.rng, nt, per, c.idx)?;
    c.count_n("symbols interned by concurrent threads", n);
    c.evaluated(Some(&format!("{nt} threads, {n} calls, {d} texts, case {}", c.idx)));
    Ok(())
}

const EDGES: &[u32] = &[0, 1, 2, 3, 0xff, 0x00ff_ffff, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0xfdff_ffff, 0xfe00_0000, 0xfe00_0001, 0xfeff_ffff, 0xff00_0000, 0xff00_0001, u32::MAX - 1, u32::MAX];
fn edge(r: &mut Rng) -> u32 {
    if r.chance(1, 4) { r.next() as u32 } else { *r.pick(EDGES) }
}
fn from_toml<T: for<'a> serde::Deserialize<'a>>(n: u32) -> Option<T> {
    toml::Value::Integer(n as i64).try_into::<T>().ok()
}
fn ids(c: &mut Case) -> Result<(), Fail> {
    let mut h = String::new();
    for _ in 0..steps(40) {
        let raw = edge(&mut c.rng);
        let way = c.rng.below(6);
        let id = match way {
            0 => quiet(|| SourceId::file(raw)),
            1 => quiet(|| SourceId::argument(raw)),
            2 => quiet(|| SourceId::new_unchecked(raw)),
            3 => SourceId::try_from(raw as usize).ok(),
            4 => quiet(|| SourceId::from(raw)),
            _ => from_toml(raw),
        };
        h += &format!(" {way}:{raw:x}");
        let Some(id) = id else { c.count("ids refused"); continue };
        let g = format!("{:?}", id.group());
        let want = match id.to_u32() >> 24 { 0 => "File", 0xfe => "Argument", _ => "Unknown" };
        ensure!(g == want, h, "the group of source id {:#x} is {g}, not {want}", id.to_u32());
        ensure!(id.is_cli_argument() == (want == "Argument"), h, "is_cli_argument of {:#x}", id.to_u32());
        let m = DefaultSourceManager::default();
        ensure!(m.get(id).is_err(), h, "an empty source manager knows id {:#x}", id.to_u32());
        m.load(SourceLanguage::Unknown, FileName::from("a"), "x\ny".into());
        let _ = quiet(|| m.get(id).map(|f| f.as_str().len()));
        c.count("ids made");
    }
    c.evaluated(Some(&h));
    Ok(())
}

macro_rules! number_ops {
    ($c:expr, $h:expr, $Ix:ty, $Nr:ty) => {{
        let (a, b) = (edge(&mut $c.rng), edge(&mut $c.rng));
        let s = b as i32;
        let ix = <$Ix>::from(a);
        $h += &format!(" {}:{a:x},{b:x}", stringify!($Nr));
        let one = |what: &str, n: Option<$Nr>, want: Option<u32>| -> Result<(), Fail> {
            if let Some(n) = n {
                ensure!(n.to_u32() != 0 && std::num::NonZeroU32::new(n.to_u32()).is_some(), format!("operands {a:#x} {b:#x}"), "{what} gives a {} of zero", stringify!($Nr));
                if let Some(w) = want { ensure!(n.to_u32() == w, format!("operands {a:#x} {b:#x}"), "{what} gives {}", n.to_u32()); }
                // the niche is what an invalid value destroys
                let o = Some(n);
                ensure!(o.is_some() && format!("{n}") == n.to_u32().to_string(), "", "an Option of {} is lost", stringify!($Nr));
                ensure!(n.to_index().to_u32() == n.to_u32() - 1, "", "index of {} {}", stringify!($Nr), n.to_u32());
            }
            Ok(())
        };
        one("number()", quiet(|| ix.number()), a.checked_add(1))?;
        one("From<index>", quiet(|| <$Nr>::from(ix)), a.checked_add(1))?;
        one("default()", Some(<$Nr>::default()), Some(1))?;
        one("new()", <$Nr>::new(a), Some(a))?;
        let de: Option<$Nr> = from_toml(a);
        one("deserialize", de, Some(a))?;
        let dx: Option<$Ix> = from_toml(a);
        if let Some(dx) = dx { let _ = quiet(|| dx.number()); }
        if let Some(n) = <$Nr>::new(a) {
            one("+ u32", quiet(|| n + b), a.checked_add(b))?;
            one("+ i32", quiet(|| n + s), None)?;
            one("- u32", quiet(|| n - b), a.checked_sub(b))?;
            one("checked_add", n.checked_add(b), a.checked_add(b))?;
            one("checked_add_signed", n.checked_add_signed(s), None)?;
            one("checked_sub", n.checked_sub(b), None)?;
            one("saturating_add", Some(n.saturating_add(b)), Some(a.saturating_add(b)))?;
            one("saturating_add_signed", Some(n.saturating_add_signed(s)), None)?;
            one("saturating_sub", Some(n.saturating_sub(b)), None)?;
            one("+= u32", quiet(|| { let mut m = n; m += b; m }), None)?;
            one("+= i32", quiet(|| { let mut m = n; m += s; m }), None)?;
            one("-= u32", quiet(|| { let mut m = n; m -= b; m }), None)?;
            let back = <$Ix>::from(n);
            one("there and back", quiet(|| back.number()), Some(a))?;
        }
        for i in [quiet(|| ix + b), quiet(|| ix + s), quiet(|| ix - b), ix.checked_add(b), ix.checked_add_signed(s), ix.checked_sub(b), Some(ix.saturating_add(b)), Some(ix.saturating_add_signed(s)), Some(ix.saturating_sub(b))].into_iter().flatten() {
            one("number() of a computed index", quiet(|| i.number()), None)?;
        }
        $c.count_n("number operations", 30);
    }};
}
fn numbers(c: &mut Case) -> Result<(), Fail> {
    let mut h = String::new();
    for _ in 0..steps(20) {
        number_ops!(c, h, LineIndex, LineNumber);
        number_ops!(c, h, ColumnIndex, ColumnNumber);
    }
    c.evaluated(Some(&h));
    Ok(())
}

fn spans(c: &mut Case) -> Result<(), Fail> {
    let max = if cfg!(miri) { 12 } else { 60 };
    let t = core_checks::gen_text(&mut c.rng, max);
    let mut f = SourceFile::new(SourceId::file(1), SourceLanguage::Unknown, FileName::from("t"), t.clone());
    for _ in 0..steps(60) {
        if c.rng.chance(1, 10) {
            let (ins, n) = (core_checks::gen_text(&mut c.rng, 8), f.as_str().len() as u32);
            let at = |r: &mut Rng| if r.chance(1, 8) { edge(r) } else { r.below(n as usize + 2) as u32 };
            let (a, b) = (at(&mut c.rng), at(&mut c.rng));
            if f.content().line_count() > 0 {
                let sel = Selection::new(Position::new(a % 7, a), Position::new(b % 7, b));
                let _ = quiet(|| f.content_mut().update(ins, Some(sel), 1));
            }
            utf8(f.as_str(), "an edited source")?;
        }
        let n = f.as_str().len();
        let (a, b) = (c.rng.below(n + 3), c.rng.below(n + 3));
        let sp = SourceSpan::from_range_unchecked(SourceId::file(1), a..b);
        if let Some(Ok(s)) = quiet(|| f.source_slice(a..b).map(str::to_string).ok_or(())) {
            utf8(&s, "a slice of a source")?;
        }
        let _ = quiet(|| f.location(sp));
        let line = LineIndex(edge(&mut c.rng) % 9);
        if let Some(Some(r)) = quiet(|| f.content().line_range(line)) {
            let _ = quiet(|| f.content().byte_slice(r).map(|x| x.len()));
        }
        let _ = quiet(|| f.content().line_column_to_offset(line, ColumnIndex(edge(&mut c.rng) % 40)));
        let s = Span::new(sp, "x".to_string());
        let _ = quiet(|| s.as_deref::<str>().map(str::len));
        c.count("spans looked up");
    }
    c.evaluated(Some(&format!("{t:?} {}", c.idx)));
    Ok(())
}

fn paths(c: &mut Case) -> Result<(), Fail> {
    use std::os::unix::ffi::OsStrExt;
    let mut tree: PathPrefixTree<Box<u64>> = PathPrefixTree::new();
    let mut h = String::new();
    let path = |r: &mut Rng| -> PathBuf {
        let mut b: Vec<u8> = if r.chance(2, 3) { b"/nonexistent-vh".to_vec() } else { vec![] };
        for _ in 0..r.below(6) {
            b.extend_from_slice(*r.pick(&[&b"/"[..], b"//", b"/./", b"/../", b"/.."]));
            b.extend_from_slice(*r.pick(&[&b"a"[..], b"ab", b"abc", b"b", b"", b".", b"..", b"a.b", "é".as_bytes(), b"\xff\xfe", b"a\xff", b" "]));
        }
        if r.chance(1, 10) { b.push(b'/'); }
        PathBuf::from(std::ffi::OsStr::from_bytes(&b))
    };
    for i in 0..steps(40) {
        let p = path(&mut c.rng);
        match c.rng.below(12) {
            0..=5 => { h += &format!("\ninsert {p:?}"); let _ = quiet(|| tree.try_insert(&p, Box::new(i as u64))); }
            6 => { if let Some(Some(v)) = quiet(|| tree.get_mut(&p)) { **v += 1; } }
            7 => { let _ = quiet(|| tree.nearest_ancestor(&p).map(|e| e.into_path())); }
            8 => { let _ = quiet(|| (tree.contains(&p), tree.get(&p).map(|v| **v))); }
            9 => { let _ = quiet(|| tree.children(&p, [None, Some(1), Some(3)][i % 3]).count()); }
            10 => { let t = tree.clone(); h += "\nclone"; if c.rng.chance(1, 2) { tree = t; } }
            _ => { if c.rng.chance(1, 6) { tree.clear(); h += "\nclear"; } }
        }
        if i % 5 == 0 {
            let n = quiet(|| tree.iter().map(|e| **e.into_value()).sum::<u64>());
            let _ = quiet(|| tree.files().count());
            c.count_n("entries visited", n.is_some() as u64);
        }
    }
    c.evaluated(Some(&h));
    Ok(())
}

fn newlines(c: &mut Case) -> Result<(), Fail> {
    for _ in 0..steps(40) {
        // exactly sized buffers, so that one byte too far is outside of the allocation
        let (n, rare) = match c.rng.below(5) {
            0 => (c.rng.below(300), c.rng.chance(1, 2)),
            _ => (c.rng.below(12), false),
        };
        let mut buf: Box<[u8]> = (0..n).map(|_| if rare && !c.rng.chance(1, 40) { b'x' } else { *c.rng.pick(b"\n\r\n\ra \xc3\xa9") }).collect();
        // newlines at the ends
        if n > 1 && c.rng.chance(1, 2) {
            let at = if c.rng.chance(1, 2) { 0 } else { n - 1 };
            buf[at] = b'\n';
        }
        let (a, b) = (c.rng.below(n + 2), c.rng.below(n + 2));
        let _ = quiet(|| (Newline::next(&buf), Newline::prev(&buf)));
        let _ = quiet(|| Newline::next_from(&buf, a));
        let _ = quiet(|| Newline::prev_from(&buf, a));
        for f in [text::find_next_lf_or_eof, text::find_next_crlf_or_eof, text::find_prev_lf_or_eof, text::find_prev_crlf_or_eof] {
            if a <= b { let _ = quiet(|| f(&buf, litcheck::range::Range { start: a, end: b })); }
        }
        let _ = quiet(|| text::is_char_boundary(&buf, a));
        let s = String::from_utf8_lossy(&buf).into_owned();
        if let Some(t) = quiet(|| text::canonicalize_horizontal_whitespace(s.as_str().into(), c.rng.chance(1, 2)).into_owned()) { utf8(&t, "a canonicalized text")?; }
        c.count("buffers searched");
    }
    c.evaluated(Some(&format!("newlines {}", c.idx)));
    Ok(())
}

fn inputs(c: &mut Case) -> Result<(), Fail> {
    let tmp = tempdir::TempDir::new("vh-k05").unwrap();
    for i in 0..steps(8) {
        let p = tmp.path().join(format!("f{i}"));
        let mut b: Vec<u8> = vec![];
        for _ in 0..c.rng.below(14) {
            b.extend_from_slice(*c.rng.pick(&[&b"a"[..], b"\n", b"\r\n", b"\r", "é".as_bytes(), "😀".as_bytes(), b"\xc3", b"\xff", b"\0", "\u{feff}".as_bytes(), b"text "]));
        }
        std::fs::write(&p, &b).unwrap();
        let inp = Input::from(p.as_path());
        let valid = std::str::from_utf8(&b).is_ok();
        for strict in [false, true] {
            match inp.read_to_string(strict) {
                Ok(s) => {
                    utf8(&s, "the text of an input")?;
                    ensure!(valid, format!("{b:?}"), "bytes which are not UTF-8 are read as the text {s:?}");
                    let want = if strict { String::from_utf8(b.clone()).unwrap() } else { std::str::from_utf8(&b).unwrap().lines().collect::<Vec<_>>().join("\n") };
                    ensure!(s == want, format!("{b:?}"), "read (strict: {strict}) as {s:?} instead of {want:?}");
                    c.count("inputs read");
                }
                Err(_) => { ensure!(!valid, format!("{b:?}"), "a UTF-8 file cannot be read"); c.count("inputs refused") }
            }
        }
    }
    c.evaluated(Some(&format!("inputs {}", c.idx)));
    Ok(())
}

fn exprs(c: &mut Case) -> Result<(), Fail> {
    for _ in 0..steps(30) {
        let mut s = String::new();
        for _ in 0..c.rng.below(8) {
            s += *c.rng.pick(&["a", "b-c", "true", "false", "!", "&&", "||", "(", ")", " ", "{{a}}", "{{", "}}", "é", "😀", "\u{2003}", "{", "&", "|", "x{{b|c}}y", "{{}}", "\0", "~", "{{é}}", "{{[}}"]);
        }
        match quiet(|| s.parse::<BooleanExpr>()) {
            Some(Ok(e)) => {
                let t = e.to_string();
                utf8(&t, "an expression's text")?;
                let _ = quiet(|| e.evaluate(&vec!["a", "b-c", "é"]));
                let f = e.clone();
                ensure!(f == e, s, "a clone differs");
                c.count("expressions evaluated");
            }
            Some(Err(err)) => { utf8(&format!("{err} {err:?}"), "an error message")?; c.count("expressions refused") }
            None => c.count("panics"),
        }
    }
    c.evaluated(Some(&format!("expressions {}", c.idx)));
    Ok(())
}

fn scripts(c: &mut Case) -> Result<(), Fail> {
    let tmp = tempdir::TempDir::new("vh-k05").unwrap();
    let toml = format!("name = \"s\"\nsource_dir = {0:?}\nworking_dir = {0:?}\n[format.shtest]\n", tmp.path());
    let suite: Arc<litcheck_lit::TestSuite> = Arc::new(toml::from_str(&toml).map_err(|e| Fail::new(format!("the suite does not parse: {e}"), toml))?);
    let mut config = litcheck_lit::Config::new(vec![]);
    config.options.no_execute = true;
    let fmt = litcheck_lit::formats::ShTest::default();
    for i in 0..steps(12) {
        let mut s = String::new();
        for _ in 0..c.rng.below(7) {
            s += *c.rng.pick(&["RUN:", "# RUN:", "// RUN: ", "REQUIRES: ", "UNSUPPORTED:", "XFAIL: ", "DEFINE: ", "REDEFINE: ", "ALLOW_RETRIES: ", "END.", "é RUN:", ""]);
            for _ in 0..c.rng.below(5) {
                s += *c.rng.pick(&["echo ", "%(line)", "%(line+1)", "%(line - 2)", "%(line+99999999999999999999)", "é", "😀", "%s", "%{a}", "a", "&&", "%{x}=", "{{a}}", "*", ",", "3", "\\", "%(line", "true"]);
            }
            s += *c.rng.pick(&["\n", "\n", "\\\n", "\r\n", ""]);
        }
        std::fs::write(tmp.path().join(format!("t{i}")), &s).unwrap();
        let t = litcheck_lit::Test::new(format!("t{i}").into(), suite.clone(), suite.config.clone());
        match quiet(|| fmt.execute(&t, &config)) {
            Some(Ok(r)) => { utf8(&format!("{:?}", r.status()), "a status")?; c.count("scripts parsed") }
            Some(Err(e)) => { utf8(&format!("{e:?}"), "a report")?; c.count("scripts refused") }
            None => c.count("panics"),
        }
    }
    c.evaluated(Some(&format!("scripts {}", c.idx)));
    Ok(())
}

fn formats(c: &mut Case) -> Result<(), Fail> {
    let mut h = String::new();
    for _ in 0..steps(30) {
        let p = *c.rng.pick(&[0u8, 1, 2, 8, 39, 255]);
        let casing = *c.rng.pick(&[CasingStyle::Any, CasingStyle::Upper, CasingStyle::Lower]);
        let mk = |k: usize, pre: bool| match k {
            0 => NumberFormat::Unsigned { precision: p },
            1 => NumberFormat::Signed { precision: p },
            _ => NumberFormat::Hex { precision: p, require_prefix: pre, casing },
        };
        let k = c.rng.below(3);
        let f = mk(k, c.rng.chance(1, 2));
        ensure!(f.discriminant() as usize == k, "", "the discriminant of {f:?} is {}", f.discriminant());
        let boxed = Box::new(f);
        ensure!(boxed.discriminant() as usize == k, "", "the discriminant of a boxed {f:?} is {}", boxed.discriminant());
        utf8(&f.pattern_nocapture(), "a number pattern")?;
        utf8(&f.pattern(Some("g")), "a number pattern")?;
        utf8(&format!("{f} {}", f.describe()), "a format's text")?;
        let t: String = (0..c.rng.below(6)).map(|_| *c.rng.pick(&['0', '1', '9', 'a', 'F', 'x', '-', '+', 'é', ' '])).collect();
        let r = quiet(|| Number::parse_with_format(Span::unknown(t.as_str()), f, c.rng.chance(1, 2)));
        if let Some(Ok(n)) = &r {
            let other = Number::new_with_format(SourceSpan::UNKNOWN, 3, mk(c.rng.below(3), false));
            let _ = quiet(|| n.infer_expression_format(&other));
        }
        h += &format!(" {f:?}:{t}");
        c.count("formats used");
    }
    c.evaluated(Some(&h));
    Ok(())
}

fn vars(c: &mut Case) -> Result<(), Fail> {
    for _ in 0..steps(30) {
        let s: String = (0..c.rng.below(6)).map(|_| *c.rng.pick(&["a", "_", "=", "1", "$", "@", "é", " ", "A", "😀", "#"])).collect();
        if let Some(Ok(v)) = quiet(|| <litcheck_lit::config::Variable as litcheck::variables::TypedVariable>::try_parse(Span::unknown(s.as_str()))) {
            utf8(&format!("{:?} {}", v.name(), v.value), "a variable")?;
            let w = v.clone();
            let j = std::thread::spawn(move || (w.is_global(), w.is_pseudo(), w.value.len()));
            ensure!(j.join().unwrap() == (v.is_global(), v.is_pseudo(), v.value.len()), s, "a variable changes when it is sent to a thread");
            c.count("variables parsed");
        }
    }
    c.evaluated(Some(&format!("variables {}", c.idx)));
    Ok(())
}

fn lists(c: &mut Case) -> Result<(), Fail> {
    let mut mk = Maker::new();
    let n = c.rng.range(1, if cfg!(miri) { 4 } else { 20 });
    let (h, ops) = list_checks::k06_history(&mut c.rng, &mut mk, n)?;
    c.count_n("list operations", ops.iter().map(|(_, n)| *n).sum());
    c.evaluated(Some(&h));
    Ok(())
}
fn list_threads(c: &mut Case) -> Result<(), Fail> {
    list_checks::par_visit(c, if cfg!(miri) { 5 } else { 400 }, if cfg!(miri) { 2 } else { 8 })
}

/// A small match file with the rules whose compilation contains unsafe code; plain texts, as regular
/// expressions take the interpreter minutes.
fn verifies(c: &mut Case) -> Result<(), Fail> {
    let words = ["alpha", "beta", "gamma", "delta", "é", "x y"];
    for _ in 0..if cfg!(miri) { 1 } else { 12 } {
        let mut checks = String::new();
        let mut first = true;
        for _ in 0..c.rng.range(1, 5) {
            let kinds = ["CHECK", "CHECK-DAG", "CHECK-DAG", "CHECK-NOT", "CHECK-NEXT", "CHECK-SAME", "CHECK-LABEL", "CHECK-COUNT-2", "CHECK-EMPTY"];
            let k = if first { *c.rng.pick(&["CHECK", "CHECK-DAG", "CHECK-NOT", "CHECK-LABEL", "CHECK-COUNT-2"]) } else { *c.rng.pick(&kinds) };
            first = false;
            checks += &if k == "CHECK-EMPTY" { format!("{k}:\n") } else { format!("{k}: {}\n", c.rng.pick(&words)) };
        }
        let input: String = (0..c.rng.below(9)).map(|_| format!("{}{}", c.rng.pick(&words), c.rng.pick(&["\n", " ", "\n\n", "\r\n"]))).collect();
        let o = crate::model::Opts { allow_empty: true, ..Default::default() };
        let cfg = fc_checks::config(&o);
        match fc_checks::verify(&cfg, &checks, &input) {
            Ok(fc_checks::Real::Pass(ms)) => {
                for m in ms { ensure!(m.start <= m.end && m.end <= input.len(), format!("{checks}\n--\n{input}"), "match {m:?} outside of the input"); }
                c.count("verifications passed")
            }
            Ok(fc_checks::Real::Fail(t)) => { utf8(&t, "a report")?; c.count("verifications failed") }
            Err(_) => c.count("panics"),
        }
        c.evaluated(Some(&format!("{checks}--\n{input}")));
    }
    Ok(())
}
/// Several threads verify with, and load sources into, one configuration.
fn verify_threads(c: &mut Case) -> Result<(), Fail> {
    let m = DefaultSourceManager::default();
    let nt = if cfg!(miri) { 2 } else { c.rng.range(2, 6) };
    let seeds: Vec<u64> = (0..nt).map(|_| c.rng.next()).collect();
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for (t, seed) in seeds.iter().enumerate() {
            let (m, bad) = (&m, &bad);
            s.spawn(move || {
                let mut r = Rng::new(*seed);
                for i in 0..if cfg!(miri) { 3 } else { 40 } {
                    let (n, text) = (format!("n{}", r.below(4)), format!("text {t} {}", r.below(3)));
                    let f = m.load(SourceLanguage::Unknown, FileName::from(n.as_str()), text.clone());
                    let ok = f.as_str() == text && m.get(f.id()).is_ok_and(|g| g.as_str() == text) && m.get_by_uri(&FileName::from(n.as_str())).is_some();
                    let sy = Symbol::intern(&text);
                    if !ok || sy.as_str() != text {
                        *bad.lock().unwrap() = Some(format!("thread {t}, step {i}: source {n} with {text:?}"));
                    }
                }
            });
        }
    });
    if let Some(b) = bad.into_inner().unwrap() { fail!(b, "a source loaded while others load is not found again"); }
    c.count_n("threads loading sources", nt as u64);
    c.evaluated(Some(&format!("{nt} threads, case {}", c.idx)));
    Ok(())
}

fn suites(c: &mut Case) -> Result<(), Fail> {
    use litcheck_lit::{TestSuiteRegistry, TestSuiteRegistryExt};
    let tmp = tempdir::TempDir::new("vh-k05").unwrap();
    let root = tmp.path().canonicalize().unwrap();
    for i in 0..c.rng.range(1, if cfg!(miri) { 2 } else { 5 }) {
        let d = root.join(format!("s{i}"));
        std::fs::create_dir_all(d.join("sub")).unwrap();
        std::fs::write(d.join("lit.suite.toml"), format!("name = \"s{i}\"\npatterns = [\"*.t\"]\n[format.shtest]\n")).unwrap();
        for j in 0..c.rng.below(4) { std::fs::write(d.join(["", "sub"][j % 2]).join(format!("{j}.t")), "RUN: true\n").unwrap(); }
        if c.rng.chance(1, 2) { std::fs::write(d.join("sub/lit.local.toml"), "available_features = [\"x\"]\n").unwrap(); }
    }
    let config = litcheck_lit::Config::new(vec![]);
    let mut reg = litcheck_lit::DefaultTestSuiteRegistry::default();
    if c.rng.chance(1, 2) { std::fs::write(root.join("lit.suite.toml"), "name = \"root\"\npatterns = [\"*.t\"]\n[format.shtest]\n").unwrap(); }
    for e in std::fs::read_dir(&root).unwrap() {
        let p = e.unwrap().path();
        let _ = quiet(|| { let _ = reg.load_from_path(if c.rng.chance(1, 3) { &root } else { &p }, &config); });
    }
    let n = quiet(|| {
        let names: Vec<String> = reg.suites().map(|s| s.name().to_string()).collect();
        for s in reg.suites() { let _ = (reg.size_of_suite(&s.id()), reg.get(&s.id()).name().len()); }
        let tests: usize = reg.tests().map(|t| t.name().len()).count();
        c.count_n("tests found", tests as u64);
        names.len()
    });
    let rest = quiet(|| reg.into_iter().count());
    c.count_n("tests taken out", rest.unwrap_or(0) as u64);
    c.count_n("suites found", n.unwrap_or(0) as u64);
    c.evaluated(Some(&format!("suites {}", c.idx)));
    Ok(())
}

pub fn k05(ctx: &Arc<Ctx>) -> i32 {
    let m: u64 = if ctx.tier == Tier::Quick { 1 } else { 20 };
    // suites are found below the working directory only
    std::env::set_current_dir(std::env::temp_dir().canonicalize().unwrap()).unwrap();
    ctx.run("symbols", ctx.n(60, m), symbols);
    ctx.run_on(1, "symbol-threads", ctx.n(100, m), symbol_threads);
    ctx.run("ids", ctx.n(2000, m), ids);
    ctx.run("numbers", ctx.n(2000, m), numbers);
    ctx.run("spans", ctx.n(2000, m), spans);
    ctx.run("paths", ctx.n(3000, m), paths);
    ctx.run("newlines", ctx.n(5000, m), newlines);
    ctx.run("inputs", ctx.n(600, m), inputs);
    ctx.run("exprs", ctx.n(1000, m), exprs);
    ctx.run("scripts", ctx.n(300, m), scripts);
    ctx.run("formats", ctx.n(2000, m), formats);
    ctx.run("vars", ctx.n(300, m), vars);
    ctx.run("lists", ctx.n(4000, m), lists);
    ctx.run_on(1, "list-threads", ctx.n(40, m), list_threads);
    ctx.run("verifies", ctx.n(300, m), verifies);
    ctx.run_on(1, "verify-threads", ctx.n(60, m), verify_threads);
    ctx.run("suites", ctx.n(150, m), suites);
    ctx.finish("exploration", "native part", &[])
}
