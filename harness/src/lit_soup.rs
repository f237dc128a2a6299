//! L13, library part: hostile test files and configurations under a panic, abort and hang monitor. The
//! shell is /bin/true, so nothing that the files say is executed.
use crate::mon::*;
use crate::rng::Rng;
use crate::{ensure, fail};
use litcheck_lit::formats::ShTest;
use litcheck_lit::{DefaultTestSuiteRegistry, TestFormat, TestSuiteRegistry, TestSuiteRegistryExt};
use std::sync::Arc;

const KEYWORDS: &[&str] = &["RUN:", "RUN: ", "# RUN: ", "// RUN:", "é RUN: ", "😀RUN:", "REQUIRES: ", "UNSUPPORTED: ", "XFAIL: ", "XFAIL:", "DEFINE: %{a}=", "DEFINE: ", "REDEFINE: %{a} = ", "REDEFINE:", "ALLOWED_RETRIES: ", "END.", "run:", "RUN", "RUN:RUN:", "\u{feff}RUN: ", ""];
const WORDS: &[&str] = &["echo ", "true", "%(line)", "%(line+1)", "%(line - 2)", "%(line+99999999999999999999)", "%(line-18446744073709551615)", "%(line+18446744073709551615)", "%(line", "line)", "%(line+)", "%( line)", "é", "😀", "ß", "\u{2028}", "\u{a0}", "\u{300}", "\u{202e}", "%s", "%S", "%t", "%%", "%", "%basename_t",
    "%{a}", "%{b}", "%{", "}", "%{é}", "%{a", "%x", "%{a}%{a}", "a", "=", "==", "&&", "||", "!", "(", ")", ",", ", ", "*", "{{", "}}", "{{a.*}}", "{{(}}", "{{é}}", "native", "system-linux", "3", "-1", "1.5", "99999999999999999999", "\\", "\\\\", "'", "\"", ";", ":", "#", " ", "\t", "\0", "\x1b[31m", "\r", "$", "$1", "${a}", "\\1", "_", "-", "^", "[", "]"];
const ENDS: &[&str] = &["\n", "\n", "\n", "\n", "\r\n", "\\\n", "\\\n", "\\\r\n", "\n\n", "", "\r", " \\\n# "];

fn script(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 2) { s += "DEFINE: %{a} = x\n"; }
    let tame = r.chance(1, 2);
    for _ in 0..r.below(9) {
        if tame {
            let k = *r.pick(&["RUN: ", "# RUN: echo ", "é RUN: ", "RUN: %{a}", "RUN: ", "DEFINE: %{b} = ", "REDEFINE: %{a} = ", "XFAIL: a", "REQUIRES: native", "UNSUPPORTED: a", "ALLOWED_RETRIES: 1", "END."]);
            s += k;
            if k.ends_with(' ') || k.ends_with('}') {
                let ws = *r.pick(&[&["%(line)", "%{a}", "%s", "é", "%(line+1)", "%%", "x", " ", "%t", "%{b}"][..], WORDS]);
                for _ in 0..r.below(5) { s += r.pick(ws); }
            }
            if r.chance(1, 6) { s += &format!("\\\n{}", k.split(' ').find(|w| w.ends_with(':')).unwrap_or("RUN:")); s += " x"; }
            s += *r.pick(&["\n", "\n", "\n", "\r\n"]);
            continue;
        }
        s += *r.pick(KEYWORDS);
        for _ in 0..r.below(6) { s += r.pick(WORDS); }
        s += *r.pick(ENDS);
    }
    match r.below(60) {
        0 => s = format!("RUN: {}", r.pick(&["x", "é", "%%", "%(line)", "%{a}", "\\\nRUN: ", "(", "'"]).repeat(*r.pick(&[50, 3000]))),
        1 => s = format!("{}{}\nRUN: true\n", r.pick(&["XFAIL: ", "REQUIRES: ", "UNSUPPORTED: "]), r.pick(&["!", "(", "a && ", "a || ", "{{", "a,", "}}", "é"]).repeat(*r.pick(&[50, 3000, 20_000]))),
        2 => s = "DEFINE: %{a} = x\n".to_string() + &"REDEFINE: %{a} = %{a}%{a}\n".repeat(r.below(12)) + "RUN: echo %{a}\n",
        3 => s = (0..r.below(200)).map(|i| format!("DEFINE: %{{v{i}}} = %{{v{}}}\n", i.max(1) - 1)).collect::<String>() + "RUN: echo %{v3}\n",
        _ => {}
    }
    s
}
fn bytes(r: &mut Rng, s: String) -> Vec<u8> {
    let mut b = s.into_bytes();
    if r.chance(1, 12) && !b.is_empty() {
        let k = r.below(b.len());
        b.insert(k, *r.pick(&[0x80, 0xff, 0xc3, 0xf0, 0, 0xed, 0xe2]));
    }
    if r.chance(1, 12) && !b.is_empty() {
        let k = r.below(b.len());
        b.truncate(k);
    }
    b
}

const TREE: &[&str] = &["", "[substitutions]\n\"%x\" = \"é%%\"\na = \"%{b}\"\n", "[substitutions]\n'%\\{b\\}' = \"%{a}\"\n\".\" = \"\"\n", "[substitutions]\n\"\" = \"x\"\n", "[substitutions]\n\"(\" = \"x\"\n", "[env]\nA = \"é\"\n"];

pub fn l13(ctx: &Arc<Ctx>) -> i32 {
    // suites are found below the working directory only
    std::env::set_current_dir(std::env::temp_dir().canonicalize().unwrap()).unwrap();
    ctx.run("scripts", ctx.n(8000, 20), |c| {
        let tmp = tempdir::TempDir::new("vh-l13").unwrap();
        let toml = format!("name = \"s\"\nsource_dir = {0:?}\nworking_dir = {0:?}\n{1}", tmp.path(), c.rng.pick(TREE));
        let suite: Arc<litcheck_lit::TestSuite> = Arc::new(toml::from_str(&toml).map_err(|e| Fail::new(format!("the suite does not parse: {e}"), toml.clone()))?);
        let mut config = litcheck_lit::Config::new(vec![]);
        let fmt = ShTest::new("/bin/true".into());
        let mut all = String::new();
        for i in 0..10 {
            let b = { let s = script(&mut c.rng); bytes(&mut c.rng, s) };
            let name = format!("{}{i}", c.rng.pick(&["t", "é ", "a'b", "%s", "😀"]));
            std::fs::write(tmp.path().join(&name), &b).unwrap();
            let test = litcheck_lit::Test::new(name.into(), suite.clone(), suite.config.clone());
            let text = String::from_utf8_lossy(&b).into_owned();
            let d = || format!("test file:\n{text:?}\nsuite:\n{toml}");
            config.options.no_execute = c.rng.chance(1, 3);
            let r = match guarded(|| fmt.execute(&test, &config)) {
                Err(p) => fail!(d(), "the test file makes the tool panic: {p}"),
                Ok(Err(e)) => fail!(d(), "the test file aborts the run: {e}"),
                Ok(Ok(r)) => r,
            };
            let (status, shown) = match guarded(|| (format!("{:?}", r.status()), format!("{r} {r:#}"))) {
                Err(p) => fail!(d(), "the report of the result panics: {p}"),
                Ok(x) => x,
            };
            if status == "Unresolved" {
                ensure!(shown.len() > 20, d(), "the test is unresolved, but no reason is given: {shown:?}");
            }
            // /bin/true succeeds, so the test cannot fail for what its commands do
            ensure!(!["Fail", "Timeout", "FlakyPass", "Xfail"].contains(&status.as_str()), d(), "the status is {status}");
            c.count(&format!("scripts {status}"));
            all += &text;
        }
        c.describe(|| format!("{all:?}"));
        c.evaluated(Some(&all));
        Ok(())
    });
    ctx.run("configs", ctx.n(16000, 20), |c| {
        let tmp = tempdir::TempDir::new("vh-l13").unwrap();
        let root = tmp.path().canonicalize().unwrap();
        let mut all = String::new();
        for d in ["", "a", "a/b", "é"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
            for i in 0..c.rng.below(3) { std::fs::write(root.join(d).join(format!("{i}.t")), "RUN: true\n").unwrap(); }
            for (f, p) in [("lit.suite.toml", if d.is_empty() { 9 } else { 2 }), ("lit.local.toml", 2)] {
                if c.rng.chance(p, 10) {
                    let s = config_text(&mut c.rng, f == "lit.suite.toml");
                    let b = bytes(&mut c.rng, s);
                    all += &format!("--- {d}/{f}\n{}\n", String::from_utf8_lossy(&b));
                    std::fs::write(root.join(d).join(f), b).unwrap();
                }
            }
        }
        let d = || all.clone();
        let config = litcheck_lit::Config::new(vec![]);
        let mut reg = DefaultTestSuiteRegistry::default();
        let mut refused = 0;
        for p in ["", "a", "a/b/0.t", "é"] {
            match guarded(|| reg.load_from_path(&root.join(p), &config)) {
                Err(p) => fail!(d(), "loading the suites panics: {p}"),
                Ok(Ok(())) => {}
                Ok(Err(e)) => {
                    refused += 1;
                    match guarded(|| format!("{e:?}").len() + format!("{e} {:?}", e.help().map(|h| h.to_string())).len()) {
                        Err(p) => fail!(d(), "the report of the error panics: {p}"),
                        Ok(n) => ensure!(n > 10, d(), "an error without a text"),
                    }
                }
            }
        }
        let n = match guarded(|| {
            let per: usize = reg.suites().map(|s| reg.size_of_suite(&s.id())).sum();
            let listed = reg.tests().map(|t| t.name().len()).count();
            (per, listed, reg.num_tests(), reg.num_suites(), reg.suites().count())
        }) {
            Err(p) => fail!(d(), "the registry panics: {p}"),
            Ok(x) => x,
        };
        ensure!(n.0 == n.1 && n.1 == n.2 && n.3 == n.4, d(), "the registry counts {n:?}");
        c.count_n("configurations refused", refused);
        c.count_n("suites loaded", n.3 as u64);
        c.count_n("tests found", n.1 as u64);
        c.describe(|| all.clone());
        c.evaluated(Some(&all));
        Ok(())
    });
    ctx.finish("exploration", "Library part: generated test files (soups of directives, substitutions and multi-byte characters) are parsed, substituted and reported with /bin/true as the shell, and trees of generated configurations are loaded; panics, aborts, hangs, results without a reason and counts that do not add up are violations. Non-trivial: distinct texts.", &["Overflow and debug assertions on; a watchdog of 20 s per case"])
}

fn config_text(r: &mut Rng, suite: bool) -> String {
    let vals = ["\"s\"", "\"\"", "\"é\"", "\"*\"", "\"*.t\"", "[\"*.t\"]", "[\"[\"]", "[\"**\", \"***\"]", "[]", "1", "-1", "true", "1.5", "nan", "1979-05-27", "99999999999999999999", "{}", "{a = \"b\"}", "{\"é\" = 1}", "{shtest = {}}", "{\"(\" = \"x\"}", "[[]]", "\"\\u0000\"", "\".\"", "\"a\"", "'''\n\n'''", "\"a/b\"", "[1, \"a\"]", "[\"a-b\", \"é\", \"\"]"];
    let keys: &[(&str, &str)] = &[("patterns", "[\"*.t\"]"), ("exclude", "[\"0*\"]"), ("env", "{A = \"é\"}"), ("substitutions", "{\"%a\" = \"b\"}"), ("available_features", "[\"x\"]"), ("format", "{shtest = {}}"), ("source_dir", "\".\""), ("working_dir", "\".\""), ("unknown", "1"), ("format.shtest.shell", "\"sh\""), ("format.executable.unsupported", "[\"x\"]"), ("env.B", "\"1\"")];
    let tame = r.range(50, 100);
    let mut s = String::new();
    if suite && r.below(100) < tame.max(90) { s += &format!("name = {}\n", if r.below(100) < tame { "\"n\"" } else { *r.pick(&vals) }); }
    let mut used: Vec<&str> = vec![];
    for _ in 0..r.below(6) {
        let (k, v) = *r.pick(keys);
        let top = k.split('.').next().unwrap();
        if used.contains(&top) && r.below(100) < tame { continue; }
        used.push(top);
        s += &format!("{k} = {}{}", if r.below(100) < tame { v } else { *r.pick(&vals) }, if r.below(100) < tame { "\n" } else { *r.pick(&["\r\n", " # é\n", "", ",\n"]) });
    }
    s
}
