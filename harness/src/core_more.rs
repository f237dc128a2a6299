//! Monitors of how inputs are found and read, and of variable definitions (K08).
use crate::mon::*;
use crate::rng::Rng;
use crate::{ensure, fail};
use litcheck::diagnostics::*;
use litcheck::variables::{TypedVariable, ValueParser, Variable, VariableName};
use litcheck::Input;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::Arc;

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn scratch(case: &Case) -> Dir {
    let d = std::env::temp_dir().join(format!("vh-{}-{}-{:?}", std::process::id(), case.idx, std::thread::current().id()).replace(['(', ')'], ""));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("a scratch directory");
    Dir(d)
}

/// The glob language of the documentation, over whole paths: `*` and `?` match any character
fn globs(p: &[char], s: &[char]) -> bool {
    match p.split_first() {
        None => s.is_empty(),
        Some(('*', rest)) => (0..=s.len()).any(|k| globs(rest, &s[k..])),
        Some(('?', rest)) => !s.is_empty() && globs(rest, &s[1..]),
        Some(('[', rest)) => {
            let Some(end) = rest.iter().skip(1).position(|c| *c == ']').map(|x| x + 1) else { return false };
            let (neg, set) = if rest[0] == '!' { (true, &rest[1..end]) } else { (false, &rest[..end]) };
            let Some((c, more)) = s.split_first() else { return false };
            let mut inside = false;
            let mut k = 0;
            while k < set.len() {
                if k + 2 < set.len() && set[k + 1] == '-' {
                    inside |= (set[k]..=set[k + 2]).contains(c);
                    k += 3;
                } else {
                    inside |= set[k] == *c;
                    k += 1;
                }
            }
            inside != neg && globs(&rest[end + 1..], more)
        }
        Some((c, rest)) => s.first() == Some(c) && globs(rest, &s[1..]),
    }
}

const NAMES: &[&str] = &["a", "b", "ab", "x1", "é", "a b", "[q]", "a*", ".h", "a.b", "README", "0"];
const EXTS: &[&str] = &["", "", ".txt", ".rs", ".ll", ".tar.gz", ".TXT", ".", ".l"];
const PATTERNS: &[&str] = &["*", "*.txt", "?", "*/*", "*.rs", "a*", "*a*", "x?.ll", "a/*", "*.l", "[a-b]*", "*[!t]", "*/a/*", "nothing", "a.b", "*.*", "*é*", "? ?", "*/b.rs", "[é]", "a[*]*"];

fn trees(case: &mut Case) -> Result<(), Fail> {
    let mut rng = case.rng.clone();
    let d = scratch(case);
    // the directory may have a name that means something in a pattern
    let root = d.0.join(*rng.pick(&["root", "ro[o]t", "r*t", "r?", "[!a]", "r o", "é"]));
    std::fs::create_dir(&root).expect("the root");
    let mut dirs = vec![PathBuf::new()];
    let mut files: BTreeSet<PathBuf> = BTreeSet::new();
    for _ in 0..rng.below(14) {
        let under = rng.pick(&dirs).clone();
        let p = under.join(*rng.pick(NAMES));
        if rng.chance(1, 3) && under.components().count() < 6 {
            if !files.contains(&p) && std::fs::create_dir_all(root.join(&p)).is_ok() {
                dirs.push(p);
            }
        } else {
            let p = PathBuf::from(format!("{}{}", p.display(), rng.pick(EXTS)));
            if !dirs.contains(&p) && std::fs::write(root.join(&p), "x").is_ok() {
                files.insert(p);
            }
        }
    }
    if rng.chance(1, 10) {
        let deep: PathBuf = std::iter::repeat_n("d", 40).collect();
        std::fs::create_dir_all(root.join(&deep)).expect("directories");
        std::fs::write(root.join(&deep).join("a.txt"), "x").expect("a file");
        files.insert(deep.join("a.txt"));
    }
    let shown = || format!("root {:?}\ndirectories {dirs:?}\nfiles {files:?}", root);
    case.describe(shown);
    let input = Input::from(root.as_path());
    ensure!(input.exists() && input.is_directory() && !input.is_file() && input.path() == root, shown(), "the directory is not seen as one");
    let judge = |what: &str, got: Result<Vec<Input>, String>, want: BTreeSet<PathBuf>| -> Result<usize, Fail> {
        let got = got.map_err(|e| Fail::new(format!("{what}: {e}"), shown()))?;
        let n = got.len();
        let mut set = BTreeSet::new();
        for i in &got {
            let Ok(p) = i.path().strip_prefix(&root) else { fail!(shown(), "{what} finds {:?}, which is not under the directory", i.path()) };
            ensure!(i.is_file(), shown(), "{what} finds {p:?}, which is not a file");
            ensure!(set.insert(p.to_path_buf()), shown(), "{what} finds {p:?} twice");
        }
        ensure!(set == want, format!("{}\nfound {set:?}\nexpected {want:?}", shown()), "{what} finds other files");
        Ok(n)
    };
    for _ in 0..3 {
        let pat = *rng.pick(PATTERNS);
        let pc: Vec<char> = pat.chars().collect();
        let want: BTreeSet<PathBuf> = files.iter().filter(|f| globs(&pc, &f.to_str().unwrap().chars().collect::<Vec<_>>())).cloned().collect();
        let some = !want.is_empty();
        let n = judge(&format!("glob {pat:?}"), guarded(|| input.glob(pat)).and_then(|r| r.map_err(|e| e.to_string())), want)?;
        case.count_n("files found by glob", n as u64);
        case.evaluated(some.then(|| format!("{pat} {files:?}")).as_deref());
    }
    for _ in 0..2 {
        let types: Vec<String> = (0..rng.range(0, 3)).map(|_| rng.pick(&["txt", "rs", "ll", "gz", "TXT", "l", "tar.gz", "b", ""]).to_string()).collect();
        let ext = |f: &Path| -> Option<String> {
            // what follows the last dot of the name, unless the name starts with it
            let n = f.file_name()?.to_str()?;
            n.rfind('.').filter(|i| *i > 0).map(|i| n[i + 1..].to_string())
        };
        let want: BTreeSet<PathBuf> = files.iter().filter(|f| ext(f).is_some_and(|e| types.contains(&e))).cloned().collect();
        let some = !want.is_empty();
        let n = judge(&format!("file types {types:?}"), guarded(|| input.get_file_types(&types)).and_then(|r| r.map_err(|e| e.to_string())), want)?;
        case.count_n("files found by type", n as u64);
        case.evaluated(some.then(|| format!("{types:?} {files:?}")).as_deref());
    }
    // a search with a predicate, which follows links and is not stopped by those that lead nowhere
    let mut linked: BTreeSet<PathBuf> = files.clone();
    if rng.chance(1, 2) {
        std::fs::create_dir_all(d.0.join("other/deep")).expect("directories");
        std::fs::write(d.0.join("other/o.txt"), "x").expect("a file");
        std::fs::write(d.0.join("other/deep/p.rs"), "x").expect("a file");
        for _ in 0..rng.range(1, 4) {
            let at = rng.pick(&dirs).join(*rng.pick(&["l", "l.txt", ".#l", "zz.rs"]));
            let to = *rng.pick(&["nowhere", "/nonexistent/a", "other", "other/o.txt", "other/deep"]);
            let target = if to.starts_with("other") { d.0.join(to) } else { PathBuf::from(to) };
            if std::os::unix::fs::symlink(target, root.join(&at)).is_err() {
                continue;
            }
            case.count(if to.starts_with("other") { "links" } else { "links to nothing" });
            match to {
                "other" => linked.extend([at.join("o.txt"), at.join("deep/p.rs")]),
                "other/deep" => linked.extend([at.join("p.rs")]),
                "other/o.txt" => linked.extend([at]),
                _ => {}
            }
        }
    }
    for recursive in [true, false] {
        let pat = *rng.pick(&[".txt", ".rs", "", "a", "b"]);
        let fits = |p: &Path| p.file_name().is_some_and(|n| n.to_string_lossy().ends_with(pat));
        let want: Vec<PathBuf> = linked.iter().filter(|f| fits(f) && (recursive || f.components().count() == 1)).cloned().collect();
        let what = format!("search for *{pat}, recursive {recursive}, links included {linked:?}");
        let mut got = vec![];
        for e in guarded(|| litcheck::fs::search_directory(&root, recursive, |e| fits(e.path())).collect::<Vec<_>>()).map_err(|e| Fail::new(format!("{what}: {e}"), shown()))? {
            match e {
                Ok(e) => got.push(e.path().strip_prefix(&root).expect("below the root").to_path_buf()),
                Err(e) => fail!(shown(), "{what}: {e}"),
            }
        }
        got.sort();
        ensure!(got == want, format!("{}\nfound {got:?}\nexpected {want:?}", shown()), "{what} finds other files");
        case.count_n("files found by search", got.len() as u64);
        case.evaluated((!want.is_empty()).then(|| what.clone()).as_deref());
    }
    Ok(())
}

fn texts(case: &mut Case) -> Result<(), Fail> {
    let mut rng = case.rng.clone();
    let d = scratch(case);
    let name = *rng.pick(&["a.txt", "b.rs", "c", "é.ll", "--", "-x", "a b.toml"]);
    let mut text = crate::core_checks::gen_text(&mut rng, 40);
    if rng.chance(1, 10) {
        text = text.repeat(rng.range(100, 3000));
    }
    let mut bytes = text.clone().into_bytes();
    let invalid = rng.chance(1, 6);
    if invalid {
        let at = rng.below(bytes.len() + 1);
        bytes.splice(at..at, rng.pick(&[&[0xffu8][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0x80], &[0xf0, 0x9f]]).iter().copied());
    }
    let valid = std::str::from_utf8(&bytes).is_ok();
    let path = d.0.join(name);
    std::fs::write(&path, &bytes).expect("a file");
    let shown = || format!("{name}: {:?}", String::from_utf8_lossy(&bytes[..bytes.len().min(400)]));
    case.describe(shown);
    let input = match rng.below(4) {
        0 => Input::from(path.clone()),
        1 => Input::from(path.as_path()),
        2 => Input::from(path.as_os_str()),
        _ => Input::from(path.clone().into_os_string()),
    };
    ensure!(input.exists() && input.is_file() && !input.is_directory() && input.path() == path, shown(), "the file is not seen as one");
    ensure!(input.filename() == FileName::from(path.clone()), shown(), "the name of the input is {:?}", input.filename());
    // line ends are normalized, and the last one is dropped, unless reading is strict
    let loose: String = {
        let mut ls: Vec<&str> = text.split('\n').collect();
        if ls.last() == Some(&"") {
            ls.pop();
        }
        let ends = text.matches('\n').count();
        ls.iter().enumerate().map(|(i, l)| if i < ends { l.strip_suffix('\r').unwrap_or(l) } else { l }).collect::<Vec<_>>().join("\n")
    };
    for strict in [true, false] {
        let what = if strict { "strict" } else { "not strict" };
        let want = if strict { &text } else { &loose };
        let sm = DefaultSourceManager::default();
        let got = guarded(|| input.read_to_string(strict)).map_err(|p| Fail::new(p, shown()))?;
        let src = guarded(|| input.into_source(strict, &sm)).map_err(|p| Fail::new(p, shown()))?;
        ensure!(got.is_ok() == src.is_ok(), shown(), "{what}: reading and loading differ: {got:?}");
        match got {
            Ok(t) => {
                ensure!(valid, shown(), "{what}: a file which is not UTF-8 is read");
                ensure!(t == *want, format!("{}\nexpected {want:?}\nread {t:?}", shown()), "{what}: another text is read");
                let src = src.unwrap();
                ensure!(src.as_str() == want && *src.uri() == FileName::from(path.clone()), shown(), "{what}: another text or name is loaded");
                ensure!(sm.get(src.id()).is_ok_and(|s| s.as_str() == want), shown(), "{what}: the source cannot be found again");
                case.count("files read");
            }
            Err(e) => {
                ensure!(!valid, format!("{}\n{e}", shown()), "{what}: a readable file is not read");
                case.count("files refused");
            }
        }
        case.evaluated(Some(&format!("{strict} {bytes:?}")));
    }
    let gone = Input::from(d.0.join("missing"));
    ensure!(!gone.exists() && !gone.is_file() && !gone.is_directory() && gone.read_to_string(true).is_err() && gone.read_to_string(false).is_err(), shown(), "a missing file can be read");
    ensure!(Input::from(d.0.as_path()).read_to_string(strict_of(&mut rng)).is_err(), shown(), "a directory can be read");
    ensure!(Input::from(Path::new("-")).filename() == FileName::Stdin, "", "'-' is not standard input");
    ensure!(Input::from(Path::new("./-")).filename() != FileName::Stdin, "", "'./-' is standard input");
    Ok(())
}
fn strict_of(rng: &mut Rng) -> bool {
    rng.chance(1, 2)
}

fn variables(case: &mut Case) -> Result<(), Fail> {
    let mut rng = case.rng.clone();
    let pieces = ["A", "b", "_", "0", "9z", "é", " ", "-", "$", "@", "=", "==", "x1", "Ω", "\n", "N", ""];
    let s: String = (0..rng.below(6)).map(|_| *rng.pick(&pieces)).collect();
    let shown = || format!("{s:?}");
    case.describe(shown);
    let span = SourceSpan::new(SourceId::UNKNOWN, litcheck::range::Range::new(0, s.len() as u32));
    let valid = |n: &str| !n.is_empty() && n.chars().enumerate().all(|(i, c)| c == '_' || c.is_ascii_alphabetic() || i > 0 && c.is_ascii_digit());
    // a name, with its prefix
    let (prefix, bare) = match s.chars().next() {
        Some(c @ ('$' | '@')) => (Some(c), &s[1..]),
        _ => (None, s.as_str()),
    };
    match guarded(|| <VariableName as ValueParser>::try_parse(Span::new(span, s.as_str()))).map_err(|p| Fail::new(p, shown()))? {
        Ok(n) => {
            ensure!(valid(bare), shown(), "an invalid name is accepted");
            ensure!(n.as_str() == bare && n.to_string() == s, shown(), "the name is {:?}, shown as {n}", n.as_str());
            let kind = match n {
                VariableName::User(_) => None,
                VariableName::Global(_) => Some('$'),
                VariableName::Pseudo(_) => Some('@'),
            };
            ensure!(kind == prefix, shown(), "the kind of the variable is {kind:?}");
            let g = n.to_global();
            ensure!(g.as_str() == bare && !matches!(g, VariableName::User(_)) && matches!(g, VariableName::Pseudo(_)) == (prefix == Some('@')), shown(), "to_global gives {g}");
            ensure!(n.into_inner().as_str() == bare, shown(), "another symbol");
            case.count("names");
        }
        Err(_) => ensure!(!valid(bare), shown(), "a valid name is refused"),
    }
    case.evaluated(valid(bare).then_some(&s));
    // a definition
    let want = s.split_once('=').filter(|(k, _)| valid(k));
    match guarded(|| <Variable<String> as TypedVariable>::try_parse(Span::new(span, s.as_str()))).map_err(|p| Fail::new(p, shown()))? {
        Ok(v) => {
            let Some((k, w)) = want else {
                // whether global variables can be defined like this is not settled
                ensure!(s.starts_with(['$', '@']), shown(), "an invalid definition is accepted");
                return Ok(());
            };
            ensure!(v.name().as_str() == k && v.value == w && !v.is_global() && !v.is_pseudo(), shown(), "the definition is {v:?}");
            case.count("definitions");
        }
        Err(e) => {
            ensure!(want.is_none(), shown(), "a valid definition is refused");
            let text = guarded(|| format!("{e:?}")).map_err(|p| Fail::new(format!("the error cannot be shown: {p}"), shown()))?;
            ensure!(!text.trim().is_empty(), shown(), "the error is empty");
            case.count("definitions refused");
        }
    }
    case.evaluated(want.is_some().then_some(&s));
    Ok(())
}

pub fn k08(ctx: &Arc<Ctx>) -> i32 {
    ctx.run("trees", ctx.n(1_500, 20), trees);
    ctx.run("texts", ctx.n(3_000, 20), texts);
    ctx.run("variables", ctx.n(30_000, 20), variables);
    ctx.finish("exploration", "Generated directory trees searched by glob and by file type, generated files read strictly and not, generated definitions of variables, against direct definitions. Non-trivial: files found, a text read, a valid name or definition.", &["symbolic links to directories and invalid patterns are not generated"])
}
