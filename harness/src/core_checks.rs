//! Monitors for the core library: source files, source manager, path tree, symbols, ranges.
use crate::mon::*;
use crate::rng::Rng;
use crate::{ensure, fail};
use litcheck::diagnostics::*;
use litcheck::fs::PathPrefixTree;
use litcheck::range::{range_from_bounds, range_from_bounds_with_defaults, Range};
use litcheck::text::{self, Newline};
use litcheck::Symbol;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Barrier};

pub fn gen_text(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let pool: &[&str] = match r.below(4) {
        0 => &["a", "b", "\n", " "],
        1 => &["a", "é", "\n", "漢", "😀", "x"],
        2 => &["a", "\r\n", "\n", "\r", "z", "\t", "ß"],
        _ => &["\n", "\r\n", "a", "\u{2028}", "\u{0}", "𝒳", "q", "\\"],
    };
    (0..n).map(|_| *r.pick(pool)).collect()
}

// ---- K01 ------------------------------------------------------------------
struct RefText {
    s: String,
}
impl RefText {
    fn line_starts(&self) -> Vec<usize> {
        std::iter::once(0).chain(self.s.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1)).collect()
    }
    fn lines(&self) -> Vec<(usize, usize)> {
        let st = self.line_starts();
        (0..st.len()).map(|i| (st[i], st.get(i + 1).copied().unwrap_or(self.s.len()))).collect()
    }
    /// 0-based line and character column of a byte offset on a character boundary
    fn loc(&self, off: usize) -> (usize, usize) {
        let line = self.s[..off].matches('\n').count();
        let start = self.s[..off].rfind('\n').map(|i| i + 1).unwrap_or(0);
        (line, self.s[start..off].chars().count())
    }
}
fn check_content(c: &SourceContent, file: &SourceFile, want: &str, hist: &str) -> Result<(), Fail> {
    let rt = RefText { s: want.to_string() };
    let d = || format!("{hist}\ntext: {want:?}");
    ensure!(c.as_str() == want, d(), "content is {:?}", c.as_str());
    ensure!(c.len() == want.len() && c.is_empty() == want.is_empty() && c.as_bytes() == want.as_bytes(), d(), "len/bytes wrong");
    let lines = rt.lines();
    ensure!(c.line_count() == lines.len(), d(), "line_count {} expected {}", c.line_count(), lines.len());
    ensure!(file.line_count() == lines.len(), d(), "file line_count");
    ensure!(c.last_line_index().to_usize() == lines.len() - 1, d(), "last_line_index");
    for (i, (a, b)) in lines.iter().enumerate() {
        let li = LineIndex(i as u32);
        ensure!(c.line_start(li).map(|x| x.to_usize()) == Some(*a), d(), "line_start({i}) = {:?}, expected {a}", c.line_start(li));
        let r = c.line_range(li).map(|r| (r.start.to_usize(), r.end.to_usize()));
        ensure!(r == Some((*a, *b)), d(), "line_range({i}) = {r:?}, expected {a}..{b}");
        // positions past the end of the line are refused
        let cols = want[*a..*b].chars().count();
        for extra in [1u32, 2, 9] {
            let o = c.line_column_to_offset(li, ColumnIndex(cols as u32 + extra));
            ensure!(o.is_none(), d(), "line {i} column {} answers {o:?}, line has {cols} characters", cols as u32 + extra);
        }
    }
    for extra in [0u32, 1, 7] {
        let li = LineIndex(lines.len() as u32 + extra);
        ensure!(c.line_start(li).is_none() && c.line_range(li).is_none(), d(), "line {} exists", li.to_usize());
        ensure!(c.line_column_to_offset(li, ColumnIndex(0)).is_none(), d(), "column in missing line");
    }
    for off in 0..=want.len() {
        let bi = ByteIndex(off as u32);
        let line = want.as_bytes()[..off].iter().filter(|b| **b == b'\n').count();
        ensure!(c.line_index(bi).to_usize() == line, d(), "line_index({off}) = {}, expected {line}", c.line_index(bi).to_usize());
        let l = c.location(bi);
        if want.is_char_boundary(off) {
            let (el, ec) = rt.loc(off);
            let Some(l) = l else { fail!(d(), "location({off}) is None") };
            ensure!(
                l.line().to_index().to_usize() == el && l.column.to_index().to_usize() == ec,
                d(), "location({off}) = {}:{}, expected {}:{}", l.line(), l.column, el + 1, ec + 1
            );
            let back = c.line_column_to_offset(LineIndex(el as u32), ColumnIndex(ec as u32)).map(|x| x.to_usize());
            ensure!(back == Some(off), d(), "offset {off} -> {}:{} -> {back:?}", el + 1, ec + 1);
            let sp = file.line_column_to_span(LineIndex(el as u32).number(), ColumnIndex(ec as u32).number());
            ensure!(sp.map(|s| s.start().to_usize()) == Some(off), d(), "line_column_to_span at {off}");
            let fl = file.location(SourceSpan::at(file.id(), off as u32));
            ensure!(fl.line().to_index().to_usize() == el, d(), "SourceFile::location");
        } else {
            ensure!(l.is_none(), d(), "location({off}) inside a character answers {l:?}");
        }
    }
    for extra in [1u32, 5] {
        let l = c.location(ByteIndex(want.len() as u32 + extra));
        ensure!(l.is_none(), d(), "location past the end answers {l:?}");
    }
    Ok(())
}
pub fn k01(ctx: &Arc<Ctx>) -> i32 {
    ctx.run("texts", ctx.n(40000, 20), |c| {
        let t = gen_text(&mut c.rng, 40);
        let f = SourceFile::new(SourceId::file(3), SourceLanguage::Unknown, FileName::from("t"), t.clone());
        check_content(f.content(), &f, &t, "freshly loaded")?;
        // slices
        for _ in 0..20 {
            let (mut a, mut b) = (c.rng.below(t.len() + 3), c.rng.below(t.len() + 3));
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            let want = t.get(a..b);
            let d = || format!("text {t:?} span {a}..{b}");
            ensure!(f.source_slice(a..b) == want, d(), "source_slice = {:?}, expected {want:?}", f.source_slice(a..b));
            let wb = t.as_bytes().get(a..b);
            ensure!(f.content().byte_slice(Range::new(ByteIndex(a as u32), ByteIndex(b as u32))) == wb, d(), "byte_slice");
            // rendering of a span with context never panics and shows the requested bytes
            use miette::SourceCode;
            for ctxl in [0usize, 1, 3] {
                let r = f.read_span(&miette::SourceSpan::new(a.into(), b - a), ctxl, ctxl);
                match r {
                    Ok(s) => {
                        let data = s.data();
                        let (so, sl) = (s.span().offset(), s.span().len());
                        ensure!(t.as_bytes().get(so..so + sl) == Some(data), d(), "read_span data is not the text at its span");
                        ensure!(b > t.len() || (so <= a && so + sl >= b), d(), "read_span({ctxl}) does not cover the span");
                        if t.is_char_boundary(so) {
                            let rt = RefText { s: t.clone() };
                            ensure!((s.line(), s.column()) == rt.loc(so), d(), "read_span line/column ({},{}) expected {:?}", s.line(), s.column(), rt.loc(so));
                        }
                    }
                    Err(_) => ensure!(b > t.len(), d(), "read_span refused a valid span"),
                }
            }
        }
        let nl = t.matches('\n').count();
        c.count_n("offsets checked", t.len() as u64 + 1);
        c.count_n("multi-byte characters", t.chars().filter(|c| c.len_utf8() > 1).count() as u64);
        c.evaluated((nl > 0 && t.len() > 3).then_some(t.as_str()));
        Ok(())
    });
    // edit histories
    ctx.run("edits", ctx.n(60000, 20), |c| {
        let mut t = gen_text(&mut c.rng, 24);
        let mut f = SourceFile::new(SourceId::file(0), SourceLanguage::Unknown, FileName::from("t"), t.clone());
        let mut hist = format!("load {t:?}");
        for v in 0..c.rng.range(1, 8) {
            let ins = gen_text(&mut c.rng, 8);
            let rt = RefText { s: t.clone() };
            if c.rng.chance(1, 12) {
                hist += &format!("\nreplace all with {ins:?}");
                f.content_mut().update(ins.clone(), None, v as i32).unwrap();
                t = ins;
            } else if c.rng.chance(1, 8) {
                // out of bounds selection: must be refused and change nothing
                let l = rt.lines().len() as u32 + c.rng.below(3) as u32;
                let sel = Selection::new(Position::new(0, 0), Position::new(l, 0));
                hist += &format!("\nout-of-bounds edit at line {l}");
                ensure!(f.content_mut().update(ins, Some(sel), v as i32).is_err(), hist, "an edit out of bounds was accepted");
            } else {
                let bounds: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
                let (mut a, mut b) = (*c.rng.pick(&bounds), *c.rng.pick(&bounds));
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                let (pa, pb) = (rt.loc(a), rt.loc(b));
                let mut sel = Selection::new(Position::new(pa.0 as u32, pa.1 as u32), Position::new(pb.0 as u32, pb.1 as u32));
                if c.rng.chance(1, 4) {
                    // a selection made backwards is the same selection
                    sel = Selection { start: sel.end, end: sel.start };
                    hist += "\nbackwards:";
                }
                hist += &format!("\nreplace {}:{}..{}:{} with {ins:?}", pa.0, pa.1, pb.0, pb.1);
                let got = f.content().select(sel.clone());
                ensure!(got == Some(&t[a..b]), format!("{hist}\ntext {t:?}"), "select = {got:?}, expected {:?}", &t[a..b]);
                let r = f.content_mut().update(ins.clone(), Some(sel), v as i32);
                ensure!(r.is_ok(), hist, "a valid edit was refused: {r:?}");
                t.replace_range(a..b, &ins);
                ensure!(f.content().version() == v as i32, hist, "version");
            }
            check_content(f.content(), &f, &t, &hist)?;
            c.count("edits applied");
        }
        c.evaluated(Some(&hist));
        Ok(())
    });
    // sizes: more lines, longer lines and longer edits than a small counter could hold
    ctx.run("large", ctx.n(60, 12), |c| {
        let many = c.rng.chance(1, 2);
        let piece = *c.rng.pick(&["a", "é", "漢b", "x😀", "0123456789"]);
        let eol = *c.rng.pick(&["\n", "\r\n"]);
        let mut t = String::new();
        let mut what = String::new();
        if many {
            let n = *c.rng.pick(&[300usize, 5000, 33000, 66000, 70000]);
            for i in 0..n {
                if i % 7 != 0 {
                    t += piece;
                }
                t += eol;
            }
            what += &format!("{n} lines of {piece:?} {eol:?}");
        } else {
            for _ in 0..c.rng.range(1, 3) {
                let n = *c.rng.pick(&[200usize, 257, 5000, 33000, 66000, 70000]);
                t += &piece.repeat(n);
                t += eol;
                what += &format!("a line of {n} times {piece:?} {eol:?}; ");
            }
        }
        if c.rng.chance(1, 2) {
            t += piece;
        }
        let mut f = SourceFile::new(SourceId::file(0), SourceLanguage::Unknown, FileName::from("t"), t.clone());
        for v in 0..c.rng.range(1, 4) {
            if v > 0 {
                // replace a part by something much longer or much shorter
                let snap = |mut x: usize| {
                    while !t.is_char_boundary(x) {
                        x -= 1;
                    }
                    x
                };
                let a = snap(c.rng.below(t.len() + 1));
                let len = *c.rng.pick(&[0usize, 10, 5000, 70000, 200000]);
                let b = snap((a + len).min(t.len()));
                let k = *c.rng.pick(&[0usize, 1, 300, 5000, 70000]);
                let ins = (*c.rng.pick(&["z", "é\n", "y\r\nq", "\n"])).repeat(k);
                let rt = RefText { s: std::mem::take(&mut t) };
                let (pa, pb) = (rt.loc(a), rt.loc(b));
                t = rt.s;
                what += &format!("replace {a}..{b} by {k} times {:?}; ", ins.chars().take(3).collect::<String>());
                let sel = Selection::new(Position::new(pa.0 as u32, pa.1 as u32), Position::new(pb.0 as u32, pb.1 as u32));
                ensure!(f.content().select(sel.clone()) == Some(&t[a..b]), what, "the selection of {a}..{b} is another text");
                let r = f.content_mut().update(ins.clone(), Some(sel), v as i32);
                ensure!(r.is_ok(), what, "a valid edit was refused: {r:?}");
                t.replace_range(a..b, &ins);
            }
            let content = f.content();
            ensure!(content.as_str() == t && content.len() == t.len(), what, "the text is another one after the edits");
            let starts: Vec<usize> = std::iter::once(0).chain(t.bytes().enumerate().filter(|(_, b)| *b == b'\n').map(|(i, _)| i + 1)).collect();
            ensure!(content.line_count() == starts.len() && f.line_count() == starts.len(), what, "line_count {} expected {}", content.line_count(), starts.len());
            ensure!(content.last_line_index().to_usize() == starts.len() - 1, what, "last_line_index {}", content.last_line_index().to_usize());
            for (i, s) in starts.iter().enumerate() {
                let got = content.line_start(LineIndex(i as u32)).map(|x| x.to_usize());
                ensure!(got == Some(*s), what, "line_start({i}) = {got:?}, expected {s}");
                let e = starts.get(i + 1).copied().unwrap_or(t.len());
                let r = content.line_range(LineIndex(i as u32)).map(|r| (r.start.to_usize(), r.end.to_usize()));
                ensure!(r == Some((*s, e)), what, "line_range({i}) = {r:?}, expected {s}..{e}");
            }
            ensure!(content.line_start(LineIndex(starts.len() as u32)).is_none(), what, "a line after the last one");
            let mut offs = vec![0, t.len()];
            for _ in 0..60 {
                // anywhere, just around a line, and far into a line
                let x = match c.rng.below(3) {
                    0 => c.rng.below(t.len() + 1),
                    1 => (starts[c.rng.below(starts.len())] + c.rng.below(3)).min(t.len()),
                    _ => t.len() - c.rng.below(t.len().min(20) + 1),
                };
                offs.push(x);
            }
            for off in offs {
                let line = starts.partition_point(|s| *s <= off) - 1;
                let bi = ByteIndex(off as u32);
                ensure!(content.line_index(bi).to_usize() == line, what, "line_index({off}) = {}, expected {line}", content.line_index(bi).to_usize());
                if !t.is_char_boundary(off) {
                    ensure!(content.location(bi).is_none(), what, "location inside a character");
                    continue;
                }
                let col = t[starts[line]..off].chars().count();
                let Some(l) = content.location(bi) else { fail!(what, "location({off}) is None") };
                ensure!((l.line().to_index().to_usize(), l.column.to_index().to_usize()) == (line, col), what, "location({off}) = {}:{}, expected {}:{}", l.line(), l.column, line + 1, col + 1);
                let back = content.line_column_to_offset(LineIndex(line as u32), ColumnIndex(col as u32)).map(|x| x.to_usize());
                ensure!(back == Some(off), what, "offset {off} -> {}:{} -> {back:?}", line + 1, col + 1);
                let sp = f.line_column_to_span(LineIndex(line as u32).number(), ColumnIndex(col as u32).number());
                ensure!(sp.map(|s| s.start().to_usize()) == Some(off), what, "line_column_to_span at {off}");
                let b = (off..=t.len()).skip(c.rng.below(70000)).find(|x| t.is_char_boundary(*x)).unwrap_or(t.len());
                ensure!(f.source_slice(off..b) == Some(&t[off..b]), what, "source_slice({off}..{b})");
                c.count("offsets of large texts");
            }
        }
        c.evaluated(Some(&what));
        Ok(())
    });
    ctx.finish("exploration", "random texts (ASCII, multi-byte, mixed line endings) and random edit histories; every offset of every text is mapped to line/column and back and compared with a naive count over the text; non-trivial: text with at least one newline and more than 3 bytes, or an edit history", &["columns count characters, lines end at LF"])
}

// ---- K02 ------------------------------------------------------------------
pub fn k02(ctx: &Arc<Ctx>) -> i32 {
    fn name(r: &mut Rng) -> FileName {
        match r.below(8) {
            0 => FileName::from("-"),
            1..=3 => FileName::from(["a", "b", "c.txt", "d/e", "-x"][r.below(5)]),
            _ => FileName::from(Path::new(["a", "b", "c.txt", "d/e", "/abs/f"][r.below(5)])),
        }
    }
    // a text which is easily taken for another one
    fn alike(r: &mut Rng, t: &str) -> String {
        match r.below(6) {
            0 => t.replacen('\n', "\r\n", 1),
            1 => t.replacen("\r\n", "\n", 1),
            2 => format!("{t}\n"),
            3 => t.trim_end().to_string(),
            4 => {
                // the same bytes in another order
                let mut v: Vec<char> = t.chars().collect();
                v.reverse();
                v.into_iter().collect()
            }
            _ => {
                let mut v: Vec<char> = t.chars().collect();
                if let Some(l) = v.last_mut() {
                    *l = if *l == 'a' { 'b' } else { 'a' };
                }
                v.into_iter().collect()
            }
        }
    }
    // more sources than a small index could hold
    ctx.run("many", ctx.n(10, 15), |c| {
        let m = DefaultSourceManager::default();
        let (nargs, nfiles) = (*c.rng.pick(&[3usize, 200, 300, 1000, 3000]), *c.rng.pick(&[3usize, 200, 300, 1500, 3000]));
        let what = format!("{nargs} arguments and {nfiles} files in turn");
        let mut all: Vec<(SourceId, String, String)> = vec![];
        for i in 0..nargs.max(nfiles) {
            if i < nargs {
                let f = m.load_argument(["D", "check-prefix", "x"][i % 3], format!("argument {i}"));
                all.push((f.id(), ["D", "check-prefix", "x"][i % 3].to_string(), format!("argument {i}")));
            }
            if i < nfiles {
                let n = format!("f{}", if i % 5 == 0 { 0 } else { i });
                let f = m.load(SourceLanguage::Unknown, FileName::from(Path::new(&n)), format!("file {i}"));
                all.push((f.id(), n, format!("file {i}")));
            }
        }
        let ids: std::collections::HashSet<u32> = all.iter().map(|(id, _, _)| id.to_u32()).collect();
        ensure!(ids.len() == all.len(), what, "{} sources have {} ids", all.len(), ids.len());
        for (id, name, text) in &all {
            match m.get(*id) {
                Ok(f) => ensure!(f.as_str() == text && f.uri().as_str() == name && f.id() == *id, what, "id {:#x} was given for {name} {text:?}, and is {} {:?}", id.to_u32(), f.uri().as_str(), f.as_str()),
                Err(e) => fail!(what, "id {:#x} of {text:?} is lost: {e}", id.to_u32()),
            }
            let s = m.source(*id).map(|s| s.as_str().to_string());
            ensure!(s.as_deref().ok() == Some(text.as_str()), what, "source({:#x})", id.to_u32());
            c.count("sources looked up among many");
        }
        c.evaluated(Some(&what));
        Ok(())
    });
    // sequential histories against a map model
    ctx.run("histories", ctx.n(40000, 20), |c| {
        let mut m = DefaultSourceManager::default();
        let mut left: Vec<(DefaultSourceManager, BTreeMap<u32, String>, HashMap<String, u32>)> = vec![];
        // model: id -> current text; name -> id; name text is the identity of a file name
        let mut files: BTreeMap<u32, String> = BTreeMap::new();
        let mut names: HashMap<String, u32> = HashMap::new();
        let mut idname: HashMap<u32, String> = HashMap::new();
        let mut held: Vec<(SourceFileRef, String)> = vec![];
        let mut hist = String::new();
        for step in 0..c.rng.range(2, 30) {
            match c.rng.below(11) {
                9 => {
                    // a clone answers like the original from then on, and is independent of it
                    if left.len() < 3 {
                        hist += "\nclone";
                        let mut other = m.clone();
                        if c.rng.chance(1, 2) {
                            hist += ", and go on with it";
                            std::mem::swap(&mut other, &mut m);
                        }
                        left.push((other, files.clone(), names.clone()));
                    }
                }
                0..=3 => {
                    let n = name(&mut c.rng);
                    let text = match c.rng.below(5) {
                        0 => "same".to_string(),
                        1 => format!("t{}", c.rng.below(3)),
                        2 if names.contains_key(n.as_str()) => alike(&mut c.rng, &files[&names[n.as_str()]]),
                        3 => ["a\r\nb\n", "a\nb\r\n", "a\nb\n\n", "a\n\nb\n", "", "\n"][c.rng.below(6)].to_string(),
                        _ => gen_text(&mut c.rng, 6),
                    };
                    hist += &format!("\nload {n:?} {text:?}");
                    let f = m.load(SourceLanguage::Unknown, n.clone(), text.clone());
                    let id = f.id().to_u32();
                    ensure!(f.as_str() == text, hist, "loaded file has content {:?}", f.as_str());
                    ensure!(f.uri().as_str() == n.as_str(), hist, "loaded file is named {:?}", f.uri());
                    let key = n.as_str().to_string();
                    match names.get(&key) {
                        Some(old) if files[old] == text => ensure!(*old == id, hist, "same name and content got a new id {id}, was {old}"),
                        _ => ensure!(!files.contains_key(&id), hist, "id {id} reused for different content"),
                    }
                    names.insert(key.clone(), id);
                    files.insert(id, text);
                    idname.insert(id, key);
                }
                4 => {
                    let text = format!("arg{}", c.rng.below(3));
                    let nm: &'static str = ["D", "check-prefix"][c.rng.below(2)];
                    hist += &format!("\nload_argument {nm} {text:?}");
                    let f = m.load_argument(nm, text.clone());
                    let id = f.id().to_u32();
                    ensure!(f.as_str() == text && f.id().is_cli_argument(), hist, "argument source wrong");
                    match names.get(nm) {
                        Some(old) if files[old] == text => ensure!(*old == id, hist, "same argument got a new id"),
                        _ => ensure!(!files.contains_key(&id), hist, "argument id reused"),
                    }
                    names.insert(nm.to_string(), id);
                    files.insert(id, text);
                    idname.insert(id, nm.to_string());
                }
                5 => {
                    if let Some((&id, old)) = files.iter().nth(c.rng.below(files.len().max(1))) {
                        let text = gen_text(&mut c.rng, 5);
                        let fid = m.get(to_id(id)).map_err(|e| Fail::new(format!("lost id {id}: {e}"), hist.clone()))?.id();
                        let whole = c.rng.chance(1, 2);
                        hist += &format!("\nupdate {id:#x} {} {text:?}", if whole { "all" } else { "prepend" });
                        let sel = (!whole).then(|| Selection::new(Position::new(0, 0), Position::new(0, 0)));
                        let want = if whole { text.clone() } else { format!("{text}{old}") };
                        m.update(fid, text, sel, step as i32).map_err(|e| Fail::new(format!("update failed: {e}"), hist.clone()))?;
                        files.insert(id, want);
                    }
                }
                6 => {
                    if let Some((&id, t)) = files.iter().nth(c.rng.below(files.len().max(1))) {
                        if let Ok(r) = m.source(to_id(id)) {
                            ensure!(r.as_str() == t, hist, "source({id:#x}) = {:?}, expected {t:?}", r.as_str());
                            held.push((r, t.clone()));
                        } else {
                            fail!(hist, "source({id:#x}) absent");
                        }
                    }
                }
                8 => {
                    // copying a file of another manager, a detached one, or one of its own
                    let n = name(&mut c.rng);
                    let text = format!("t{}", c.rng.below(3));
                    let key = n.as_str().to_string();
                    let other = DefaultSourceManager::default();
                    for _ in 0..c.rng.below(3) {
                        other.load(SourceLanguage::Unknown, FileName::from("filler"), format!("{}", c.rng.next()));
                    }
                    let src = match c.rng.below(3) {
                        0 => other.load(SourceLanguage::Unknown, n.clone(), text.clone()),
                        1 => Arc::new(SourceFile::new(SourceId::UNKNOWN, SourceLanguage::Unknown, n.clone(), text.clone())),
                        _ => m.load(SourceLanguage::Unknown, n.clone(), text.clone()),
                    };
                    hist += &format!("\ncopy {n:?} {text:?} (id {:#x})", src.id().to_u32());
                    let own = m.is_manager_of(&src);
                    let f = m.copy_into(&src);
                    let id = f.id().to_u32();
                    ensure!(f.as_str() == text && f.uri().as_str() == n.as_str() && m.is_manager_of(&f), hist, "copy is {:?} {:?}", f.uri(), f.as_str());
                    ensure!(!own || Arc::ptr_eq(&f, &src), hist, "copying an own file gave another one");
                    match names.get(&key) {
                        Some(old) if files[old] == text => ensure!(*old == id, hist, "same name and content got a new id {id}, was {old}"),
                        _ => ensure!(!files.contains_key(&id), hist, "id {id} reused for different content"),
                    }
                    names.insert(key.clone(), id);
                    files.insert(id, text);
                    idname.insert(id, key);
                }
                7 => {
                    let bad = [SourceId::file(files.len() as u32 + 40), SourceId::argument(77), SourceId::file(0xff_ffff), SourceId::UNKNOWN][c.rng.below(4)];
                    hist += &format!("\nunknown id {:#x}", bad.to_u32());
                    ensure!(m.get(bad).is_err() && m.source(bad).is_err(), hist, "unknown id answers");
                    let sp = SourceSpan::at(bad, 0u32);
                    ensure!(m.file_line_col(sp).is_err() && m.location(sp).is_err() && m.source_slice(sp).is_err(), hist, "unknown id answers a location");
                    ensure!(m.update(bad, "x".into(), None, 1).is_err(), hist, "update of an unknown id accepted");
                    let un = FileName::from("never-loaded");
                    ensure!(m.find(&un).is_none() && m.get_by_uri(&un).is_none(), hist, "unknown name answers");
                    let probe = FileLineCol::new(un, LineNumber::new(1).unwrap(), ColumnNumber::new(1).unwrap());
                    ensure!(m.file_line_col_to_span(probe).is_none(), hist, "unknown name answers a span");
                }
                _ => {
                    if let Some((&id, t)) = files.iter().nth(c.rng.below(files.len().max(1))) {
                        let sid = to_id(id);
                        let (a, b) = (c.rng.below(t.len() + 4), c.rng.below(t.len() + 4));
                        let (a, b) = (a.min(b), a.max(b));
                        let sp = SourceSpan::from_range_unchecked(sid, a..b);
                        let d = || format!("{hist}\nfile {id:#x} = {t:?}, span {a}..{b}");
                        match m.source_slice(sp) {
                            Ok(r) => ensure!(t.get(a..b) == Some(r.as_str()), d(), "source_slice = {:?}", r.as_str()),
                            Err(_) => ensure!(t.get(a..b).is_none(), d(), "source_slice refused a valid span"),
                        }
                        match m.file_line_col(sp) {
                            Ok(l) => {
                                ensure!(t.is_char_boundary(a), d(), "file_line_col answers for an invalid span");
                                let rt = RefText { s: t.clone() };
                                ensure!(rt.loc(a) == (l.line().to_index().to_usize(), l.column.to_index().to_usize()), d(), "file_line_col = {l}");
                            }
                            Err(_) => ensure!(!t.is_char_boundary(a) || b > t.len(), d(), "file_line_col refused a valid span"),
                        }
                        match m.location(sp) {
                            Ok(l) => {
                                ensure!(t.get(a..b).is_some(), d(), "location answers {l:?} for an invalid span");
                                ensure!(l.uri().as_str() == idname[&id] && l.start.to_usize() == a && l.end.to_usize() == b, d(), "location = {l:?}");
                                let back = m.location_to_span(l);
                                // the name may stand for a later file by now
                                let cur = names[&idname[&id]];
                                let ok = b <= files[&cur].len();
                                match back {
                                    Some(s) => ensure!(ok && s.source_id().to_u32() == cur && core::ops::Range::from(s.into_slice_index()) == (a..b), d(), "location_to_span = {s:?}"),
                                    None => ensure!(!ok || a >= files[&cur].len(), d(), "location_to_span is absent"),
                                }
                            }
                            Err(_) => ensure!(t.get(a..b).is_none(), d(), "location refused a valid span"),
                        }
                        c.count("spans located");
                    }
                }
            }
            // global audit
            for (id, t) in &files {
                let f = m.get(to_id(*id)).map_err(|e| Fail::new(format!("lost id {id:#x}: {e}"), hist.clone()))?;
                ensure!(f.as_str() == t && f.id().to_u32() == *id, hist, "id {id:#x} has content {:?}, expected {t:?}", f.as_str());
                ensure!(f.uri().as_str() == idname[id], hist, "id {id:#x} is named {:?}", f.uri());
                ensure!(m.is_manager_of(&f), hist, "not manager of its own file");
            }
            for (n, id) in &names {
                let fname = FileName::from(n.replace("stdin", "-"));
                let found = m.find(&fname).map(|i| i.to_u32());
                ensure!(found == Some(*id), hist, "find({n}) = {found:?}, expected {id}");
                ensure!(m.get_by_uri(&fname).map(|f| f.as_str().to_string()) == Some(files[id].clone()), hist, "get_by_uri({n})");
            }
            for (r, t) in &held {
                ensure!(r.as_str() == t, hist, "a held reference changed to {:?}, was {t:?}", r.as_str());
            }
        }
        for (m, files, names) in &left {
            for (id, t) in files {
                let f = m.get(to_id(*id)).map_err(|e| Fail::new(format!("a clone lost id {id:#x}: {e}"), hist.clone()))?;
                ensure!(f.as_str() == t, hist, "in a clone id {id:#x} has content {:?}, expected {t:?}", f.as_str());
            }
            for (n, id) in names {
                let found = m.find(&FileName::from(n.replace("stdin", "-"))).map(|i| i.to_u32());
                ensure!(found == Some(*id), hist, "in a clone find({n}) = {found:?}, expected {id}");
            }
        }
        c.count_n("files", files.len() as u64);
        c.evaluated((files.len() > 1).then_some(hist.as_str()));
        Ok(())
    });
    // concurrent loads
    ctx.run_on(1, "threads", ctx.n(150, 10), |c| {
        let m = DefaultSourceManager::default();
        let nt = c.rng.range(2, 8);
        let seeds: Vec<u64> = (0..nt).map(|_| c.rng.next()).collect();
        let bar = Barrier::new(nt);
        let shared = c.rng.chance(2, 3);
        // each name has one content throughout: every load of it gives one id
        let stable = c.rng.chance(1, 3);
        let res: Vec<Result<Vec<(u32, String, String)>, Fail>> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds.iter().enumerate().map(|(t, seed)| {
                let (m, bar) = (&m, &bar);
                s.spawn(move || {
                    let mut r = Rng::new(*seed);
                    bar.wait();
                    let mut out = vec![];
                    for _ in 0..60 {
                        let n = if shared { format!("n{}", r.below(6)) } else { format!("t{t}-{}", r.below(6)) };
                        let text = format!("content {} of {n}", if stable { 0 } else { r.below(3) });
                        let f = m.load(SourceLanguage::Unknown, FileName::from(n.as_str()), text.clone());
                        ensure!(f.as_str() == text, "", "load returned other content");
                        out.push((f.id().to_u32(), n.clone(), text.clone()));
                        let g = m.get(f.id()).map_err(|e| Fail::new(format!("fresh id lost: {e}"), ""))?;
                        ensure!(g.as_str() == text, "", "id {} answers {:?}, loaded {text:?}", f.id().to_u32(), g.as_str());
                        if let Some(h) = m.get_by_uri(&FileName::from(n.as_str())) {
                            ensure!(h.uri().as_str() == n, "", "get_by_uri({n}) answers {:?}", h.uri());
                        } else {
                            fail!("", "name {n} lost");
                        }
                    }
                    Ok(out)
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut byid: HashMap<u32, (String, String)> = HashMap::new();
        let mut loads = 0;
        let mut byname: HashMap<String, u32> = HashMap::new();
        for r in res {
            for (id, n, t) in r? {
                loads += 1;
                if stable {
                    let e = *byname.entry(n.clone()).or_insert(id);
                    ensure!(e == id, "", "{n} was always loaded with the same content, and has the ids {e} and {id}");
                }
                let e = byid.entry(id).or_insert((n.clone(), t.clone()));
                ensure!(*e == (n.clone(), t.clone()), "", "id {id} shared by {e:?} and {:?}", (n, t));
            }
        }
        for (id, (_, t)) in &byid {
            let f = m.get(to_id(*id)).map_err(|e| Fail::new(format!("id {id} lost: {e}"), ""))?;
            ensure!(f.as_str() == t, "", "id {id} changed");
        }
        c.count_n("concurrent loads", loads);
        c.evaluated(Some(&format!("{nt} threads, shared names: {shared}, {} ids, case {}", byid.len(), c.idx)));
        Ok(())
    });
    // files read from disk
    ctx.run("disk", ctx.n(800, 10), |c| {
        use litcheck::diagnostics::SourceManagerExt;
        let tmp = tempdir::TempDir::new("vh-k02").unwrap();
        let m = DefaultSourceManager::default();
        let mut model: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
        let mut known: HashMap<PathBuf, (u32, String)> = HashMap::new();
        let mut hist = String::new();
        for _ in 0..c.rng.range(2, 16) {
            let p = tmp.path().join(["a", "b.rs", "c d", "é.txt", "none"][c.rng.below(5)]);
            if c.rng.chance(1, 2) && !p.ends_with("none") {
                let mut b = gen_text(&mut c.rng, 12).into_bytes();
                if c.rng.chance(1, 8) {
                    b.push(0xff);
                }
                hist += &format!("\nwrite {:?} {b:?}", p.file_name());
                std::fs::write(&p, &b).unwrap();
                model.insert(p.clone(), b);
            }
            let r = m.load_file(&p);
            hist += &format!("\nload_file {:?}", p.file_name());
            match (r, known.get(&p), model.get(&p)) {
                (Ok(f), Some((id, t)), _) => ensure!(f.id().to_u32() == *id && f.as_str() == t, hist, "another file {:#x} {:?} than before", f.id().to_u32(), f.as_str()),
                (Ok(f), None, Some(b)) => {
                    ensure!(f.as_bytes() == &b[..], hist, "content {:?}, expected {b:?}", f.as_str());
                    ensure!(f.uri().as_str() == p.to_str().unwrap() && m.find(&FileName::from(p.as_path())) == Some(f.id()), hist, "named {:?}", f.uri());
                    ensure!(known.values().all(|(id, _)| *id != f.id().to_u32()), hist, "id {} shared", f.id().to_u32());
                    known.insert(p, (f.id().to_u32(), f.as_str().to_string()));
                    c.count("files read");
                }
                (Ok(f), None, None) => fail!(hist, "a file that does not exist has content {:?}", f.as_str()),
                (Err(e), Some(_), _) => fail!(hist, "a loaded file is lost: {e}"),
                (Err(e), None, b) => ensure!(b.is_none_or(|b| std::str::from_utf8(b).is_err()), hist, "refused: {e}"),
            }
        }
        c.evaluated((known.len() > 1).then_some(hist.as_str()));
        Ok(())
    });
    ctx.finish("exploration", "random histories of load/update/clone/lookup against a map model with a full audit after every step, and concurrent loads from 2-8 threads whose returned ids are checked for conflicts afterwards; non-trivial: more than one file", &["the identity of a file name is its text"])
}
fn to_id(raw: u32) -> SourceId {
    let idx = raw & 0x00ff_ffff;
    let f = SourceId::file(idx);
    if f.to_u32() == raw {
        f
    } else {
        SourceId::argument(idx)
    }
}

// ---- K03 ------------------------------------------------------------------
/// Where the paths of a history live: nowhere (their kind is unknown) or in a real directory tree.
#[derive(Clone)]
enum World {
    Virtual { wide: bool, relative: bool },
    Real { dirs: Vec<PathBuf>, files: Vec<PathBuf>, links: Vec<(PathBuf, PathBuf)> },
    /// Paths (files end with ".f") come into being between operations; `seen` are those inserted as directories.
    Growing { root: PathBuf, seen: Vec<PathBuf> },
}
impl World {
    fn path(&self, r: &mut Rng) -> PathBuf {
        match self {
            World::Virtual { wide, relative } => {
                let comps: &[&str] = if *wide { &["a", "ab", "abc", "b", "a.b", "é", "foo", "foobar", "bar"] } else { &["a", "ab", "b"] };
                let n = r.range(if *relative { 2 } else { 1 }, if *wide { 6 } else { 4 });
                let mut p = PathBuf::new();
                p.push(if *relative { *r.pick(&["rel", "rel", ".."]) } else { "/" });
                for _ in 0..n {
                    p.push(r.pick(comps));
                }
                p
            }
            World::Real { dirs, files, .. } => {
                if r.chance(2, 3) { r.pick(dirs).clone() } else { r.pick(files).clone() }
            }
            World::Growing { root, .. } => {
                let mut p = root.clone();
                for _ in 0..r.range(1, 4) {
                    p.push(r.pick(&["a", "ab", "b"]));
                }
                if r.chance(1, 3) {
                    p.push(r.pick(&["a.f", "ab.f"]));
                }
                p
            }
        }
    }
    /// Another way to write the path
    fn spell(&self, r: &mut Rng, p: &Path) -> PathBuf {
        if r.chance(1, 2) {
            return p.to_path_buf();
        }
        let mut comps: Vec<std::ffi::OsString> = p.components().map(|c| c.as_os_str().to_owned()).collect();
        match self {
            World::Virtual { .. } => {
                for _ in 0..r.range(1, 4) {
                    let at = r.range(1, comps.len());
                    match r.below(5) {
                        0 => comps.insert(at, ".".into()),
                        // beside the root there is only the root
                        1 if comps[0] == "/" && r.chance(1, 2) => comps.insert(1, "..".into()),
                        2 if comps[0] != "/" && comps[0] != ".." => comps.insert(0, ".".into()),
                        3 => {
                            for d in ["..", "..", "r", "a"] {
                                comps.insert(at, d.into());
                            }
                        }
                        _ => {
                            comps.insert(at, "..".into());
                            comps.insert(at, "q".into());
                        }
                    }
                }
            }
            World::Real { links, .. } => {
                for (l, target) in links {
                    if let Ok(rest) = p.strip_prefix(target) {
                        return if rest.as_os_str().is_empty() { l.clone() } else { l.join(rest) };
                    }
                }
                let parent = p.parent().unwrap();
                if r.chance(1, 2) {
                    // by way of something that does not exist
                    return parent.join("none").join("x").join("..").join("..").join(p.file_name().unwrap());
                }
                return parent.join(".").join("..").join(parent.file_name().unwrap()).join(p.file_name().unwrap());
            }
            World::Growing { .. } => {
                let at = r.range(1, comps.len());
                comps.insert(at, ".".into());
            }
        }
        let mut out = String::new();
        for (i, c) in comps.iter().enumerate() {
            if i > 0 && comps[i - 1] != "/" {
                out.push('/');
            }
            out += c.to_str().unwrap();
        }
        if r.chance(1, 8) {
            out.push('/');
        }
        out.into()
    }
    /// Some(true): a directory; Some(false): certainly not; None: not known
    fn is_dir(&self, p: &Path, m: &BTreeMap<PathBuf, u64>) -> Option<bool> {
        if m.keys().any(|k| k != p && k.starts_with(p)) {
            return Some(true);
        }
        match self {
            // the root and the current directory are
            World::Virtual { .. } => p.is_dir().then_some(true),
            World::Real { dirs, .. } => Some(dirs.iter().any(|d| d == p)),
            World::Growing { seen, .. } => {
                if p.extension().is_some_and(|e| e == "f") {
                    Some(false)
                } else {
                    seen.iter().any(|d| d == p).then_some(true)
                }
            }
        }
    }
}
fn real_world(r: &mut Rng, root: &Path) -> World {
    let mut dirs = vec![root.to_path_buf()];
    let mut files = vec![];
    for i in 0..r.range(4, 12) {
        let p = r.pick(&dirs).join(["a", "ab", "b", "abc", "d.x"][r.below(5)]);
        if p.exists() {
            continue;
        }
        if i < 2 || r.chance(3, 5) {
            std::fs::create_dir(&p).unwrap();
            dirs.push(p);
        } else {
            std::fs::write(&p, "x").unwrap();
            files.push(p);
        }
    }
    if files.is_empty() {
        let p = root.join("zfile");
        std::fs::write(&p, "x").unwrap();
        files.push(p);
    }
    let mut links = vec![];
    if r.chance(1, 2) {
        let target = r.pick(&dirs[1..]).clone();
        let l = root.join("zlink");
        std::os::unix::fs::symlink(&target, &l).unwrap();
        links.push((l, target));
    }
    World::Real { dirs, files, links }
}
pub fn k03(ctx: &Arc<Ctx>) -> i32 {
    let body = |c: &mut Case, w: &mut World| -> Result<(), Fail> {
        let mut tree: PathPrefixTree<u64> = PathPrefixTree::new();
        let mut model: BTreeMap<PathBuf, u64> = BTreeMap::new();
        let mut snaps: Vec<(PathPrefixTree<u64>, BTreeMap<PathBuf, u64>, World)> = vec![];
        let mut hist = String::new();
        for step in 0..c.rng.range(1, 24) {
            if let World::Growing { root, .. } = &*w
                && c.rng.chance(1, 3)
            {
                let root = root.clone();
                let p = w.path(&mut c.rng);
                hist += &format!("\ncreate {:?}", p.strip_prefix(&root).unwrap());
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                if p.extension().is_some() {
                    std::fs::write(&p, "x").unwrap();
                } else {
                    std::fs::create_dir_all(&p).unwrap();
                }
            }
            match c.rng.below(20) {
                0 => {
                    hist += "\nclear";
                    tree.clear();
                    model.clear();
                    if let World::Growing { seen, .. } = w {
                        seen.clear();
                    }
                }
                1 => {
                    let mut other = tree.clone();
                    hist += "\nclone";
                    if c.rng.chance(1, 2) {
                        hist += ", and go on with it";
                        std::mem::swap(&mut other, &mut tree);
                    }
                    snaps.push((other, model.clone(), w.clone()));
                }
                2 => {
                    if let Some(p) = model.keys().nth(c.rng.below(model.len().max(1))).cloned() {
                        let q = w.spell(&mut c.rng, &p);
                        hist += &format!("\nget_mut {q:?}");
                        match tree.get_mut(&q) {
                            Some(v) => *v = 1000 + step as u64,
                            None => fail!(hist, "get_mut({p:?}) is None"),
                        }
                        model.insert(p, 1000 + step as u64);
                    }
                }
                _ => {
                    let mut p = w.path(&mut c.rng);
                    let v = c.rng.next() % 1000;
                    let mut q = w.spell(&mut c.rng, &p);
                    if let World::Virtual { relative, .. } = w
                        && c.rng.chance(1, 12)
                    {
                        if *relative {
                            p = std::env::current_dir().unwrap();
                            q = "none/..".into();
                        } else {
                            p = "/".into();
                            q = "/none/..".into();
                        }
                    }
                    hist += &format!("\ninsert {q:?} {v}");
                    let r = tree.try_insert(&q, v);
                    ensure!(r.is_ok(), hist, "insert({q:?}) failed: {r:?}");
                    if let World::Growing { seen, .. } = w
                        && p.is_dir()
                    {
                        seen.push(p.clone());
                    }
                    model.insert(p, v);
                }
            }
            if c.rng.chance(1, 3) || step == 0 {
                audit_tree(&tree, &model, &mut c.rng, &hist, w)?;
            }
        }
        audit_tree(&tree, &model, &mut c.rng, &hist, w)?;
        for (t, m, w) in &snaps {
            audit_tree(t, m, &mut c.rng, &format!("{hist}\n(clone taken earlier)"), w)?;
        }
        c.count_n("entries", model.len() as u64);
        c.evaluated((model.len() > 2).then_some(hist.as_str()));
        Ok(())
    };
    ctx.run("virtual", ctx.n(12000, 20), |c| {
        let mut w = World::Virtual { wide: c.rng.chance(1, 2), relative: c.rng.chance(1, 5) };
        body(c, &mut w)
    });
    ctx.run("real", ctx.n(1500, 10), |c| {
        let tmp = tempdir::TempDir::new("vh-k03").unwrap();
        let root = tmp.path().canonicalize().unwrap();
        let mut w = real_world(&mut c.rng, &root);
        body(c, &mut w)
    });
    ctx.run("growing", ctx.n(1500, 10), |c| {
        let tmp = tempdir::TempDir::new("vh-k03").unwrap();
        let root = tmp.path().canonicalize().unwrap();
        let mut w = World::Growing { root, seen: vec![] };
        body(c, &mut w)
    });
    ctx.finish("exploration", "random histories of insert/clear/clone/get_mut over small path alphabets (shared textual prefixes, absolute and relative, existing and not); get/contains/nearest_ancestor/iter/children are compared with a map for stored and unrelated paths; non-trivial: at least 3 entries", &["paths are normalised (no '.' or '..')", "a stored path without stored descendants that does not exist may or may not count as a directory"])
}
fn audit_tree(t: &PathPrefixTree<u64>, m: &BTreeMap<PathBuf, u64>, r: &mut Rng, hist: &str, w: &World) -> Result<(), Fail> {
    let d = || format!("{hist}\nmodel: {m:?}");
    for (p, v) in m {
        ensure!(t.get(p) == Some(v), d(), "get({p:?}) = {:?}, expected {v}", t.get(p));
        ensure!(t.contains(p), d(), "contains({p:?}) is false");
    }
    for (p, at) in [(PathBuf::from("none/.."), std::env::current_dir().unwrap()), (PathBuf::from("none/x/../../."), std::env::current_dir().unwrap()), (PathBuf::from("/none/.."), PathBuf::from("/"))] {
        ensure!(t.get(&p) == m.get(&at) && t.contains(&p) == m.contains_key(&at), d(), "get({p:?}) = {:?}, expected {:?}", t.get(&p), m.get(&at));
    }
    let mut probes: Vec<PathBuf> = (0..6).map(|_| w.path(r)).collect();
    for p in m.keys() {
        probes.push(p.clone());
        probes.push(p.join("x"));
        probes.push(p.join("a").join("b"));
        let mut s = p.clone().into_os_string();
        s.push("b");
        probes.push(s.into());
        if let Some(pp) = p.parent() {
            if pp.as_os_str().len() > 0 {
                probes.push(pp.to_path_buf());
            }
        }
    }
    for p in &probes {
        let q = &if m.contains_key(p) || matches!(w, World::Virtual { .. }) { w.spell(r, p) } else { p.clone() };
        ensure!(t.get(q) == m.get(p), d(), "get({q:?}) = {:?}, expected {:?}", t.get(q), m.get(p));
        ensure!(t.contains(q) == m.contains_key(p), d(), "contains({q:?})");
        // the longest stored directory properly above p; when it is not known to be a directory
        // the next one up is as good an answer
        let mut want = vec![];
        for a in p.ancestors().skip(1) {
            if let Some((k, v)) = m.get_key_value(a) {
                match w.is_dir(a, m) {
                    Some(true) => {
                        want.push(Some((k.clone(), *v)));
                        break;
                    }
                    Some(false) => {}
                    None => want.push(Some((k.clone(), *v))),
                }
            }
        }
        if !matches!(want.last(), Some(Some((k, _))) if w.is_dir(k, m) == Some(true)) {
            want.push(None);
        }
        let got = t.nearest_ancestor(q).map(|e| (e.as_ref() as &Path).to_path_buf()).zip(t.nearest_ancestor(q).map(|e| *e.into_value()));
        ensure!(want.contains(&got), d(), "nearest_ancestor({q:?}) = {got:?}, expected {want:?}");
    }
    let mut got: Vec<(PathBuf, u64)> = t.iter().map(|e| ((e.as_ref() as &Path).to_path_buf(), *e.into_value())).collect();
    got.sort();
    let want: Vec<(PathBuf, u64)> = m.iter().map(|(p, v)| (p.clone(), *v)).collect();
    ensure!(got == want, d(), "iter yields {got:?}");
    let got: Vec<PathBuf> = t.files().map(|e| e.into_path()).collect();
    for p in m.keys() {
        let n = got.iter().filter(|g| *g == p).count();
        match w.is_dir(p, m) {
            Some(true) => ensure!(n == 0, d(), "files() yields the directory {p:?}"),
            Some(false) => ensure!(n == 1, d(), "files() yields {p:?} {n} times"),
            None => ensure!(n <= 1, d(), "files() yields {p:?} {n} times"),
        }
    }
    ensure!(got.iter().all(|g| m.contains_key(g)), d(), "files() yields {got:?}");
    for _ in 0..3 {
        let base = if r.chance(2, 3) && !m.is_empty() {
            let k = m.keys().nth(r.below(m.len())).unwrap();
            let anc: Vec<&Path> = k.ancestors().filter(|a| !a.as_os_str().is_empty()).collect();
            r.pick(&anc).to_path_buf()
        } else {
            w.path(r)
        };
        let mut got: Vec<PathBuf> = t.children(&base, None).map(|e| e.into_path()).collect();
        got.sort();
        let want: Vec<PathBuf> = m.keys().filter(|p| p.starts_with(&base)).cloned().collect();
        ensure!(got == want, d(), "children({base:?}) = {got:?}, expected {want:?}");
    }
    Ok(())
}

// ---- K04 ------------------------------------------------------------------
pub fn k04_round(r: &mut Rng, nt: usize, per: usize, tag: u64) -> Result<(u64, u64), Fail> {
    use std::hash::{BuildHasher, RandomState};
    let shared: Vec<String> = (0..per)
        .map(|i| match r.below(4) {
            0 => format!("s{}", r.below(40)),
            1 => format!("sym-{tag}-{i}"),
            2 => format!("{}é{i}\0{tag}", "x".repeat(r.below(50))),
            _ => ["", "CHECK", "LINE", "CHECK-NEXT", " ", "\n"][r.below(6)].to_string(),
        })
        .collect();
    let bar = Barrier::new(nt);
    let seeds: Vec<u64> = (0..nt).map(|_| r.next()).collect();
    let out: Vec<Result<HashMap<String, (Symbol, &'static str)>, Fail>> = std::thread::scope(|s| {
        let hs: Vec<_> = seeds.iter().map(|seed| {
            let (shared, bar) = (&shared, &bar);
            s.spawn(move || {
                let mut r = Rng::new(*seed);
                let mut order: Vec<usize> = (0..shared.len()).collect();
                r.shuffle(&mut order);
                let mut m: HashMap<String, (Symbol, &'static str)> = HashMap::new();
                bar.wait();
                for i in order {
                    let t = &shared[i];
                    let sy = match r.below(4) {
                        3 => Symbol::from(&*Box::leak(t.clone().into_boxed_str())),
                        0 => Symbol::intern(t),
                        1 => Symbol::from(t.clone()),
                        _ => Symbol::from(t.clone().into_boxed_str()),
                    };
                    ensure!(sy.as_str() == t, "", "intern({t:?}) has text {:?}", sy.as_str());
                    ensure!(format!("{sy}") == *t, "", "Display of {t:?}");
                    if let Some((old, _)) = m.get(t) {
                        ensure!(*old == sy, "", "intern({t:?}) gave two symbols on one thread");
                    }
                    m.insert(t.clone(), (sy, sy.as_str()));
                    // texts handed out earlier stay valid while others intern
                    if r.chance(1, 4) {
                        for (k, (_, st)) in m.iter().take(8) {
                            ensure!(k == st, "", "text of {k:?} changed to {st:?}");
                        }
                    }
                }
                Ok(m)
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all: HashMap<String, Symbol> = HashMap::new();
    let mut inv: HashMap<u32, String> = HashMap::new();
    let mut n = 0;
    let rs = RandomState::new();
    for m in out {
        for (t, (sy, st)) in m? {
            n += 1;
            ensure!(st == t && sy.as_str() == t, "", "text of {t:?} is {st:?} after the run");
            let o = all.entry(t.clone()).or_insert(sy);
            ensure!(*o == sy && o.as_u32() == sy.as_u32(), "", "{t:?} interned as two symbols {} and {}", o.as_u32(), sy.as_u32());
            ensure!(rs.hash_one(*o) == rs.hash_one(sy), "", "hash of equal symbols differs");
            let k = inv.entry(sy.as_u32()).or_insert(t.clone());
            ensure!(*k == t, "", "symbol {} stands for {k:?} and {t:?}", sy.as_u32());
            ensure!(sy == t.as_str() && sy != format!("{t}!"), "", "symbol not equal to its text");
        }
    }
    let syms: Vec<(String, Symbol)> = all.into_iter().collect();
    // symbols borrow as their text, so maps and sets keyed by symbols are searched by text
    let set: std::collections::HashSet<Symbol> = syms.iter().map(|(_, s)| *s).collect();
    ensure!(set.len() == syms.len(), "", "a hash set of {} symbols holds {}", syms.len(), set.len());
    let tree: std::collections::BTreeSet<Symbol> = set.iter().copied().collect();
    for (t, s) in &syms {
        ensure!(set.get(t.as_str()) == Some(s) && rs.hash_one(s) == rs.hash_one(t.as_str()), "", "hash of symbol {t:?} is not that of its text");
        ensure!(tree.get(t.as_str()) == Some(s), "", "symbol {t:?} is not found by its text in an ordered set");
        let absent = format!("{t}?");
        ensure!(set.contains(absent.as_str()) == syms.iter().any(|(x, _)| *x == absent), "", "hash set holds {absent:?}");
    }
    ensure!(tree.iter().map(|s| s.as_str()).eq(syms.iter().map(|(t, _)| t.as_str()).collect::<std::collections::BTreeSet<_>>()), "", "symbols are not ordered like their texts");
    for _ in 0..60 {
        let (a, b) = (r.pick(&syms).clone(), r.pick(&syms).clone());
        ensure!((a.1 == b.1) == (a.0 == b.0), "", "{:?} == {:?} is {}", a.0, b.0, a.1 == b.1);
        let cmp = a.1.cmp(&b.1);
        ensure!((cmp == std::cmp::Ordering::Equal) == (a.0 == b.0), "", "cmp({:?}, {:?}) = {cmp:?}", a.0, b.0);
        ensure!(cmp == b.1.cmp(&a.1).reverse() && a.1.partial_cmp(&b.1) == Some(cmp), "", "cmp not antisymmetric");
    }
    Ok((n, syms.len() as u64))
}
pub fn k04(ctx: &Arc<Ctx>) -> i32 {
    ctx.run_on(1, "threads", ctx.n(600, 20), |c| {
        let nt = c.rng.range(1, 12);
        let per = c.rng.range(4, 120);
        let (n, d) = k04_round(&mut c.rng, nt, per, c.idx)?;
        c.count_n("intern calls observed", n);
        c.count_n("distinct texts", d);
        c.evaluated(Some(&format!("round {}: {nt} threads, {per} texts, {d} distinct", c.idx)));
        Ok(())
    });
    // more texts than any narrow index can tell apart
    ctx.run_on(1, "many", 1, |c| {
        let n = if ctx.tier == Tier::Thorough { 4_000_000 } else { 300_000 };
        let bar = Barrier::new(4);
        let syms: Vec<Vec<Symbol>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4).map(|t| { let bar = &bar; s.spawn(move || { bar.wait(); (0..n / 2).map(|i| Symbol::intern(format!("m{}", if t % 2 == 0 { i } else { n / 2 - 1 - i } + t / 2 * (n / 2)))).collect() }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (t, v) in syms.iter().enumerate() {
            for (i, s) in v.iter().enumerate() {
                let k = if t % 2 == 0 { i } else { n / 2 - 1 - i };
                ensure!(s.as_str() == format!("m{}", k + t / 2 * (n / 2)), "", "symbol {} is {:?}, expected m{}", s.as_u32(), s.as_str(), k + t / 2 * (n / 2));
                ensure!(*s == syms[t / 2 * 2][k], "", "m{k} interned twice");
            }
        }
        c.count_n("texts of one process", n as u64);
        c.evaluated(Some("many texts"));
        Ok(())
    });
    // keyword symbols keep their texts whatever was interned before
    ctx.run_on(1, "keywords", 1, |c| {
        for i in 0..200u32 {
            let t = format!("kw-probe-{i}");
            let s = Symbol::intern(&t);
            ensure!(!s.is_keyword() && s.as_str() == t, "", "fresh symbol {t} is a keyword");
        }
        let mut seen = HashMap::new();
        for i in 0..20u32 {
            let s = Symbol::new(i);
            if s.is_keyword() {
                if let Some(o) = seen.insert(s.as_str(), i) {
                    fail!("", "keywords {o} and {i} share the text {:?}", s.as_str());
                }
                ensure!(Symbol::from(s.as_str()) == s, "", "keyword text {:?} gives another symbol", s.as_str());
                ensure!(Symbol::intern(s.as_str()) == s, "", "interning keyword text {:?} gives another symbol", s.as_str());
                c.count("keywords");
            }
        }
        c.evaluated(Some("keyword table"));
        Ok(())
    });
    ctx.finish("exploration", "rounds of 1-12 threads interning overlapping sets of texts in random orders through every constructor; afterwards all symbols of all threads are compared pairwise with their texts (offline check of the recorded (text, symbol) log); non-trivial: every round", &[])
}

// ---- K07 ------------------------------------------------------------------
pub fn k07(ctx: &Arc<Ctx>) -> i32 {
    ctx.run("ranges", ctx.n(200000, 20), |c| {
        let r = &mut c.rng;
        let (a, b) = (r.below(8), r.below(8));
        let (a, b) = (a.min(b), a.max(b));
        let set: Vec<usize> = (a..b).collect();
        let rg = Range::new(a, b);
        let d = format!("range {a}..{b}");
        ensure!(rg.is_empty() == set.is_empty() && rg.len() == set.len(), d, "is_empty/len of {rg:?}");
        for x in 0..10usize {
            ensure!(rg.contains(&x) == set.contains(&x), d, "contains({x})");
        }
        ensure!(rg.into_range() == (a..b) && core::ops::Range::from(rg) == (a..b) && Range::from(a..b) == rg, d, "conversion");
        ensure!(format!("{rg}") == format!("{a}..{b}"), d, "display");
        let mut ops = d.clone();
        let mut cur = rg;
        let mut m = set.clone();
        for _ in 0..r.range(1, 8) {
            match r.below(4) {
                0 => {
                    let g = cur.pop_front();
                    ops += " pop_front";
                    let w = if m.is_empty() { None } else { Some(m.remove(0)) };
                    ensure!(g == w, ops, "pop_front = {g:?}, expected {w:?}");
                }
                1 => {
                    let g = cur.pop_back();
                    ops += " pop_back";
                    let w = m.pop();
                    ensure!(g == w, ops, "pop_back = {g:?}, expected {w:?}");
                }
                2 => {
                    let n = r.below(5);
                    ops += &format!(" shrink_front({n})");
                    cur.shrink_front(n);
                    m.drain(..n.min(m.len()));
                }
                _ => {
                    let n = r.below(m.len() + 1);
                    ops += &format!(" truncate({n})");
                    cur.truncate(n);
                    m.truncate(n);
                }
            }
            ensure!(cur.len() == m.len() && cur.is_empty() == m.is_empty(), ops, "range is {cur}, expected the positions {m:?}");
            ensure!(m.is_empty() || (cur.start == m[0] && cur.end == m[m.len() - 1] + 1), ops, "range is {cur}, expected {m:?}");
        }
        // comparisons: lexicographic on (start, end)
        let (x, y) = (r.below(8), r.below(8));
        let o = Range::new(x.min(y), x.max(y));
        ensure!(rg.cmp(&o) == (rg.start, rg.end).cmp(&(o.start, o.end)) && (rg == o) == ((rg.start, rg.end) == (o.start, o.end)), d, "cmp with {o}");
        // bounds resolution
        use std::ops::Bound::*;
        let gb = |r: &mut Rng| { let v = if r.chance(1, 20) { usize::MAX - r.below(2) } else { r.below(12) }; [Included(v), Excluded(v), Unbounded][r.below(3)] };
        let (lo, hi) = (gb(r), gb(r));
        let dd = format!("bounds ({lo:?}, {hi:?}) in {rg}");
        let s = match lo { Included(v) => Some(v), Excluded(v) => v.checked_add(1), Unbounded => Some(a) };
        let e = match hi { Included(v) => v.checked_add(1), Excluded(v) => Some(v), Unbounded => Some(b) };
        if let (Some(s), Some(e)) = (s, e) {
            let got = range_from_bounds((lo, hi), rg);
            let ok = s <= e && s >= a && e <= b;
            match got {
                Ok(g) => ensure!(ok && g.start == s && g.end == e, dd, "resolved to {g}, expected {}", if ok { format!("{s}..{e}") } else { "an error".into() }),
                Err(g) => ensure!(!ok && g == (s..e), dd, "refused with {g:?}, expected {}", if ok { "success" } else { "the requested bounds" }),
            }
            if s <= e {
                let g = range_from_bounds_with_defaults((lo, hi), a, b);
                ensure!(g.start == s && g.end == e, dd, "with defaults: {g}");
            }
        }
        c.evaluated((b > a).then_some(ops.as_str()));
        Ok(())
    });
    ctx.run("newlines", ctx.n(200000, 20), |c| {
        let long = c.rng.chance(1, 8);
        let n = if long { c.rng.below(700) } else { c.rng.below(24) };
        let sparse = long && c.rng.chance(1, 2);
        let buf: Vec<u8> = (0..n).map(|_| if sparse && !c.rng.chance(1, 60) { b'x' } else { *c.rng.pick(b"\n\n\r\rab\xc3\xa9\xe6\xf0\xf4\x80\xbf\x7f\0") }).collect();
        // terminators of the text: "\n" with an immediately preceding "\r" belonging to it
        let nls: Vec<(usize, usize)> = buf.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| (if i > 0 && buf[i - 1] == b'\r' { i - 1 } else { i }, i + 1)).collect();
        let d = format!("buffer {:?}", String::from_utf8_lossy(&buf));
        let first = Newline::next(&buf);
        match nls.first() {
            Some((s, e)) => ensure!(first.offset() == *s && first.next_line_start() == *e && first.is_crlf() == (e - s == 2), d, "next = {first:?}, expected {s}..{e}"),
            None => ensure!(first.offset() == buf.len() && first.next_line_start() == buf.len() && !first.is_crlf(), d, "next = {first:?} without newline"),
        }
        let last = Newline::prev(&buf);
        match nls.last() {
            Some((s, e)) => ensure!(last.offset() == *s && last.next_line_start() == *e && last.is_crlf() == (e - s == 2), d, "prev = {last:?}, expected {s}..{e}"),
            None => ensure!(last.offset() == 0 && !last.is_crlf(), d, "prev = {last:?} without newline"),
        }
        for off in 0..=buf.len() {
            // skip offsets between \r and \n: the terminator straddles the offset
            if off > 0 && off < buf.len() && buf[off] == b'\n' && buf[off - 1] == b'\r' {
                continue;
            }
            let g = Newline::next_from(&buf, off);
            match nls.iter().find(|(s, _)| *s >= off) {
                Some((s, e)) => ensure!(g.offset() == *s && g.next_line_start() == *e, d, "next_from({off}) = {g:?}, expected {s}..{e}"),
                None => ensure!(g.offset() == buf.len() && g.next_line_start() == buf.len(), d, "next_from({off}) = {g:?}, expected the end"),
            }
            let g = Newline::prev_from(&buf, off);
            match nls.iter().rev().find(|(_, e)| *e <= off) {
                Some((s, e)) => ensure!(g.offset() == *s && g.next_line_start() == *e && g.is_crlf() == (e - s == 2), d, "prev_from({off}) = {g:?}, expected {s}..{e}"),
                None => ensure!(g.offset() == 0, d, "prev_from({off}) = {g:?}, expected the start"),
            }
            let cb = off == buf.len() || (buf[off] & 0xC0) != 0x80;
            ensure!(text::is_char_boundary(&buf, off) == cb, d, "is_char_boundary({off})");
        }
        ensure!(!text::is_char_boundary(&buf, buf.len() + 1), d, "boundary past the end");
        let (a, b) = (c.rng.below(n + 1), c.rng.below(n + 1));
        let (a, b) = (a.min(b), a.max(b));
        let dd = format!("{d} range {a}..{b}");
        let w = (a..b).find(|i| buf[*i] == b'\n');
        let g = text::find_next_lf_or_eof(&buf, Range::new(a, b));
        ensure!(g == w, dd, "find_next_lf = {g:?}, expected {w:?}");
        let w = (a..b).rev().find(|i| buf[*i] == b'\n');
        let g = text::find_prev_lf_or_eof(&buf, Range::new(a, b));
        ensure!(g == w, dd, "find_prev_lf = {g:?}, expected {w:?}");
        // the first/last newline of the range, if it is a CRLF that lies in the range
        let crlf = |i: Option<usize>| i.filter(|i| *i > a && buf[*i - 1] == b'\r').map(|i| i - 1);
        let g = text::find_prev_crlf_or_eof(&buf, Range::new(a, b));
        ensure!(g == crlf(w), dd, "find_prev_crlf = {g:?}, expected {:?}", crlf(w));
        let w = (a..b).find(|i| buf[*i] == b'\n');
        let g = text::find_next_crlf_or_eof(&buf, Range::new(a, b));
        ensure!(g == crlf(w), dd, "find_next_crlf = {g:?}, expected {:?}", crlf(w));
        c.count_n("newlines", nls.len() as u64);
        c.evaluated((!nls.is_empty()).then_some(d.as_str()));
        Ok(())
    });
    ctx.finish("exploration", "random small ranges with operation sequences against the set of positions they denote, bounds of every kind, and random byte strings dense in CR, LF and multi-byte characters against a naive scan; non-trivial: a non-empty range or a text with a newline", &[])
}
