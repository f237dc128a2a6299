//! Check files and inputs of unusual size: long lines, many lines, many checks, far distances, large numbers. What must
//! happen is known by construction, so that no reference model has to search them.
use crate::fc_checks::{Real, cli_var, verify};
use crate::model::Val;
use crate::mon::*;
use crate::rng::Rng;
use crate::{ensure, fail};
use litcheck::Symbol;
use litcheck_filecheck::Config;

/// Nothing which is searched for contains this character
const FILL: &str = "~";

#[derive(Default)]
struct Big {
    checks: Vec<String>,
    /// finished lines of the input, and the one which is being written
    lines: Vec<String>,
    cur: String,
    /// (line of the check, text it matches), if everything is found
    want: Vec<(usize, String)>,
    broken: Option<String>,
    size: usize,
}

fn token(i: usize, len: usize) -> String {
    format!("t{i:05}{}q", "abcdefghij".chars().cycle().skip(i % 10).take(len).collect::<String>())
}

impl Big {
    fn fill(&mut self, rng: &mut Rng) -> String {
        let n = if self.size > 300_000 { rng.below(4) } else { *rng.pick(&[0, 0, 1, 7, 60, 254, 255, 256, 257, 1000, 4090, 4096, 4100, 9000, 33_000, 66_000]) };
        self.size += n;
        FILL.repeat(n)
    }
    fn newline(&mut self) {
        self.lines.push(std::mem::take(&mut self.cur));
    }
    /// Lines with nothing of interest
    fn gap(&mut self, rng: &mut Rng) {
        let n = if self.size > 300_000 { rng.below(3) } else { *rng.pick(&[0, 1, 3, 30, 255, 256, 257, 1000, 4100, 9000]) };
        for _ in 0..n {
            let l = FILL.repeat(rng.below(9));
            self.size += l.len() + 1;
            self.lines.push(l);
        }
    }
    fn check(&mut self, c: String) -> usize {
        self.checks.push(c);
        self.checks.len()
    }
    /// Blank lines in the check file
    fn skip(&mut self, rng: &mut Rng) {
        for _ in 0..*rng.pick(&[0, 0, 0, 1, 40, 255, 256, 700]) {
            self.checks.push(rng.pick(&["", "", "// a comment", "  x"]).to_string());
        }
    }
    /// A check which finds `text` somewhere after what was found so far
    fn far(&mut self, rng: &mut Rng, pattern: &str, text: &str) {
        let l = self.check(format!("CHECK: {pattern}"));
        self.want.push((l, text.to_string()));
        if rng.chance(2, 3) {
            self.newline();
            self.gap(rng);
        }
        let f = self.fill(rng);
        self.cur += &f;
        self.cur += text;
        let f = self.fill(rng);
        self.cur += &f;
    }
    fn text(&self) -> (String, String) {
        let mut input = self.lines.join("\n");
        if !self.lines.is_empty() {
            input.push('\n');
        }
        input.push_str(&self.cur);
        input.push('\n');
        (self.checks.join("\n") + "\n", input)
    }
}

fn wrong(rng: &mut Rng, t: &str) -> String {
    let mut b: Vec<char> = t.chars().collect();
    let any = rng.below(b.len());
    let i = *rng.pick(&[b.len() - 1, b.len() - 1, any, 1]);
    b[i] = '!';
    b.into_iter().collect()
}

pub fn many(rng: &mut Rng) -> usize {
    *rng.pick(&[2, 3, 5, 8, 9, 15, 16, 17, 18, 25, 31, 32, 33, 34, 40, 63, 64, 65, 66, 70])
}

pub fn scale(case: &mut Case) -> Result<(), Fail> {
    let prop = case.ctx.prop.clone();
    let mut rng = case.rng.clone();
    let rng = &mut rng;
    let mut c = Config::default();
    let mut b = Big::default();
    let spoil = rng.chance(1, 3);
    let flip = |rng: &mut Rng, s: &str| -> String { s.chars().map(|c| if rng.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect() };
    match prop.as_str() {
        "C01" => {
            let n = *rng.pick(&[2, 5, 20, 60, 200, 300]);
            let bad = if spoil { rng.below(n) } else { n };
            let mut empty = false;
            b.skip(rng);
            for i in 0..n {
                let len = *rng.pick(&[0, 0, 5, 40, 300]);
                let t = token(i, if n > 60 { 0 } else { len });
                let kind = if i == 0 { 0 } else { rng.below(4) };
                match kind {
                    1 => {
                        let l = b.check(format!("CHECK-NEXT: {t}"));
                        b.want.push((l, t.clone()));
                        b.newline();
                        if i == bad {
                            let f = b.fill(rng);
                            b.lines.push(f);
                            b.broken = Some(format!("a line is between {t} and the one before"));
                        }
                        b.cur = b.fill(rng) + &t;
                        let f = b.fill(rng);
                        b.cur += &f;
                        empty = false;
                    }
                    2 if !empty => {
                        let l = b.check(format!("CHECK-SAME: {t}"));
                        b.want.push((l, t.clone()));
                        let f = b.fill(rng);
                        b.cur += &f;
                        if i == bad {
                            b.newline();
                            b.broken = Some(format!("{t} is on the next line"));
                        }
                        let f = b.fill(rng);
                        b.cur += &t;
                        b.cur += &f;
                    }
                    3 => {
                        let l = b.check("CHECK-EMPTY:".into());
                        b.want.push((l, String::new()));
                        b.newline();
                        if i == bad {
                            b.cur = FILL.into();
                            b.newline();
                            b.broken = Some("no empty line".into());
                        }
                        empty = true;
                    }
                    _ => {
                        let w = if i == bad { wrong(rng, &t) } else { t.clone() };
                        b.newline();
                        b.gap(rng);
                        b.far(rng, &t, &w);
                        empty = false;
                        if i == bad {
                            b.broken = Some(format!("{t} is missing"));
                        }
                    }
                }
                b.skip(rng);
            }
        }
        "C02" => {
            let n = many(rng);
            let implicit = rng.chance(1, 4);
            let bad = rng.below(n);
            let t = token(bad, 0);
            // before, between, after, nowhere
            let place = rng.below(4);
            let last = rng.chance(1, 3) && !implicit;
            if implicit {
                c.options.implicit_check_not = (0..n).map(|i| Symbol::intern(token(i, 0))).collect();
            }
            let put = |b: &mut Big, rng: &mut Rng| {
                b.newline();
                b.gap(rng);
                let f = b.fill(rng);
                b.cur = f + &t + FILL;
            };
            if place == 0 {
                put(&mut b, rng);
            }
            b.far(rng, "begin", "begin");
            if !implicit {
                for i in 0..n {
                    b.check(format!("CHECK-NOT: {}", if i % 5 == 4 { format!("{{{{{}}}}}", token(i, 0)) } else { token(i, 0) }));
                    if n < 20 {
                        b.skip(rng);
                    }
                }
            }
            if place == 1 {
                put(&mut b, rng);
            }
            if !last {
                b.far(rng, "end", "end");
            }
            if place == 2 {
                put(&mut b, rng);
            }
            if place == 1 || place != 3 && implicit || place == 2 && last {
                b.broken = Some(format!("{t} is found"));
            }
            if implicit && rng.chance(1, 2) {
                b.far(rng, "more", "more");
            }
        }
        "C03" => {
            let n = many(rng).min(40);
            let bad = if spoil { rng.below(n) } else { n };
            b.far(rng, "begin", "begin");
            let mut order: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                order.swap(i, rng.below(i + 1));
            }
            for i in 0..n {
                let l = b.check(format!("CHECK-DAG: {}", token(i, 0)));
                b.want.push((l, token(i, 0)));
                if n < 10 {
                    b.skip(rng);
                }
            }
            for i in order {
                if rng.chance(1, 3) {
                    b.newline();
                    b.gap(rng);
                }
                let t = if i == bad { wrong(rng, &token(i, 0)) } else { token(i, 0) };
                let f = b.fill(rng);
                b.cur = std::mem::take(&mut b.cur) + &f + &t + FILL;
            }
            if bad < n {
                b.broken = Some(format!("{} is missing", token(bad, 0)));
            }
            // what follows a group
            match rng.below(4) {
                0 => b.far(rng, "end", "end"),
                1 => {
                    let k = rng.range(2, 40);
                    let l = b.check(format!("CHECK-COUNT-{k}: end"));
                    let m = if rng.chance(1, 3) { rng.below(k) } else { k };
                    for i in 0..m {
                        b.want.push((l, "end".into()));
                        b.cur += "end ";
                        if i % 3 == 2 {
                            b.newline();
                        }
                    }
                    if m < k {
                        b.broken = Some(format!("{m} of {k}"));
                    }
                }
                2 => {
                    b.check("CHECK-NOT: never".into());
                    b.far(rng, "end", "end");
                }
                _ => {}
            }
        }
        "C04" => {
            let n = many(rng);
            let bad = if spoil { rng.below(n - 1) } else { n };
            let mut carried: Option<String> = None;
            for i in 0..n {
                b.newline();
                b.gap(rng);
                let lab = format!("label{i:04}:");
                let l = b.check(format!("CHECK-LABEL: {lab}"));
                b.want.push((l, lab.clone()));
                b.cur = b.fill(rng) + &lab;
                let late = carried.take();
                let f = b.fill(rng);
                b.cur += &f;
                // the line of the label belongs to no block
                b.newline();
                if let Some(t) = late {
                    b.cur += &t;
                    b.cur += FILL;
                }
                let t = token(i, 0);
                if i == bad {
                    let l = b.check(format!("CHECK: {t}"));
                    b.want.push((l, t.clone()));
                    b.broken = Some(format!("{t} is in the next block"));
                    carried = Some(t);
                } else if rng.chance(1, 2) {
                    b.far(rng, &t, &t);
                }
                b.skip(rng);
            }
        }
        "C05" => {
            let k: usize = *rng.pick(&[1, 2, 9, 10, 100, 127, 128, 200, 255, 256, 257, 300, 511, 513, 1000]);
            let m = *rng.pick(&[k, k, k, k + 1, k - 1, k - 1, k.saturating_sub(256), k / 2, 2 * k]);
            b.skip(rng);
            if rng.chance(1, 2) {
                b.far(rng, "begin", "begin");
            }
            if rng.chance(1, 3) {
                let l = b.check("CHECK-DAG: group".into());
                b.want.push((l, "group".into()));
                b.cur += "group ";
            }
            let l = b.check(format!("CHECK-COUNT-{k}: again"));
            let mut long = 0;
            for i in 0..m {
                if i < k {
                    b.want.push((l, "again".into()));
                }
                b.cur += "again";
                match rng.below(6) {
                    0 => b.newline(),
                    1 if long < 8 => {
                        long += 1;
                        let f = b.fill(rng);
                        b.cur += &f;
                    }
                    2 if long < 8 => {
                        long += 1;
                        b.newline();
                        b.gap(rng);
                    }
                    _ => {}
                }
            }
            if m < k {
                b.broken = Some(format!("{m} of {k}"));
            }
            match rng.below(3) {
                0 => {
                    b.check("CHECK-NOT: again".into());
                    b.newline();
                    b.far(rng, "end", "end");
                    if m > k {
                        b.broken = Some("one more".into());
                    }
                }
                1 => b.far(rng, "end", "end"),
                _ => {}
            }
        }
        "C06" => {
            let n = many(rng);
            let cli = rng.chance(1, 3);
            let mut names = vec![];
            let mut per = 0;
            let mut vals = vec![];
            for i in 0..n {
                let name = match rng.below(3) {
                    0 => format!("V{i}"),
                    1 => format!("v{i:0w$}", w = rng.range(1, 200)),
                    _ => format!("{}_{i}", "ab_C".repeat(rng.range(1, 30))),
                };
                let v = token(i, *rng.pick(&[0, 0, 9, 60, 250]));
                if cli {
                    c.options.variables.push(cli_var(&name, &Val::Str(v.clone())).parse().expect("a variable"));
                } else {
                    let def = format!("d{i}=[[{name}:[a-z0-9]+]];");
                    let text = format!("d{i}={v};");
                    if per > 0 && rng.chance(2, 3) && per < 30 {
                        per += 1;
                        let k = b.checks.len() - 1;
                        b.checks[k] += &def;
                        b.want.last_mut().unwrap().1 += &text;
                        let at = b.cur.trim_end_matches('~').len();
                        b.cur.insert_str(at, &text);
                    } else {
                        per = 1;
                        b.far(rng, &def, &text);
                    }
                }
                names.push(name);
                vals.push(v);
            }
            let m = rng.range(1, 12);
            let bad = if spoil { rng.below(m) } else { m };
            for k in 0..m {
                let i = if rng.chance(1, 4) { n - 1 } else { rng.below(n) };
                let j = if k == bad { (i + rng.range(1, n - 1)) % n } else { i };
                b.newline();
                b.far(rng, &format!("u{k}=[[{}]];", names[i]), &format!("u{k}={};", vals[j]));
                if k == bad {
                    b.broken = Some(format!("use {k} has the value of another variable"));
                }
            }
        }
        "C07" => {
            let value = |rng: &mut Rng| -> i64 {
                let x = *rng.pick(&[0i64, 7, 99, 127, 128, 255, 256, 32_767, 32_768, 65_535, 65_536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 53, (1 << 53) + 1, 1 << 62, i64::MAX - 70_000]);
                x + rng.below(100) as i64
            };
            let n = rng.range(1, 30);
            let mut vals = vec![];
            for i in 0..n {
                let v = value(rng);
                let (fmt, text) = match rng.below(4) {
                    0 => ("%x,", format!("{v:x}")),
                    1 => ("%X,", format!("{v:X}")),
                    _ => ("", format!("{v}")),
                };
                b.newline();
                let zeros = "0".repeat(if rng.chance(1, 4) { rng.below(33 - text.len().min(32)) } else { 0 });
                b.far(rng, &format!("n{i}=[[#{fmt}N{i}:]];"), &format!("n{i}={zeros}{text};"));
                vals.push((v, fmt));
            }
            let m = rng.range(1, 8);
            let bad = if spoil { rng.below(m) } else { m };
            for k in 0..m {
                b.skip(rng);
                let off = |rng: &mut Rng, x: i64| if k == bad { x.wrapping_sub(*rng.pick(&[1, 256, 65_536, 1 << 32])) } else { x };
                if rng.chance(1, 2) {
                    // lines far below
                    for _ in 0..*rng.pick(&[0, 0, 250, 600, 5000, 66_000]) {
                        b.checks.push(String::new());
                    }
                    let line = b.checks.len() as i64 + 1;
                    let d = *rng.pick(&[0, 1, 255, 300, 70_000]);
                    let x = off(rng, line + d);
                    b.newline();
                    b.far(rng, &format!("u{k}=[[#@LINE{}]];", if d > 0 { format!("+{d}") } else { String::new() }), &format!("u{k}={x};"));
                } else {
                    let i = rng.below(n);
                    let (v, fmt) = vals[i];
                    let d = *rng.pick(&[0, 1, 255, 65_536]);
                    let x = off(rng, v + d);
                    if x < 0 {
                        continue;
                    }
                    let text = match fmt {
                        "%x," => format!("{x:x}"),
                        "%X," => format!("{x:X}"),
                        _ => format!("{x}"),
                    };
                    b.newline();
                    b.far(rng, &format!("u{k}=[[#N{i}{}]];", if d > 0 { format!("+{d}") } else { String::new() }), &format!("u{k}={text};"));
                }
                if k == bad {
                    b.broken = Some(format!("use {k} has another value"));
                }
            }
        }
        "C08" => {
            let n = rng.range(1, 40);
            let bad = if spoil { rng.below(n) } else { n };
            let (ignore, strict) = (rng.chance(1, 2), rng.chance(1, 2));
            c.options.ignore_case = ignore;
            c.options.strict_whitespace = strict;
            for i in 0..n {
                let t = token(i, *rng.pick(&[0, 5, 80, 300]));
                let mut found = if ignore { flip(rng, &t) } else { t.clone() };
                let mut why = "another text";
                // blanks match each other, one for one
                let n = *rng.pick(&[1, 2, 3, 60, 255, 256, 257, 900]);
                let blanks = |rng: &mut Rng, n: usize| (0..n).map(|_| *rng.pick(&[' ', '\t'])).collect::<String>();
                let run = blanks(rng, n);
                let mut blank = if strict { run.clone() } else { blanks(rng, n) };
                if i == bad {
                    if rng.chance(1, 2) {
                        let k = blank.len() - 1;
                        if strict && rng.chance(1, 2) {
                            let last = if blank.ends_with(' ') { '\t' } else { ' ' };
                            blank.truncate(k);
                            blank.push(last);
                        } else if k > 0 && rng.chance(1, 2) {
                            blank.truncate(k);
                        } else {
                            blank.push(' ');
                        }
                        why = "other blanks";
                    } else if !ignore && rng.chance(1, 2) {
                        found = found.replace('q', "Q");
                        why = "another case";
                    } else {
                        found = wrong(rng, &found);
                    }
                    b.broken = Some(format!("{why} for {t}"));
                }
                b.newline();
                b.far(rng, &format!("w{run}{t}"), &format!("w{blank}{found}"));
            }
        }
        "C09" => {
            let n = many(rng);
            let m = many(rng);
            let m = rng.below(m);
            let name = |rng: &mut Rng, k: &str, i: usize| match rng.below(4) {
                0 => format!("{k}{i}"),
                1 => format!("{k}-{i}_x"),
                2 => format!("{k}{i}{}", "-long_Prefix".repeat(rng.range(1, 30))),
                _ => format!("{k}{i:0w$}", w = rng.range(1, 30)),
            };
            let ps: Vec<String> = (0..n).map(|i| name(rng, "P", i)).collect();
            let cs: Vec<String> = (0..m).map(|i| name(rng, "C", i)).collect();
            c.options.check_prefixes = ps.iter().map(Symbol::intern).collect();
            c.options.comment_prefixes = cs.iter().map(Symbol::intern).collect();
            let used = rng.chance(2, 3);
            c.options.allow_unused_prefixes = !used || rng.chance(1, 2);
            let k = rng.range(1, 12);
            let mut which: Vec<usize> = if used { (0..n).collect() } else { vec![] };
            which.extend((0..k).map(|_| if rng.chance(1, 3) { n - 1 } else { rng.below(n) }));
            let bad = if spoil { rng.below(which.len()) } else { which.len() };
            for (i, &p) in which.iter().enumerate() {
                let t = token(i, 0);
                b.newline();
                if m > 0 && rng.chance(1, 3) {
                    b.check(format!("{}: {}: absent", rng.pick(&cs), ps[p]));
                }
                if rng.chance(1, 3) {
                    b.check(format!("Z{}: absent", ps[p]));
                }
                let w = if i == bad { wrong(rng, &t) } else { t.clone() };
                b.far(rng, &t, &w);
                let last = b.checks.len() - 1;
                b.checks[last] = format!("{}: {t}", ps[p]);
                if i == bad {
                    b.broken = Some(format!("{t} is missing"));
                }
            }
        }
        _ => {
            let n = rng.range(1, 30);
            let bad = if spoil { rng.below(n) } else { n };
            for i in 0..n {
                let (mut pattern, mut text) = (String::new(), String::new());
                for k in 0..*rng.pick(&[1, 1, 2, 5, 20]) {
                    let t = token(i * 100 + k, *rng.pick(&[0, 3, 60, 230, 244, 250, 256, 400]));
                    match rng.below(5) {
                        0 => pattern += &format!("{{{{t{:05}[a-q]+}}}}", i * 100 + k),
                        1 => pattern += &format!("{{{{{t}}}}}"),
                        2 => pattern += &format!("{{{{(x|{t}|y)}}}}"),
                        3 => pattern += &format!("{{{{(.{{{}}})}}}}", t.len()),
                        _ => pattern += &t,
                    }
                    text += &t;
                }
                pattern += "$;";
                text += "$;";
                b.newline();
                if i == bad {
                    let mut t: Vec<char> = text.chars().collect();
                    let k = t.len();
                    t[k - if rng.chance(1, 2) { 1 } else { 2 }] = '!';
                    text = t.into_iter().collect();
                    b.broken = Some(format!("line {i} ends in another text"));
                }
                b.far(rng, &pattern, &text);
            }
        }
    }
    if rng.chance(1, 2) {
        b.newline();
        b.gap(rng);
    }
    let (checks, input) = b.text();
    let short = |s: &str| -> String {
        // runs of filler and of blank lines are described
        let mut o = String::new();
        let mut run = 0;
        for l in s.split_inclusive('\n') {
            if l.len() < 2 || l.trim_end().chars().all(|c| c == '~') && l.len() < 10 {
                run += 1;
                continue;
            }
            if run > 0 {
                o += &format!("<{run} lines>\n");
                run = 0;
            }
            let mut fill = 0;
            for ch in l.chars() {
                if ch == '~' {
                    fill += 1;
                    continue;
                }
                if fill > 0 {
                    o += &format!("<{fill} ~>");
                    fill = 0;
                }
                o.push(ch);
            }
        }
        if o.len() > 60_000 { o.chars().take(60_000).collect() } else { o }
    };
    let o = &c.options;
    let det = |x: String| {
        format!(
            "options: ignore_case {} strict {} not {:?} prefixes {:?} comments {:?} variables {:?}\n--- checks ({} lines)\n{}--- input ({} bytes)\n{}---\n{x}",
            o.ignore_case, o.strict_whitespace, o.implicit_check_not, o.check_prefixes, o.comment_prefixes, o.variables.len(), b.checks.len(), short(&checks), input.len(), short(&input)
        )
    };
    case.describe(|| det(String::new()));
    match (verify(&c, &checks, &input), &b.broken) {
        (Err(p), _) => fail!(det(String::new()), "{p}"),
        (Ok(Real::Pass(_)), Some(why)) => fail!(det(String::new()), "a large input is accepted although {why}"),
        (Ok(Real::Fail(e)), None) => fail!(det(e), "a large input which satisfies every check is rejected"),
        (Ok(Real::Fail(_)), Some(_)) => case.count("large: rejected"),
        (Ok(Real::Pass(ms)), None) => {
            let got: Vec<(usize, &str)> = ms.iter().map(|m| (m.line, input.get(m.start..m.end).unwrap_or("?"))).collect();
            let mut want: Vec<(usize, &str)> = b.want.iter().map(|(l, t)| (*l, t.as_str())).collect();
            want.sort_by_key(|w| w.0);
            ensure!(got == want, det(format!("expected {want:?}\nreported {got:?}").chars().take(20_000).collect()), "the reported matches are not those of the checks");
            case.count("large: accepted");
            case.count_n("large: matches located", got.len() as u64);
        }
    }
    case.count_n("large: bytes of input", input.len() as u64);
    case.evaluated(Some(&format!("{:?}{:?}{}", b.checks, b.broken, input.len())));
    Ok(())
}
