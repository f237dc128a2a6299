//! Monitoring infrastructure: case runner, panic capture, watchdog, statistics, evidence, replays.
use crate::rng::{hash_str, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
    pub detail: String,
}
impl Fail {
    pub fn new(msg: impl Into<String>, detail: impl Into<String>) -> Fail {
        Fail { msg: msg.into(), detail: detail.into() }
    }
}
#[macro_export]
macro_rules! fail {
    ($detail:expr, $($fmt:tt)+) => { return Err($crate::mon::Fail::new(format!($($fmt)+), $detail)) };
}
/// Checks a condition, otherwise fails the case with a message.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $detail:expr, $($fmt:tt)+) => { if !$c { $crate::fail!($detail, $($fmt)+) } };
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
}

pub struct Violation {
    pub replay: String,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    pub only: Option<(String, u64)>,
    pub budget: Duration,
    pub start: Instant,
    pub outdir: String,
    pub stats: Mutex<Stats>,
    pub violations: Mutex<Vec<Violation>>,
    stop: AtomicBool,
    slots: Vec<Mutex<Option<(Instant, String)>>>,
    pub case_deadline: Duration,
}

/// Records which cases are running, for the parent process (see `supervise`).
static INFLIGHT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
const REC: u64 = 96;
fn inflight(slot: usize, what: &str) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = INFLIGHT.get() {
        let _ = f.write_all_at(format!("{what:<95}\n").as_bytes(), slot as u64 * REC);
    }
}
/// Runs the monitors in a child process, so that an abort (stack overflow, memory corruption) is observed too.
pub fn supervise(prop: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("own path");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let file = std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id()));
    // the library writes its remarks to standard error: kept aside, and shown only when the run ends badly
    let errs = file.with_extension("stderr");
    let run = |args: &[String]| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("VH_CHILD", &file);
        if args.len() == 1
            && let Ok(f) = std::fs::File::create(&errs)
        {
            c.stderr(f);
        }
        let st = c.status().expect("a child process");
        if !matches!(st.code(), Some(0 | 1)) {
            let text = std::fs::read(&errs).unwrap_or_default();
            eprintln!("{}", String::from_utf8_lossy(&text[text.len().saturating_sub(4000)..]));
        }
        st
    };
    let st = run(&args);
    let text = std::fs::read_to_string(&file).unwrap_or_default();
    let code = match (st.code(), st.signal()) {
        (Some(c), _) => c,
        (None, sig) => {
            let outdir = std::env::var("VH_OUT").unwrap_or_else(|_| "/verif/evidence".into());
            let mut msg = format!("the process is ended by signal {}", sig.unwrap_or(0));
            let mut replay = format!("{outdir}/replays/{prop}-abort.txt");
            let cases: Vec<&str> = text.lines().map(|l| l.trim_matches(|c: char| c == '\0' || c.is_whitespace())).filter(|l| !l.is_empty()).collect();
            for c in &cases {
                let a: Vec<String> = vec![prop.into(), "--case".into(), c.to_string()];
                if run(&a).code().is_none() {
                    msg = format!("{msg}\nreproduce: VERIF_SEED={} ./check {prop} --case {c}", std::env::var("VERIF_SEED").unwrap_or("1".into()));
                    break;
                }
            }
            let _ = std::fs::create_dir_all(format!("{outdir}/replays"));
            if std::fs::write(&replay, format!("property: {prop}\n{msg}\ncases which were running: {cases:?}\n")).is_err() {
                replay = "-".into();
            }
            println!("VIOLATION property={prop} replay={replay}\n  {msg}");
            1
        }
    };
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&errs);
    code
}
pub fn child_of(file: &std::ffi::OsStr) {
    if let Ok(f) = std::fs::File::create(file) {
        let _ = INFLIGHT.set(f);
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub ctx: &'a Ctx,
    slot: usize,
    local: Stats,
    replaying: bool,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let msg = format!("panic at {loc}: {msg}");
        if std::env::var_os("VH_PANICS").is_some() {
            eprintln!("{msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg));
    }));
}
/// Runs `f`, returning the panic message if it panics.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

impl Case<'_> {
    pub fn count(&mut self, key: &str) {
        self.count_n(key, 1)
    }
    pub fn count_n(&mut self, key: &str, n: u64) {
        if let Some(v) = self.local.counters.get_mut(key) {
            *v += n;
        } else {
            self.local.counters.insert(key.to_string(), n);
        }
    }
    /// One execution observed; `fingerprint` is given when the case was non-trivial.
    pub fn evaluated(&mut self, fingerprint: Option<&str>) {
        self.local.evaluations += 1;
        if let Some(f) = fingerprint {
            let new = self.local.nontrivial.insert(hash_str(f));
            if new && self.local.samples.len() < 2 {
                self.local.samples.push(f.chars().take(1500).collect());
            }
        }
    }
    /// Describe the current execution for the watchdog (a hang is reported with it).
    pub fn describe(&self, d: impl FnOnce() -> String) {
        if self.replaying {
            let d = d();
            eprintln!("{d}");
            *self.ctx.slots[self.slot].lock().unwrap() = Some((Instant::now(), d));
            return;
        }
        *self.ctx.slots[self.slot].lock().unwrap() = Some((Instant::now(), d()));
    }
    pub fn is_replay(&self) -> bool {
        self.replaying
    }
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, only: Option<(String, u64)>) -> Arc<Ctx> {
        let threads = std::env::var("VH_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
        let budget = match tier {
            Tier::Quick => Duration::from_secs(150),
            Tier::Thorough => Duration::from_secs(600),
        };
        let budget = std::env::var("VH_BUDGET").ok().and_then(|s| s.parse().ok()).map(Duration::from_secs).unwrap_or(budget);
        Arc::new(Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            threads,
            only,
            budget,
            start: Instant::now(),
            outdir: std::env::var("VH_OUT").unwrap_or_else(|_| "/verif/evidence".into()),
            stats: Default::default(),
            violations: Default::default(),
            stop: AtomicBool::new(false),
            slots: (0..threads.max(1) + 1).map(|_| Mutex::new(None)).collect(),
            case_deadline: Duration::from_secs(20),
        })
    }
    /// quick count, or the thorough one (a factor more)
    pub fn n(&self, quick: u64, factor: u64) -> u64 {
        // under a sanitizer: a few cases of each stream
        if let Some(n) = std::env::var("VH_SAN_N").ok().and_then(|s| s.parse().ok()) {
            return quick.min(n);
        }
        if self.tier == Tier::Quick { quick } else { quick * factor }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    /// Runs the probe of a recorded defect. It is a violation only if the known-findings file does not list it.
    pub fn probe(self: &Arc<Self>, key: &str, f: impl FnOnce() -> Result<(), Fail> + Send) {
        if std::env::var_os("VH_SAN_N").is_some() {
            return;
        }
        if self.only.as_ref().is_some_and(|(s, _)| s != key) {
            return;
        }
        let r = match guarded(f) {
            Ok(r) => r,
            Err(p) => Err(Fail::new(p, String::new())),
        };
        self.stats.lock().unwrap().evaluations += 1;
        if let Err(f) = r {
            match known_finding(&self.prop, key) {
                Some(d) => self.add_known(&format!("{key}: {d}")),
                None => self.violation(key, 0, &f),
            }
        }
    }
    pub fn add_known(&self, key: &str) {
        *self.stats.lock().unwrap().known.entry(key.to_string()).or_default() += 1;
    }
    pub fn count(&self, key: &str, n: u64) {
        *self.stats.lock().unwrap().counters.entry(key.to_string()).or_default() += n;
    }

    pub fn watchdog(self: &Arc<Self>) {
        if std::env::var_os("VH_SAN_N").is_some() {
            return; // sanitizers are slow; whoever runs them limits the time
        }
        let ctx = Arc::clone(self);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for s in &ctx.slots {
                let g = s.lock().unwrap();
                if let Some((t, d)) = g.as_ref() {
                    if t.elapsed() > ctx.case_deadline {
                        let d = d.clone();
                        drop(g);
                        ctx.violation("hang", 0, &Fail::new(format!("no result within {:?}", ctx.case_deadline), d));
                        let code = ctx.finish("exploration", "aborted by the watchdog", &[]);
                        std::process::exit(code);
                    }
                }
            }
        });
    }

    pub fn violation(&self, stream: &str, idx: u64, f: &Fail) {
        let mut v = self.violations.lock().unwrap();
        if v.len() >= 5 {
            return;
        }
        let dir = format!("{}/replays", self.outdir);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}.txt", self.prop, v.len());
        let body = format!(
            "property: {}\nseed: {}\nstream: {stream}\ncase: {idx}\nreproduce: VERIF_SEED={} ./check {} --case {stream}:{idx}\n\n{}\n\n{}\n",
            self.prop, self.seed, self.seed, self.prop, f.msg, f.detail
        );
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={}", self.prop, path);
        println!("  {}", f.msg.replace('\n', "\n  "));
        if !f.detail.is_empty() && v.len() < 2 {
            println!("  {}", f.detail.chars().take(3000).collect::<String>().replace('\n', "\n  "));
        }
        v.push(Violation { replay: path, msg: f.msg.clone() });
        if v.len() >= 5 {
            self.stop.store(true, Ordering::Relaxed);
        }
    }

    /// Run `n` generated cases of stream `stream` on all threads.
    pub fn run<F>(self: &Arc<Self>, stream: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) -> Result<(), Fail> + Sync,
    {
        self.run_on(self.threads, stream, n, f)
    }
    pub fn run_on<F>(self: &Arc<Self>, threads: usize, stream: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) -> Result<(), Fail> + Sync,
    {
        if let Some((s, _)) = &self.only {
            if s != stream {
                return;
            }
        }
        if std::env::var("VH_SAN_ONLY").is_ok_and(|l| !l.split(',').any(|s| s == stream)) {
            return;
        }
        let next = AtomicU64::new(0);
        let base = mix(mix(self.seed, hash_str(&self.prop)), hash_str(stream));
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for slot in 0..threads.min(n.max(1) as usize).min(self.slots.len()) {
                let (next, f) = (&next, &f);
                let ctx = self;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local = Stats::default();
                        loop {
                            let mut i = next.fetch_add(1, Ordering::Relaxed);
                            if let Some((_, only)) = &ctx.only {
                                if i > 0 {
                                    break;
                                }
                                i = *only;
                            } else if i >= n || ctx.stopped() {
                                break;
                            }
                            if ctx.start.elapsed() > ctx.budget {
                                break;
                            }
                            let mut case = Case {
                                rng: Rng::new(mix(base, i)),
                                idx: i,
                                ctx,
                                slot,
                                local: std::mem::take(&mut local),
                                replaying: ctx.only.is_some(),
                            };
                            *ctx.slots[slot].lock().unwrap() = Some((Instant::now(), format!("{stream}:{i}")));
                            inflight(slot, &format!("{stream}:{i}"));
                            let r = guarded(|| f(&mut case));
                            *ctx.slots[slot].lock().unwrap() = None;
                            inflight(slot, "");
                            local = case.local;
                            match r {
                                Ok(Ok(())) => {}
                                Ok(Err(fl)) => ctx.violation(stream, i, &fl),
                                Err(p) => ctx.violation(stream, i, &Fail::new(p, String::new())),
                            }
                        }
                        let mut g = ctx.stats.lock().unwrap();
                        g.evaluations += local.evaluations;
                        g.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.counters {
                            *g.counters.entry(k).or_default() += v;
                        }
                        if g.samples.len() < 6 {
                            g.samples.extend(local.samples);
                            g.samples.truncate(6);
                        }
                    })
                    .unwrap();
            }
        });
        if std::env::var_os("VH_TIMES").is_some() {
            eprintln!("  {stream}: {n} cases in {:.2}s", t0.elapsed().as_secs_f64());
        }
    }

    /// Writes the evidence file; returns the exit code.
    pub fn finish(&self, level: &str, rule: &str, assumptions: &[&str]) -> i32 {
        let g = self.stats.lock().unwrap();
        let v = self.violations.lock().unwrap();
        for (k, n) in &g.known {
            println!("KNOWN-FINDING: property={} {k} ({n} probes)", self.prop);
        }
        let mut s = String::new();
        s += &format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n",
            js(&self.prop),
            if self.tier == Tier::Quick { "quick" } else { "thorough" },
            self.seed,
            js(level)
        );
        s += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", g.evaluations, g.nontrivial.len());
        s += &format!("  \"rule\": {},\n", js(rule));
        s += &format!("  \"observed\": {{{}}},\n", g.counters.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
        s += &format!("  \"known_findings_seen\": {{{}}},\n", g.known.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
        s += &format!("  \"samples\": [{}]\n }},\n", g.samples.iter().map(|x| js(x)).collect::<Vec<_>>().join(",\n   "));
        s += &format!(" \"assumptions\": [{}],\n", assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
        s += &format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", self.start.elapsed().as_secs_f64(), v.len());
        if self.only.is_none() {
            let _ = std::fs::create_dir_all(&self.outdir);
            let _ = std::fs::write(format!("{}/{}.json", self.outdir, self.prop), s);
        }
        println!(
            "{} {}: {} executions, {} distinct non-trivial, {} violations, {:.1}s",
            self.prop,
            if self.tier == Tier::Quick { "quick" } else { "thorough" },
            g.evaluations,
            g.nontrivial.len(),
            v.len(),
            self.start.elapsed().as_secs_f64()
        );
        if v.is_empty() && (g.evaluations == 0 && self.only.is_none()) {
            println!("nothing was observed");
            return 2;
        }
        if v.is_empty() { 0 } else { 1 }
    }
}

/// The description of a recorded defect, from the committed file.
pub fn known_finding(prop: &str, key: &str) -> Option<String> {
    let home = std::env::var("VH_HOME").unwrap_or_else(|_| "/verif".into());
    let text = std::fs::read_to_string(format!("{home}/known_findings.txt")).ok()?;
    let head = format!("finding: property={prop} key={key} ");
    text.lines().find_map(|l| l.strip_prefix(&head).map(|d| d.trim().to_string()))
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
