//! Exploration framework: case bookkeeping, violations, known findings, replay and evidence.
//!
//! A check enumerates a finite space.  Every element of the space is a *case* with a section name and a
//! deterministic key.  The body of a case drives the real code and compares it with a reference model.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

/// Failure of a case.  `known` names a characterised deviation: it is only honoured if the committed
/// known-findings file lists exactly that key for the property.
#[derive(Debug)]
pub struct Fail { pub known: Option<String>, pub msg: String }
impl From<String> for Fail { fn from(m: String) -> Self { Fail { known: None, msg: m } } }
impl From<&str> for Fail { fn from(m: &str) -> Self { Fail { known: None, msg: m.to_string() } } }
pub type Res = Result<(), Fail>;
pub fn fail<T>(m: impl Into<String>) -> Result<T, Fail> { Err(Fail { known: None, msg: m.into() }) }
pub fn known<T>(k: impl Into<String>, m: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { known: Some(k.into()), msg: m.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::Fail { known: None, msg: format!($($a)*) }); } };
}

pub fn h<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
pub fn hf(xs: &[f64]) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    for x in xs { x.to_bits().hash(&mut s); }
    s.finish()
}
pub fn jesc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// |a-b| within abs + rel*max(|a|,|b|); NaN equals only NaN; infinities equal themselves.
pub fn close(a: f64, b: f64, abs: f64, rel: f64) -> bool {
    if a == b { return true; }
    if a.is_nan() || b.is_nan() { return a.is_nan() && b.is_nan(); }
    if a.is_infinite() || b.is_infinite() { return false; }
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

struct SecStat { cases: u64, trans: u64, states: HashSet<u64>, outcomes: HashSet<u64>, samples: Vec<String> }
impl SecStat { fn new() -> Self { SecStat { cases: 0, trans: 0, states: HashSet::new(), outcomes: HashSet::new(), samples: vec![] } } }

pub struct Ck {
    pub prop: String,
    pub tier: Tier,
    pub seed: i64,
    root: std::path::PathBuf,
    replay: Option<(String, String)>,
    start: Instant,
    known: Vec<(String, String)>,
    inner: Mutex<Inner>,
    pub assumptions: Mutex<Vec<String>>,
    watch: Vec<(AtomicU64, Mutex<&'static str>)>,
    next_w: AtomicUsize,
    done: AtomicBool,
    capped: AtomicBool,
}
struct Inner {
    secs: BTreeMap<&'static str, SecStat>,
    viol: Vec<(String, String, String, String)>,
    nviol: u64,
    known_seen: BTreeMap<String, (u64, String)>,
    replay_ran: u64,
}

pub struct W<'a> { pub ck: &'a Ck, slot: usize, secs: BTreeMap<&'static str, SecStat>, cur: &'static str, known_n: BTreeMap<String, (u64, String)> }

const SLOTS: usize = 256;
/// A single case that runs longer than this is reported as non-terminating.
const HANG_S: u64 = 150;
/// A run with violations is cut off after this time.
const SETTLED_S: u64 = 240;
/// Explorations on the unchanged tree stay well below these.
const MEM_QUICK_MB: u64 = 8_000;
const MEM_THOROUGH_MB: u64 = 16_000;
fn resident_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) / 256
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

impl Ck {
    pub fn from_args() -> Ck {
        let a: Vec<String> = std::env::args().collect();
        let prop = a.get(1).cloned().unwrap_or_else(|| { eprintln!("usage: BIN PROP [--tier T] [--replay FILE]"); std::process::exit(2) });
        let mut tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => Tier::Thorough, _ => Tier::Quick };
        let mut replay = None;
        let mut i = 2;
        while i < a.len() {
            match a[i].as_str() {
                "--tier" => { tier = if a[i + 1] == "thorough" { Tier::Thorough } else { Tier::Quick }; i += 2; }
                "--replay" => {
                    let t = std::fs::read_to_string(&a[i + 1]).expect("replay file");
                    let l: Vec<&str> = t.lines().collect();
                    let get = |p: &str| l.iter().find_map(|x| x.strip_prefix(p)).map(|s| s.to_string()).unwrap_or_default();
                    replay = Some((get("section: "), get("case: ")));
                    if get("tier: ") == "thorough" { tier = Tier::Thorough; }
                    i += 2;
                }
                _ => { eprintln!("bad argument {}", a[i]); std::process::exit(2) }
            }
        }
        let root = std::path::PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let mut kf = vec![];
        for l in std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let mut it = r.splitn(3, ' ');
                let p = it.next().unwrap_or("").to_string();
                let k = it.next().unwrap_or("").strip_prefix("key=").unwrap_or("").to_string();
                if p == prop { kf.push((k, it.next().unwrap_or("").to_string())); }
            }
        }
        std::panic::set_hook(Box::new(|i| {
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked at {loc}: {m}"));
            if std::env::var("RQMC_SHOW_PANICS").is_ok() { eprintln!("panicked at {loc}: {m}"); }
        }));
        Ck {
            prop, tier, seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            root, replay, start: Instant::now(), known: kf,
            inner: Mutex::new(Inner { secs: BTreeMap::new(), viol: vec![], nviol: 0, known_seen: BTreeMap::new(), replay_ran: 0 }),
            assumptions: Mutex::new(vec![]),
            watch: (0..SLOTS).map(|_| (AtomicU64::new(0), Mutex::new(""))).collect(),
            next_w: AtomicUsize::new(0), done: AtomicBool::new(false), capped: AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.thorough() { t } else { q } }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn capped(&self) { self.capped.store(true, Ordering::SeqCst); }
    pub fn worker(&self) -> W<'_> {
        let s = self.next_w.fetch_add(1, Ordering::SeqCst) % SLOTS;
        W { ck: self, slot: s, secs: BTreeMap::new(), cur: "", known_n: BTreeMap::new() }
    }
    /// Runs `f(worker, i)` for every i in 0..n on all cores.
    pub fn par(&self, n: usize, f: impl Fn(&mut W, usize) + Sync) {
        let next = AtomicUsize::new(0);
        let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
        std::thread::scope(|s| {
            for _ in 0..nt {
                s.spawn(|| loop {
                    let mut w = self.worker();
                    let r = catch_unwind(AssertUnwindSafe(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n { break; }
                        f(&mut w, i);
                    }));
                    match r { Ok(()) => break, Err(_) => self.escaped() }
                });
            }
        });
    }
    /// Sequential section.
    pub fn seq(&self, f: impl FnOnce(&mut W)) {
        let mut w = self.worker();
        if catch_unwind(AssertUnwindSafe(|| f(&mut w))).is_err() { self.escaped(); }
    }
    /// A panic outside a case: in the code under test it is a refusal of a valid object, in the harness an error.
    fn escaped(&self) {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        if m.starts_with("panicked at src/") || m.is_empty() { eprintln!("harness error: {m}"); std::process::exit(3); }
        self.report("construction", m.clone(), Fail::from(format!("unexpected panic: {m}")));
    }

    fn report(&self, sec: &'static str, key: String, f: Fail) {
        let mut g = self.inner.lock().unwrap();
        if let Some(k) = &f.known {
            if self.known.iter().any(|(kk, _)| kk == k) {
                let e = g.known_seen.entry(k.clone()).or_insert((0, format!("[{sec}] {key}: {}", f.msg)));
                e.0 += 1;
                return;
            }
        }
        g.nviol += 1;
        let n = g.viol.len();
        // keep the first few per section only; the total is counted
        if g.viol.iter().filter(|v| v.1 == sec).count() >= 3 || n >= 12 { return; }
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.txt", self.prop, n));
        let body = format!("property: {}\ntier: {}\nsection: {}\ncase: {}\nknown-key: {}\nobserved: {}\nreplay-with: ./check {} --replay {}\n",
            self.prop, if self.thorough() { "thorough" } else { "quick" }, sec, key, f.known.clone().unwrap_or_default(), f.msg.replace('\n', " "), self.prop, path.display());
        let _ = std::fs::write(&path, body);
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        println!("  [{sec}] {key}\n    {}", f.msg);
        g.viol.push((path.display().to_string(), sec.to_string(), key, f.msg));
    }

    pub fn main(run: impl FnOnce(&Ck) + Send) -> ! {
        // The exploration runs in a child process, so that a crash (stack overflow, abort) of the code under test is a verdict.
        if std::env::var_os("RQMC_CHILD").is_none() {
            use std::os::unix::process::ExitStatusExt;
            let st = std::process::Command::new(std::env::current_exe().expect("own path")).args(std::env::args_os().skip(1)).env("RQMC_CHILD", "1").status().expect("child");
            if let Some(c) = st.code() { std::process::exit(c); }
            let sig = st.signal().unwrap_or(0);
            if [4, 6, 7, 8, 11].contains(&sig) {
                let ck = Ck::from_args();
                ck.report("crash", "the whole exploration".into(), Fail::from(format!("the process was ended by signal {sig}: the code under test overflows the stack or aborts")));
                ck.finish();
            }
            eprintln!("harness error: ended by signal {sig}");
            std::process::exit(3);
        }
        let ck = Ck::from_args();
        std::thread::scope(|s| {
            s.spawn(|| {
                while !ck.done.load(Ordering::SeqCst) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    // an operation that allocates without end would otherwise be ended from outside, without a verdict
                    if resident_mb() > ck.pick(MEM_QUICK_MB, MEM_THOROUGH_MB) {
                        let now = ck.start.elapsed().as_secs();
                        let sec = ck.watch.iter().filter(|(t, _)| t.load(Ordering::SeqCst) != 0).min_by_key(|(t, _)| t.load(Ordering::SeqCst)).map(|(_, s)| *s.lock().unwrap()).unwrap_or("");
                        ck.report(sec, format!("case under way at {now}s"), Fail::from(format!("memory grows beyond {} MB: the operation does not terminate", resident_mb())));
                        ck.finish();
                    }
                    // the verdict is settled; do not spend the time limit on the rest
                    if ck.start.elapsed().as_secs() > SETTLED_S && ck.inner.lock().map(|g| g.nviol > 0).unwrap_or(false) { ck.capped(); ck.finish(); }
                    let now = ck.start.elapsed().as_secs();
                    for (t, sec) in &ck.watch {
                        let t0 = t.load(Ordering::SeqCst);
                        if t0 != 0 && now > t0 + HANG_S {
                            let sname = *sec.lock().unwrap();
                            ck.report(sname, format!("case started at {t0}s"), Fail::from(format!("no answer within {HANG_S}s: the operation does not terminate")));
                            ck.finish();
                        }
                    }
                }
            });
            if catch_unwind(AssertUnwindSafe(|| run(&ck))).is_err() { ck.escaped(); }
            ck.done.store(true, Ordering::SeqCst);
            ck.finish()
        })
    }

    fn finish(&self) -> ! {
        let g = self.inner.lock().unwrap();
        if let Some((s, k)) = &self.replay {
            if g.replay_ran == 0 { println!("replay: no case matched section={s} case={k}"); std::process::exit(2); }
        }
        for (k, what) in &self.known {
            if let Some((n, first)) = g.known_seen.get(k) {
                println!("KNOWN-FINDING: property={} {} {} ({} cases, e.g. {})", self.prop, k, what, n, first);
            }
        }
        let (mut st, mut tr, mut cs) = (0u64, 0u64, 0u64);
        let mut secj = vec![];
        let mut samples = vec![];
        for (n, s) in &g.secs {
            st += s.states.len() as u64; tr += s.trans; cs += s.cases;
            secj.push(format!("{}:{{\"cases\":{},\"distinct_states\":{},\"operations\":{},\"distinct_outcomes\":{}}}", jesc(n), s.cases, s.states.len(), s.trans, s.outcomes.len()));
            for x in s.samples.iter().take(3) { samples.push(jesc(&format!("[{n}] {x}"))); }
            println!("section {:<28} cases={} states={} operations={} outcomes={}", n, s.cases, s.states.len(), s.trans, s.outcomes.len());
        }
        let wall = self.start.elapsed().as_secs_f64();
        println!("{}: states={st} transitions={tr} traces={cs} violations={} wall={wall:.1}s", self.prop, g.nviol);
        if self.replay.is_none() {
            let viol: Vec<String> = g.viol.iter().map(|v| jesc(&format!("[{}] {}: {}", v.1, v.2, v.3))).collect();
            let ass: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| jesc(s)).collect();
            let kn: Vec<String> = g.known_seen.iter().map(|(k, (n, _))| format!("{}:{}", jesc(k), n)).collect();
            let ev = format!("{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{st},\"transitions\":{tr},\"traces_validated_against_impl\":{cs},\"exhaustive\":{},\"sections\":{{{}}},\"known_findings_observed\":{{{}}},\"violations_detail\":[{}],\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{wall:.2},\"violations\":{}}}\n",
                jesc(&self.prop), if self.thorough() { "thorough" } else { "quick" }, self.seed, !self.capped.load(Ordering::SeqCst), secj.join(","), kn.join(","), viol.join(","), samples.join(","), ass.join(","), g.nviol);
            let d = self.root.join("evidence");
            let _ = std::fs::create_dir_all(&d);
            std::fs::write(d.join(format!("{}.json", self.prop)), ev).expect("evidence");
        }
        if g.nviol == 0 && cs == 0 { eprintln!("harness error: nothing was explored"); std::process::exit(3); }
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(if g.nviol > 0 { 1 } else { 0 });
    }
}

impl<'a> W<'a> {
    fn sec(&mut self) -> &mut SecStat { let c = self.cur; self.secs.entry(c).or_insert_with(SecStat::new) }
    /// One executed operation compared with the model.
    pub fn op(&mut self) { self.sec().trans += 1; }
    pub fn ops(&mut self, n: u64) { self.sec().trans += n; }
    /// A distinct model state (by canonical hash).
    pub fn state(&mut self, hash: u64) { self.sec().states.insert(hash); }
    /// A distinct observed outcome, to show that the exploration is not vacuous.
    pub fn outcome(&mut self, hash: u64) { let s = self.sec(); if s.outcomes.len() < 200_000 { s.outcomes.insert(hash); } }
    pub fn sample(&mut self, f: impl FnOnce() -> String) { let s = self.sec(); if s.samples.len() < 3 { let x = f(); s.samples.push(x); } }

    /// A characterised deviation inside a case: recorded (and the case goes on) if the known-findings file lists it,
    /// a failure of the case otherwise.
    pub fn known(&mut self, key: &str, msg: impl FnOnce() -> String) -> Res {
        if !self.ck.known.iter().any(|(k, _)| k == key) { return Err(Fail { known: Some(key.into()), msg: msg() }); }
        match self.known_n.get_mut(key) {
            Some(e) => e.0 += 1,
            None => { let m = format!("[{}] {}", self.cur, msg()); self.known_n.insert(key.into(), (1, m)); }
        }
        Ok(())
    }
    pub fn case(&mut self, sec: &'static str, key: impl Fn() -> String, body: impl FnOnce(&mut W<'a>) -> Res) {
        if let Some((rs, rk)) = &self.ck.replay {
            if rs != sec || *rk != key() { return; }
            self.ck.inner.lock().unwrap().replay_ran += 1;
        }
        self.cur = sec;
        let new = !self.secs.contains_key(sec);
        self.sec().cases += 1;
        if new || self.sec().samples.len() < 2 { let k = key(); self.sec().samples.push(k); }
        if new { *self.ck.watch[self.slot].1.lock().unwrap() = sec; }
        self.ck.watch[self.slot].0.store(self.ck.start.elapsed().as_secs().max(1), Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(|| body(self)));
        self.ck.watch[self.slot].0.store(0, Ordering::Relaxed);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(f)) => self.ck.report(sec, key(), f),
            Err(_) => {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                self.ck.report(sec, key(), Fail::from(format!("unexpected panic: {m}")))
            }
        }
        self.cur = sec;
    }
}
impl Drop for W<'_> {
    fn drop(&mut self) {
        let mut g = match self.ck.inner.lock() { Ok(g) => g, Err(p) => p.into_inner() };
        for (k, (n, m)) in std::mem::take(&mut self.known_n) { g.known_seen.entry(k).or_insert((0, m)).0 += n; }
        for (n, s) in std::mem::take(&mut self.secs) {
            let t = g.secs.entry(n).or_insert_with(SecStat::new);
            t.cases += s.cases; t.trans += s.trans;
            if t.states.is_empty() { t.states = s.states } else { t.states.extend(s.states); }
            if t.outcomes.is_empty() { t.outcomes = s.outcomes } else { t.outcomes.extend(s.outcomes); }
            for x in s.samples { if t.samples.len() < 6 { t.samples.push(x); } }
        }
    }
}

/// Runs a call of the code under test that is allowed to refuse by panicking.
pub fn refuses<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Depth-first enumeration of all words over 0..k of exactly length n.
pub fn words(k: usize, n: usize, f: &mut dyn FnMut(&[usize])) {
    let mut w = vec![0; n];
    loop {
        f(&w);
        let mut i = n;
        loop {
            if i == 0 { return; }
            i -= 1;
            w[i] += 1;
            if w[i] < k { break; }
            w[i] = 0;
        }
    }
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() { out.push(cur.clone()); return; }
        for i in 0..used.len() {
            if !used[i] { used[i] = true; cur.push(i); rec(cur, used, out); cur.pop(); used[i] = false; }
        }
    }
    let mut o = vec![];
    rec(&mut vec![], &mut vec![false; n], &mut o);
    o
}
