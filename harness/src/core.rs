//! Verdict discipline, evidence, scenario driver, PRNG, panic monitor, allocation monitor.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG
#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn ascii(&mut self, n: usize) -> String {
        let mut b = self.bytes(n);
        for x in b.iter_mut() {
            *x = b' ' + (*x % 95);
        }
        String::from_utf8(b).unwrap()
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
pub fn hash64(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}
pub fn hash_str(s: &str) -> u64 {
    hash64(s.as_bytes())
}

// ---------------------------------------------------------------- failures
#[derive(Debug, Clone)]
pub enum Fail {
    Violation(String, Value),
    Inconclusive(String),
}
pub type R<T = ()> = Result<T, Fail>;
pub fn viol<T>(what: impl Into<String>, detail: Value) -> R<T> {
    Err(Fail::Violation(what.into(), detail))
}
pub fn inconcl<T>(what: impl Into<String>) -> R<T> {
    Err(Fail::Inconclusive(what.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $what:expr, $d:expr) => {
        if !$c {
            return $crate::core::viol($what, $d);
        }
    };
}

// ---------------------------------------------------------------- panic monitor
#[derive(Clone, Debug)]
pub struct PanicRec {
    pub thread: String,
    pub location: String,
    pub message: String,
    pub sut: bool,
    pub frames: Vec<String>,
}
pub static PANICS: Mutex<Vec<PanicRec>> = Mutex::new(Vec::new());
pub static HARNESS_PANICS: AtomicUsize = AtomicUsize::new(0);
pub const INTENDED: &str = "HARNESS-INTENDED";

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let message = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string>".into()
        };
        if message.contains(INTENDED) {
            return;
        }
        let location = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let bt = std::backtrace::Backtrace::force_capture().to_string();
        let frames: Vec<String> = bt
            .lines()
            .filter(|l| l.contains("tchannel_rs") || l.contains("tmon"))
            .take(12)
            .map(|l| l.trim().to_string())
            .collect();
        let first_sut = frames.iter().position(|f| f.contains("tchannel_rs::"));
        let first_h = frames.iter().position(|f| f.contains("tmon::") && !f.contains("install_panic_hook"));
        // The innermost of (library, harness) frames is to blame.
        let sut = match (first_sut, first_h) {
            (Some(a), Some(b)) => a < b,
            (Some(_), None) => true,
            (None, Some(_)) => false,
            (None, None) => true,
        };
        if !sut {
            HARNESS_PANICS.fetch_add(1, SeqCst);
            eprintln!("HARNESS PANIC {message} at {location}\n{}", frames.join("\n"));
        }
        let rec = PanicRec {
            thread: std::thread::current().name().unwrap_or("?").to_string(),
            location,
            message,
            sut,
            frames,
        };
        if let Ok(mut p) = PANICS.lock() {
            if p.len() < 1000 {
                p.push(rec);
            }
        }
    }));
}
pub fn sut_panics() -> usize {
    PANICS.lock().unwrap().iter().filter(|p| p.sut).count()
}
pub fn sut_panic_json() -> Value {
    let p = PANICS.lock().unwrap();
    Value::Array(
        p.iter()
            .filter(|p| p.sut)
            .take(5)
            .map(|p| json!({"thread":p.thread,"location":p.location,"message":p.message,"frames":p.frames}))
            .collect(),
    )
}

// ---------------------------------------------------------------- allocation monitor
pub struct CountingAlloc;
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static COUNT_ALLOC: AtomicBool = AtomicBool::new(false);
pub static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
pub static BIGGEST_ALLOC: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            let v = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            if COUNT_ALLOC.load(Relaxed) {
                PEAK_BYTES.fetch_max(v, Relaxed);
                BIGGEST_ALLOC.fetch_max(l.size(), Relaxed);
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        LIVE_BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
}

// ---------------------------------------------------------------- context
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub budget: Duration,
    pub only: Option<(u64, u64)>, // replay: (scenario group, index)
    pub evals: AtomicU64,
    stats: Mutex<BTreeMap<String, u64>>,
    distinct: Mutex<HashSet<u64>>,
    sigs: Mutex<BTreeMap<String, HashSet<u64>>>,
    samples: Mutex<Vec<Value>>,
    fails: Mutex<Vec<(String, Value)>>,
    incon: Mutex<Vec<String>>,
    stop: AtomicBool,
    pub scenario_violations: AtomicU64,
}
impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, seed: u64, budget: Duration, only: Option<(u64, u64)>) -> Arc<Ctx> {
        Arc::new(Ctx {
            prop,
            tier,
            seed,
            start: Instant::now(),
            budget,
            only,
            evals: AtomicU64::new(0),
            stats: Default::default(),
            distinct: Default::default(),
            sigs: Default::default(),
            samples: Default::default(),
            fails: Default::default(),
            incon: Default::default(),
            stop: AtomicBool::new(false),
            scenario_violations: AtomicU64::new(0),
        })
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn add(&self, k: &str, n: u64) {
        *self.stats.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut s = self.stats.lock().unwrap();
        let e = s.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn stat(&self, k: &str) -> u64 {
        *self.stats.lock().unwrap().get(k).unwrap_or(&0)
    }
    /// One evaluation (a call, input or history judged by the oracle) whose signature is `sig`.
    pub fn eval(&self, sig: &str, nontrivial: bool) {
        self.evals.fetch_add(1, Relaxed);
        if nontrivial {
            self.distinct.lock().unwrap().insert(hash_str(sig));
        }
    }
    /// Count distinct observations of one kind (interleavings, states, ...).
    pub fn observe(&self, kind: &str, sig: u64) {
        self.sigs.lock().unwrap().entry(kind.to_string()).or_default().insert(sig);
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn fail(&self, f: Fail, tag: Value) {
        match f {
            Fail::Violation(w, d) => {
                self.scenario_violations.fetch_add(1, SeqCst);
                let mut v = self.fails.lock().unwrap();
                if v.len() < 20 {
                    v.push((w, json!({"where": tag, "detail": d})));
                }
            }
            Fail::Inconclusive(w) => {
                let mut v = self.incon.lock().unwrap();
                if v.len() < 50 {
                    v.push(format!("{w} {tag}"));
                }
            }
        }
    }
    pub fn failed(&self) -> bool {
        self.scenario_violations.load(SeqCst) > 0
    }
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed() >= self.budget
    }
    pub fn distinct_count(&self) -> usize {
        self.distinct.lock().unwrap().len()
    }

    /// Runs scenarios `group:0..` on `threads` OS threads, each with its own runtime.
    /// Runs at least `min` of them, at most `max`, stopping after the time budget share.
    pub fn scenarios<F>(self: &Arc<Self>, group: u64, name: &str, threads: usize, min: u64, max: u64, until: f64, f: F)
    where
        F: Fn(Arc<Ctx>, u64, Rng) -> R<()> + Send + Sync + 'static,
    {
        if let Some((g, i)) = self.only {
            if g != group {
                return;
            }
            let n = 20;
            for rep in 0..n {
                let rng = self.rng(group, i);
                if let Err(e) = self.guarded(&f, i, rng) {
                    self.fail(e, json!({"group":group,"scenario":name,"index":i,"replay_attempt":rep}));
                    return;
                }
            }
            return;
        }
        if self.failed() || std::env::var("TMON_SKIP").is_ok_and(|s| s.split(',').any(|g| g == name)) {
            return;
        }
        let deadline = self.start + self.budget.mul_f64(until);
        let next = Arc::new(AtomicU64::new(0));
        let f = Arc::new(f);
        let name: Arc<str> = name.into();
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (c, next, f, name) = (self.clone(), next.clone(), f.clone(), name.clone());
                std::thread::Builder::new()
                    .name(format!("scn-{group}-{t}"))
                    .spawn(move || loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= max || c.failed() || c.stop.load(SeqCst) {
                            return;
                        }
                        if i >= min && Instant::now() >= deadline {
                            return;
                        }
                        let rng = c.rng(group, i);
                        if let Err(e) = c.guarded(&*f, i, rng) {
                            c.fail(e, json!({"group":group,"scenario":&*name,"index":i,"seed":c.seed}));
                        }
                        c.add(&format!("scenarios_{name}"), 1);
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
    }
    fn rng(&self, group: u64, i: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hash_str(self.prop) ^ (group << 48) ^ i.wrapping_mul(0x9E3779B97F4A7C15))
    }
    fn guarded<F>(self: &Arc<Self>, f: &F, i: u64, rng: Rng) -> R<()>
    where
        F: Fn(Arc<Ctx>, u64, Rng) -> R<()>,
    {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self.clone(), i, rng))) {
            Ok(r) => r,
            Err(_) => inconcl("harness scenario panicked"),
        }
    }

    pub fn finish(&self, rule: &str, assumptions: &[&str], min_distinct: usize) -> i32 {
        let fails = self.fails.lock().unwrap();
        let mut incon = self.incon.lock().unwrap().clone();
        let evals = self.evals.load(SeqCst);
        let distinct = self.distinct_count();
        if HARNESS_PANICS.load(SeqCst) > 0 {
            incon.push("harness panicked".into());
        }
        if fails.is_empty() && self.only.is_none() && distinct < min_distinct {
            incon.push(format!("observed too little: {distinct} distinct non-trivial cases < {min_distinct}"));
        }
        let invalid = crate::sut::INVALID_TEXT.load(SeqCst);
        let mut fails = fails.clone();
        if invalid > 0 {
            fails.push(("a String that is not valid UTF-8 was handed to a handler or caller".into(), json!({ "times": invalid })));
        }
        let known = load_known(self.prop);
        let mut new_v = vec![];
        let mut known_hit: BTreeMap<String, u64> = BTreeMap::new();
        for (w, d) in fails.iter() {
            match known.iter().find(|k| w.starts_with(k.as_str())) {
                Some(k) => *known_hit.entry(k.clone()).or_insert(0) += 1,
                None => new_v.push((w.clone(), d.clone())),
            }
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(evals));
        cov.insert("distinct_nontrivial".into(), json!(distinct));
        cov.insert("rule".into(), json!(rule));
        let mut samples = self.samples.lock().unwrap().clone();
        if samples.is_empty() {
            samples.push(json!("none recorded"));
        }
        cov.insert("samples".into(), json!(samples));
        cov.insert("monitor_counters".into(), json!(*self.stats.lock().unwrap()));
        let dist: BTreeMap<String, usize> = self.sigs.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.len())).collect();
        cov.insert("distinct_observed".into(), json!(dist));
        cov.insert("invalid_texts_seen".into(), json!(invalid));
        cov.insert("sut_panics_seen".into(), json!(sut_panics()));
        if !incon.is_empty() {
            cov.insert("inconclusive".into(), json!(incon));
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.quick() {"quick"} else {"thorough"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": new_v.len(),
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
        if self.only.is_none() {
            std::fs::write(format!("{}/evidence/{}.json", root(), self.prop), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
        }
        println!(
            "{}: evaluations={} distinct_nontrivial={} distinct_observed={:?} wall={:.1}s",
            self.prop,
            evals,
            distinct,
            dist,
            self.start.elapsed().as_secs_f64()
        );
        for (k, n) in &known_hit {
            println!("KNOWN-FINDING: property={} {} (seen {} times)", self.prop, k, n);
        }
        if !new_v.is_empty() {
            let _ = std::fs::create_dir_all(format!("{}/out/replays", root()));
            let path = format!("{}/out/replays/{}-{}.json", root(), self.prop, self.seed);
            let rep = json!({"property":self.prop,"seed":self.seed,"tier":if self.quick(){"quick"}else{"thorough"},
                "how_to_replay": format!("bash /verif/check.sh {} --seed {} --scenario GROUP:INDEX (group/index under violations[].where)", self.prop, self.seed),
                "violations": new_v.iter().map(|(w,d)| json!({"what":w,"info":d})).collect::<Vec<_>>(),
                "library_panics": sut_panic_json()});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
            for (w, d) in new_v.iter().take(5) {
                let mut ds = d.to_string();
                if ds.len() > 1500 {
                    let mut n = 1500;
                    while !ds.is_char_boundary(n) {
                        n -= 1;
                    }
                    ds.truncate(n);
                }
                println!("  what: {w}\n  info: {ds}");
            }
            println!("VIOLATION property={} replay={}", self.prop, path);
            return 1;
        }
        if !incon.is_empty() {
            println!("INCONCLUSIVE property={}: {}", self.prop, incon.join("; "));
            return 3;
        }
        0
    }
}
pub fn root() -> String {
    std::env::var("TMON_ROOT").unwrap_or_else(|_| "/verif".into())
}
/// known_findings.jsonl: {"property":"Cnn","signature":"prefix of the violation text", ...}
fn load_known(prop: &str) -> Vec<String> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.jsonl", root())) {
        for l in s.lines() {
            if let Ok(j) = serde_json::from_str::<Value>(l) {
                if j["property"] == prop && j["status"] == "known" {
                    if let Some(s) = j["signature"].as_str() {
                        v.push(s.to_string());
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- runtimes and bounded progress
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rt {
    Current,
    Multi(usize),
}
impl Rt {
    pub fn pick(r: &mut Rng) -> Rt {
        match r.below(5) {
            0 => Rt::Current,
            1 => Rt::Multi(1),
            2 => Rt::Multi(2),
            3 => Rt::Multi(3),
            _ => Rt::Multi(4),
        }
    }
}
/// How long (in thread-level heartbeats of >=50ms) a whole scenario may take before it counts as wedged.
pub const SCENARIO_BEATS: u64 = 20 * 110;

/// Runs `fut` on a fresh runtime in its own thread. If it neither finishes nor lets its own
/// heartbeat-based watchdog fire, the executor itself is wedged (a blocking deadlock or a spin in
/// the code under test): reported as a violation only if this thread's own heartbeat shows that the machine
/// schedules normally.
pub fn with_rt<T: Send + 'static, Fut>(rt: Rt, f: impl FnOnce() -> Fut + Send + 'static) -> R<T>
where
    Fut: Future<Output = R<T>> + 'static,
{
    with_rt_beats(rt, SCENARIO_BEATS, f)
}
pub fn with_rt_beats<T: Send + 'static, Fut>(rt: Rt, beats: u64, f: impl FnOnce() -> Fut + Send + 'static) -> R<T>
where
    Fut: Future<Output = R<T>> + 'static,
{
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .name("rt-main".into())
        .spawn(move || {
            let r = match rt {
                Rt::Current => tokio::runtime::Builder::new_current_thread().enable_all().build(),
                Rt::Multi(n) => tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build(),
            }
            .expect("runtime");
            let out = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.block_on(f())));
            r.shutdown_timeout(Duration::from_millis(300));
            let _ = tx.send(out);
        })
        .unwrap();
    let t0 = Instant::now();
    for n in 0..beats {
        match rx.recv_timeout(Duration::from_millis(50)) {
            Ok(Ok(r)) => return r,
            Ok(Err(_)) => {
                // A panic reached the test thread. Library code running on the caller's task panicked, or the harness did.
                return if PANICS.lock().unwrap().last().map(|p| p.sut).unwrap_or(false) {
                    viol("library code panicked on the calling task", sut_panic_json())
                } else {
                    inconcl("harness panic in scenario")
                };
            }
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                let _ = n;
            }
            Err(_) => return inconcl("runtime thread vanished"),
        }
    }
    let mean = t0.elapsed().as_secs_f64() / beats as f64;
    if mean < 0.12 {
        viol(
            "executor wedged: no task of the scenario, not even its watchdog, made progress",
            json!({"wall_s": t0.elapsed().as_secs_f64(), "mean_heartbeat_s": mean}),
        )
    } else {
        inconcl("scenario did not finish and the machine is starved")
    }
}

pub struct Hang;
/// Bounded progress: `beats` heartbeats of 10 ms each, taken on the same runtime as the code under test.
/// A starved machine slows the heartbeats down with everything else.
pub async fn within<T>(beats: u64, f: impl Future<Output = T>) -> Result<T, Hang> {
    tokio::pin!(f);
    let mut n = 0;
    let mut tick = Box::pin(tokio::time::sleep(Duration::from_millis(10)));
    loop {
        tokio::select! {
            biased;
            v = &mut f => return Ok(v),
            _ = &mut tick => {
                n += 1;
                if n >= beats { return Err(Hang); }
                tick = Box::pin(tokio::time::sleep(Duration::from_millis(10)));
            }
        }
    }
}
pub const HANG: u64 = 2000;

/// Lets `secs` seconds of the runtime's own clock pass in a moment of real time (current-thread runtimes
/// only): every timer of the code under test that is due in that period fires, in order, while its tasks
/// and its sockets run as ever in between.
pub async fn pass_hours(secs: u64) {
    tokio::task::yield_now().await;
    tokio::time::pause();
    // never idle, so that the clock moves on by the steps below only
    for _ in 0..secs.div_ceil(3) {
        tokio::time::advance(Duration::from_secs(3)).await;
        let t0 = Instant::now();
        let mut n = 0;
        while n < 150 || t0.elapsed() < Duration::from_micros(400) {
            tokio::task::yield_now().await;
            n += 1;
        }
    }
    tokio::time::resume();
}
/// For operations that may legitimately sit out the connection pool's own 30 s connect timeout (twice).
pub const HANG_CONNECT: u64 = 7500;

/// Polls `f` at most `polls` times, then drops it (cancellation at a chosen suspension point).
pub struct CancelAfter<F> {
    pub fut: Option<std::pin::Pin<Box<F>>>,
    pub polls: usize,
}
impl<F: Future> Future for CancelAfter<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        use std::task::Poll;
        if self.polls == 0 {
            self.fut = None;
            return Poll::Ready(None);
        }
        self.polls -= 1;
        let left = self.polls;
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Some(v)),
            Poll::Pending => {
                if left == 0 {
                    cx.waker().wake_by_ref(); // cancelled as soon as the executor gets round to us
                }
                Poll::Pending
            }
        }
    }
}

/// Uses up the cooperative budget of the current task poll except for `left` operations on tokio
/// primitives: whatever is polled next is suspended at its `left`+1st lock, channel or timer, although
/// nothing else keeps it waiting there.
fn burn(cx: &mut std::task::Context<'_>, left: usize) {
    let sem = tokio::sync::Semaphore::new(1);
    for _ in 0..128usize.saturating_sub(left) {
        let f = sem.acquire();
        tokio::pin!(f);
        if f.poll(cx).is_pending() {
            return;
        }
    }
}
/// Polls the future at most `polls` times, with room for `left` operations each time. Returns its
/// result, or itself when it has not come to its end.
pub struct Steps<F> {
    pub fut: Option<std::pin::Pin<Box<F>>>,
    pub left: usize,
    pub polls: usize,
}
pub fn steps<F: Future>(fut: F, left: usize, polls: usize) -> Steps<F> {
    Steps { fut: Some(Box::pin(fut)), left, polls }
}
impl<F: Future> Future for Steps<F> {
    type Output = Result<F::Output, std::pin::Pin<Box<F>>>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        use std::task::Poll;
        if self.polls == 0 {
            return Poll::Ready(Err(self.fut.take().unwrap()));
        }
        self.polls -= 1;
        let (left, polls) = (self.left, self.polls);
        burn(cx, left);
        match self.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => Poll::Ready(Ok(v)),
            Poll::Pending => {
                if polls == 0 {
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
        }
    }
}
/// Runs the future to its end; every other poll may be preempted early (see `burn`).
pub struct Preempted<F> {
    pub fut: std::pin::Pin<Box<F>>,
    pub state: u64,
}
impl<F: Future> Future for Preempted<F> {
    type Output = F::Output;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<F::Output> {
        self.state = self.state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let x = self.state >> 33;
        if x & 1 == 0 {
            burn(cx, 1 + (x >> 1) as usize % 3);
        }
        self.fut.as_mut().poll(cx)
    }
}

thread_local! { static _UNUSED: Cell<u8> = Cell::new(0); }

// ---------------------------------------------------------------- global logical clock
pub static CLOCK: AtomicU64 = AtomicU64::new(1);
pub fn tick() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}
