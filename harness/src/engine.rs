//! Exploration engine: enumerates case indices of named phases on all cores, judges each case,
//! counts what was covered, and turns every kind of failure into a replayable violation.

use serde_json::{json, Value as J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// A judged failure of the property. `key` names the precise input class for known findings.
#[derive(Debug, Clone)]
pub struct Violation {
    pub msg: String,
    pub key: Option<String>,
}

impl From<String> for Violation {
    fn from(msg: String) -> Self {
        Violation { msg, key: None }
    }
}
impl From<&str> for Violation {
    fn from(msg: &str) -> Self {
        Violation { msg: msg.to_string(), key: None }
    }
}

pub type Res = Result<(), Violation>;

#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err($crate::engine::Violation::from(format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::engine::Violation::from(format!($($t)*))) } };
}

// ---------------------------------------------------------------------------------------------
// Allocation accounting

pub struct Alloc;

thread_local! {
    static IN_API: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(DEFAULT_LIMIT) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// No single API call of any check legitimately needs this much memory at once.
const DEFAULT_LIMIT: i64 = 2 << 30;

fn account(delta: i64) {
    let _ = IN_API.try_with(|f| {
        if !f.get() {
            return;
        }
        let live = LIVE.with(|l| {
            let v = l.get() + delta;
            l.set(v);
            v
        });
        if delta > 0 {
            PEAK.with(|p| {
                if live > p.get() {
                    p.set(live)
                }
            });
            if live > LIMIT.with(|l| l.get()) {
                f.set(false);
                fatal_violation(&format!(
                    "memory out of proportion: {live} bytes live inside one call (limit {})",
                    LIMIT.with(|l| l.get())
                ));
            }
        }
    });
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        point();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        account(new as i64 - l.size() as i64);
        System.realloc(p, l, new)
    }
}

thread_local! {
    static POINT: Cell<u64> = const { Cell::new(0) };
    static AT: Cell<u64> = const { Cell::new(0) };
    static CALL: Cell<Option<*const (dyn Fn() + 'static)>> = const { Cell::new(None) };
}
/// Runs `f`; at the `at`-th allocation of its calls into the library `call` is run. Gives the number of
/// allocations too (up to that one).
pub fn preempted<T>(at: u64, call: &dyn Fn(), f: impl FnOnce() -> T) -> (T, u64) {
    POINT.with(|p| p.set(0));
    AT.with(|p| p.set(at));
    // SAFETY: only used until this function returns
    let call: *const (dyn Fn() + 'static) = unsafe { std::mem::transmute(call as *const dyn Fn()) };
    CALL.with(|c| c.set(Some(call)));
    let r = f();
    CALL.with(|c| c.set(None));
    (r, POINT.with(|p| p.get()))
}
fn point() {
    if !IN_API.try_with(|l| l.get()).unwrap_or(false) {
        return;
    }
    if let Ok(Some(call)) = CALL.try_with(|c| c.get()) {
        let n = POINT.with(|p| p.replace(p.get() + 1));
        if n == AT.with(|a| a.get()) {
            CALL.with(|c| c.set(None));
            outside(|| unsafe { (*call)() });
        }
    }
}

/// Runs a call into the library. A panic inside becomes an error text.
pub fn api<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    api_limit(what, DEFAULT_LIMIT, f)
}

/// Like [`api`], additionally bounding the memory the call may hold at any time.
pub fn api_limit<T>(what: &str, limit: i64, f: impl FnOnce() -> T) -> Result<T, Violation> {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    LIMIT.with(|l| l.set(limit));
    IN_API.with(|l| l.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_API.with(|l| l.set(false));
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Violation::from(format!("{what} panicked: {m}")))
        }
    }
}

/// Runs harness code (for example an oracle inside a callback) while inside an API call.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = IN_API.with(|l| l.replace(false));
    let r = f();
    IN_API.with(|l| l.set(was));
    r
}

// ---------------------------------------------------------------------------------------------
// Current case bookkeeping for fatal reports

struct Slot {
    index: AtomicU64,
    started_ms: AtomicU64,
    active: AtomicBool,
}
const NSLOTS: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY_SLOT: Slot = Slot { index: AtomicU64::new(0), started_ms: AtomicU64::new(0), active: AtomicBool::new(false) };
static SLOTS: [Slot; NSLOTS] = [EMPTY_SLOT; NSLOTS];

struct Globals {
    id: String,
    tier: Tier,
    dir: PathBuf,
    t0: Instant,
}
static GLOBALS: Mutex<Option<Globals>> = Mutex::new(None);
static PHASE: Mutex<String> = Mutex::new(String::new());
static FATAL: AtomicBool = AtomicBool::new(false);
static OUT_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(1);

/// Prints a line on the real standard output (the library's own prints are discarded).
pub fn say(s: &str) {
    let line = format!("{s}\n");
    let mut b = line.as_bytes();
    while !b.is_empty() {
        let n = unsafe { libc::write(OUT_FD.load(SeqCst), b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

fn mute_library_output() {
    unsafe {
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        let saved = libc::dup(1);
        let saved_err = libc::dup(2);
        if null >= 0 && saved >= 0 && saved_err >= 0 {
            libc::fcntl(saved, libc::F_SETFD, libc::FD_CLOEXEC);
            libc::fcntl(saved_err, libc::F_SETFD, libc::FD_CLOEXEC);
            OUT_FD.store(saved, SeqCst);
            ERR_FD.store(saved_err, SeqCst);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            libc::close(null);
        }
    }
}
static ERR_FD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(2);
pub fn complain(s: &str) {
    let line = format!("{s}\n");
    unsafe { libc::write(ERR_FD.load(SeqCst), line.as_ptr() as *const _, line.len()) };
}

// Pre-rendered bytes for the signal handler.
static SIG_LINE: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static SIG_PATH: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static SIG_EVID: Mutex<(Vec<u8>, Vec<u8>)> = Mutex::new((Vec::new(), Vec::new()));
static SIG_PHASE: Mutex<Vec<u8>> = Mutex::new(Vec::new());

static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64
}

fn write_replay(id: &str, tier: Tier, dir: &std::path::Path, phase: &str, index: u64, detail: &str) -> PathBuf {
    let p = dir.join(format!("replay-{id}-{phase}-{index}.json"));
    let v = json!({"property": id, "tier": tier.name(), "phase": phase, "index": index, "detail": detail,
        "run": format!("bash run.sh replay {}", p.display())});
    let _ = std::fs::write(&p, serde_json::to_vec_pretty(&v).unwrap());
    p
}

/// Reports the current thread's case as violated and ends the process.
fn fatal_violation(msg: &str) -> ! {
    let slot = SLOT.with(|s| s.get());
    let index = if slot < NSLOTS { SLOTS[slot].index.load(SeqCst) } else { u64::MAX };
    fatal_violation_for(index, msg)
}

fn fatal_violation_for(index: u64, msg: &str) -> ! {
    if FATAL.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let g = GLOBALS.lock().unwrap();
    let g = g.as_ref().unwrap();
    let phase = PHASE.lock().unwrap().clone();
    let p = write_replay(&g.id, g.tier, &g.dir, &phase, index, msg);
    let evid = json!({"property": g.id, "tier": g.tier.name(), "seed": seed(), "level": "other",
        "coverage": {"explanation": format!("run ended by a fatal violation in phase {phase}, case {index}: {msg}")},
        "violations": 1, "wall_s": g.t0.elapsed().as_secs_f64()});
    let _ = std::fs::write(g.dir.join(format!("{}.json", g.id)), serde_json::to_vec_pretty(&evid).unwrap());
    say(&format!("{} {phase}#{index}: {msg}", g.id));
    say(&format!("VIOLATION property={} replay={}", g.id, p.display()));
    unsafe { libc::_exit(1) }
}

pub fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

extern "C" fn on_signal(sig: libc::c_int) {
    unsafe {
        let in_api = IN_API.with(|l| l.get());
        if !in_api {
            let m = b"engine error: fatal signal outside an API call\n";
            libc::write(ERR_FD.load(SeqCst), m.as_ptr() as *const _, m.len());
            libc::_exit(2);
        }
        let slot = SLOT.with(|s| s.get());
        let mut index = if slot < NSLOTS { SLOTS[slot].index.load(SeqCst) } else { u64::MAX };
        let mut digits = [0u8; 20];
        let mut n = 20;
        loop {
            n -= 1;
            digits[n] = b'0' + (index % 10) as u8;
            index /= 10;
            if index == 0 {
                break;
            }
        }
        let sigd = [b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8];
        // The buffers are written once per phase before workers start; try_lock cannot block.
        if let (Ok(path), Ok(line), Ok(ev), Ok(ph)) = (SIG_PATH.try_lock(), SIG_LINE.try_lock(), SIG_EVID.try_lock(), SIG_PHASE.try_lock()) {
            let w = |path: &[u8], parts: &[&[u8]]| {
                let fd = libc::open(path.as_ptr() as *const _, libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY, 0o644);
                if fd >= 0 {
                    for p in parts {
                        libc::write(fd, p.as_ptr() as *const _, p.len());
                    }
                    libc::close(fd);
                }
            };
            w(&path, &[&ph, &digits[n..], b", \"detail\": \"process killed by signal ", &sigd, b"\"}\n"]);
            w(&ev.0, &[&ev.1]);
            libc::write(OUT_FD.load(SeqCst), line.as_ptr() as *const _, line.len());
        }
        libc::_exit(1);
    }
}

fn install_signals() {
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as *const () as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

// ---------------------------------------------------------------------------------------------

pub fn h64<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// Per-worker view of the running case.
#[derive(Default)]
pub struct Case {
    evals: u64,
    keys: Vec<u64>,
    outcomes: BTreeMap<&'static str, u64>,
    counters: BTreeMap<&'static str, u64>,
    sample: Option<String>,
    want_sample: bool,
}

impl Case {
    /// Records one evaluation: its outcome class and a hash identifying the evaluated input.
    /// Inputs whose outcome is `"trivial"` are not counted as distinct non-trivial ones.
    pub fn seen<T: Hash + ?Sized>(&mut self, outcome: &'static str, input: &T) {
        self.evals += 1;
        *self.outcomes.entry(outcome).or_default() += 1;
        if outcome != "trivial" {
            self.keys.push(h64(input));
        }
        self.touch();
    }
    pub fn add(&mut self, counter: &'static str, n: u64) {
        *self.counters.entry(counter).or_default() += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    /// Tells the watchdog that this case is making progress.
    pub fn touch(&self) {
        let slot = SLOT.with(|s| s.get());
        if slot < NSLOTS {
            SLOTS[slot].started_ms.store(now_ms(), Relaxed);
        }
    }
}

#[derive(Default)]
struct PhaseStat {
    cases: u64,
    evals: u64,
    outcomes: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    wall: f64,
}

pub struct Engine {
    pub id: String,
    pub tier: Tier,
    pub dir: PathBuf,
    only: Option<(String, u64)>,
    threads: usize,
    t0: Instant,
    keys: HashSet<u64>,
    counters: BTreeMap<&'static str, u64>,
    phases: Vec<(String, PhaseStat)>,
    violations: Vec<(String, u64, Violation)>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub level: &'static str,
    pub notes: BTreeMap<String, J>,
    /// stack of the threads that run cases
    pub stack: usize,
    error: Option<String>,
}

static PANIC_OUTSIDE: Mutex<Option<String>> = Mutex::new(None);

impl Engine {
    pub fn new(id: &str, tier: Tier, verif: &std::path::Path, only: Option<(String, u64)>) -> Engine {
        let dir = verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let t0 = Instant::now();
        *GLOBALS.lock().unwrap() = Some(Globals { id: id.into(), tier, dir: dir.clone(), t0 });
        std::panic::set_hook(Box::new(|info| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if IN_API.with(|l| l.get()) {
                outside(|| LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}")));
            } else {
                *PANIC_OUTSIDE.lock().unwrap() = Some(format!("{msg} at {loc}"));
                complain(&format!("engine error: harness panic: {msg} at {loc}"));
            }
        }));
        install_signals();
        mute_library_output();
        let line = format!("VIOLATION property={id} replay={}\n", dir.join(format!("replay-{id}-crash.json")).display());
        *SIG_LINE.lock().unwrap() = line.into_bytes();
        let mut p = dir.join(format!("replay-{id}-crash.json")).display().to_string().into_bytes();
        p.push(0);
        *SIG_PATH.lock().unwrap() = p;
        let mut ep = dir.join(format!("{id}.json")).display().to_string().into_bytes();
        ep.push(0);
        let ev = json!({"property": id, "tier": tier.name(), "seed": seed(), "level": "other",
            "coverage": {"explanation": "run ended by a fatal signal inside a library call"}, "violations": 1, "wall_s": 0.0});
        *SIG_EVID.lock().unwrap() = (ep, serde_json::to_vec(&ev).unwrap());
        let _ = std::fs::remove_file(dir.join(format!("{id}.json")));
        let mut known = Vec::new();
        if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(rest) = l.strip_prefix("known: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let (p, k, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                    if p == id {
                        if let Some(k) = k.strip_prefix("case=") {
                            known.push((k.to_string(), t.to_string()));
                        }
                    }
                }
            }
        }
        // Watchdog for cases that do not terminate.
        let limit = if tier == Tier::Quick { 90_000 } else { 300_000 };
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = now_ms();
            for s in SLOTS.iter() {
                if s.active.load(SeqCst) && now.saturating_sub(s.started_ms.load(SeqCst)) > limit {
                    let idx = s.index.load(SeqCst);
                    fatal_violation_for(idx, &format!("no progress for {} s (does not terminate)", limit / 1000));
                }
            }
        });
        let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16)
        });
        Engine {
            id: id.into(), tier, dir, only, threads, t0,
            keys: HashSet::new(), counters: BTreeMap::new(), phases: Vec::new(), violations: Vec::new(), known,
            known_hit: BTreeMap::new(), rule: String::new(), assumptions: Vec::new(), level: "exploration",
            notes: BTreeMap::new(), stack: 8 << 20,
            error: None,
        }
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// Picks the bound for the running tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() { quick } else { thorough }
    }
    pub fn count(&mut self, c: &'static str, n: u64) {
        *self.counters.entry(c).or_default() += n;
    }

    /// Explores cases `0..n` of a phase completely (or stops at the first violation).
    pub fn phase<F>(&mut self, name: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Case) -> Res + Sync,
    {
        if self.error.is_some() || !self.violations.is_empty() {
            return;
        }
        let (lo, hi) = match &self.only {
            Some((p, i)) if p == name => (*i, i + 1),
            // layers of a state graph are needed to reach a later layer of it
            Some((p, _)) if earlier_layer(name, p) => (0, n),
            Some(_) => return,
            None => (0, n),
        };
        if hi > n {
            self.error = Some(format!("case {lo} is outside phase {name} (0..{n})"));
            return;
        }
        *PHASE.lock().unwrap() = name.to_string();
        *SIG_PHASE.lock().unwrap() = format!(
            "{{\"property\": \"{}\", \"tier\": \"{}\", \"phase\": \"{}\", \"index\": ", self.id, self.tier.name(), name).into_bytes();
        let t = Instant::now();
        let next = AtomicU64::new(lo);
        let stop = AtomicBool::new(false);
        let bad: Mutex<Vec<(u64, Violation)>> = Mutex::new(Vec::new());
        let merged: Mutex<(PhaseStat, HashSet<u64>, BTreeMap<&'static str, u64>)> = Mutex::new(Default::default());
        let chunk = ((hi - lo) / (self.threads as u64 * 64)).clamp(1, 256);
        let slot_no = AtomicUsize::new(0);
        let known = &self.known;
        let known_hit: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let stack = self.stack;
        std::thread::scope(|sc| {
            for _ in 0..self.threads {
                let _ = std::thread::Builder::new().stack_size(stack).spawn_scoped(sc, || {
                    let slot = slot_no.fetch_add(1, SeqCst);
                    SLOT.with(|s| s.set(slot));
                    let mut stat = PhaseStat::default();
                    let mut keys: HashSet<u64> = HashSet::new();
                    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
                    'outer: loop {
                        let a = next.fetch_add(chunk, SeqCst);
                        if a >= hi {
                            break;
                        }
                        for i in a..(a + chunk).min(hi) {
                            if stop.load(Relaxed) {
                                break 'outer;
                            }
                            let mut case = Case { want_sample: stat.samples.len() < 2 && (slot == 0 || i == lo), ..Default::default() };
                            SLOTS[slot].index.store(i, SeqCst);
                            SLOTS[slot].started_ms.store(now_ms(), SeqCst);
                            SLOTS[slot].active.store(true, SeqCst);
                            let r = f(i, &mut case);
                            SLOTS[slot].active.store(false, SeqCst);
                            stat.cases += 1;
                            stat.evals += case.evals;
                            for (k, v) in case.outcomes {
                                *stat.outcomes.entry(k).or_default() += v;
                            }
                            for (k, v) in case.counters {
                                *counters.entry(k).or_default() += v;
                            }
                            keys.extend(case.keys);
                            if let Some(s) = case.sample {
                                stat.samples.push(s);
                            }
                            if let Err(v) = r {
                                if let Some(k) = &v.key {
                                    if let Some((_, text)) = known.iter().find(|(kk, _)| kk == k) {
                                        known_hit.lock().unwrap().insert(k.clone(), text.clone());
                                        continue;
                                    }
                                }
                                bad.lock().unwrap().push((i, v));
                                stop.store(true, SeqCst);
                            }
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.0.cases += stat.cases;
                    m.0.evals += stat.evals;
                    for (k, v) in stat.outcomes {
                        *m.0.outcomes.entry(k).or_default() += v;
                    }
                    m.0.samples.extend(stat.samples);
                    m.1.extend(keys);
                    for (k, v) in counters {
                        *m.2.entry(k).or_default() += v;
                    }
                });
            }
        });
        // Slots of threads that ended by a harness panic must not trip the watchdog.
        for s in SLOTS.iter() {
            s.active.store(false, SeqCst);
        }
        if let Some(p) = PANIC_OUTSIDE.lock().unwrap().take() {
            self.error = Some(format!("harness panic in phase {name}: {p}"));
            return;
        }
        let (mut stat, keys, counters) = merged.into_inner().unwrap();
        stat.wall = t.elapsed().as_secs_f64();
        stat.samples.sort();
        stat.samples.truncate(3);
        let salt = h64(name);
        self.keys.extend(keys.into_iter().map(|k| k ^ salt));
        for (k, v) in counters {
            *self.counters.entry(k).or_default() += v;
        }
        self.known_hit.extend(known_hit.into_inner().unwrap());
        let mut bad = bad.into_inner().unwrap();
        bad.sort_by_key(|b| b.0);
        if let Some((i, v)) = bad.into_iter().next() {
            self.violations.push((name.to_string(), i, v));
        }
        if std::env::var("MC_VERBOSE").is_ok() {
            complain(&format!("{} {name}: {} cases, {} evaluations, {:?}, {:.2} s", self.id, stat.cases, stat.evals, stat.outcomes, stat.wall));
        }
        self.phases.push((name.to_string(), stat));
    }

    /// Ends the run: writes evidence, prints the verdict, returns the exit code.
    pub fn finish(mut self) -> i32 {
        if let Some(e) = &self.error {
            complain(&format!("engine error: {e}"));
            return 2;
        }
        if self.only.is_some() && self.phases.is_empty() {
            complain("engine error: no such phase");
            return 2;
        }
        let evals: u64 = self.phases.iter().map(|p| p.1.evals).sum();
        let cases: u64 = self.phases.iter().map(|p| p.1.cases).sum();
        let mut cov = serde_json::Map::new();
        if self.level == "model_checking" {
            for k in ["states", "transitions", "traces_validated_against_impl"] {
                let v = self.counters.remove(k).unwrap_or(0);
                cov.insert(k.into(), json!(v));
            }
        }
        cov.insert("evaluations".into(), json!(evals));
        cov.insert("distinct_nontrivial".into(), json!(self.keys.len()));
        cov.insert("cases".into(), json!(cases));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("exhaustive".into(), json!(self.violations.is_empty() && self.only.is_none()));
        for (k, v) in &self.counters {
            cov.insert((*k).into(), json!(v));
        }
        for (k, v) in &self.notes {
            cov.insert(k.clone(), v.clone());
        }
        let mut samples = Vec::new();
        let mut ph = serde_json::Map::new();
        for (n, p) in &self.phases {
            ph.insert(n.clone(), json!({"cases": p.cases, "evaluations": p.evals, "outcomes": p.outcomes, "wall_s": (p.wall * 100.0).round() / 100.0}));
            for s in p.samples.iter().take(2) {
                samples.push(json!(format!("{n}: {s}")));
            }
        }
        cov.insert("phases".into(), J::Object(ph));
        cov.insert("samples".into(), J::Array(samples));
        let ev = json!({"property": self.id, "tier": self.tier.name(), "seed": seed(), "level": self.level,
            "coverage": cov, "assumptions": self.assumptions, "violations": self.violations.len(),
            "wall_s": self.t0.elapsed().as_secs_f64()});
        let out = if self.only.is_some() { format!("{}.replay.json", self.id) } else { format!("{}.json", self.id) };
        std::fs::write(self.dir.join(out), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
        for (k, t) in &self.known_hit {
            say(&format!("KNOWN-FINDING: property={} {k}: {t}", self.id));
        }
        if self.violations.is_empty() {
            say(&format!("{} held ({}): {cases} cases, {evals} evaluations, {} distinct, {:.1} s", self.id, self.tier.name(),
                self.keys.len(), self.t0.elapsed().as_secs_f64()));
            return 0;
        }
        for (phase, i, v) in &self.violations {
            let p = write_replay(&self.id, self.tier, &self.dir, phase, *i, &v.msg);
            say(&format!("{} {phase}#{i}: {}", self.id, v.msg));
            say(&format!("VIOLATION property={} replay={}", self.id, p.display()));
        }
        1
    }
}

/// Whether `a` is `<stem>-<i>` and `b` is `<stem>-<j>` with i < j.
fn earlier_layer(a: &str, b: &str) -> bool {
    match (a.rsplit_once('-'), b.rsplit_once('-')) {
        (Some((x, i)), Some((y, j))) if x == y => matches!((i.parse::<u32>(), j.parse::<u32>()), (Ok(i), Ok(j)) if i < j),
        _ => false,
    }
}

/// Mixed-radix decoding of a case index.
pub struct Dec(pub u64);
impl Dec {
    pub fn pick(&mut self, n: u64) -> usize {
        let r = self.0 % n;
        self.0 /= n;
        r as usize
    }
    pub fn of<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.pick(s.len() as u64)]
    }
}

/// The `k`-th permutation of `0..n` (factorial number system).
pub fn permutation(n: usize, mut k: u64) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut out = Vec::with_capacity(n);
    let mut f: u64 = (1..=n as u64).product();
    for i in 0..n {
        f /= (n - i) as u64;
        let j = (k / f) as usize;
        k %= f;
        out.push(rest.remove(j));
    }
    out
}
pub fn factorial(n: u64) -> u64 {
    (1..=n).product()
}
/// Number of words of length `0..=l` over `k` letters, and the `i`-th such word.
pub fn words(k: u64, l: u32) -> u64 {
    (0..=l).map(|j| k.pow(j)).sum()
}
pub fn word(k: u64, mut i: u64) -> Vec<usize> {
    let mut l = 0u32;
    while i >= k.pow(l) {
        i -= k.pow(l);
        l += 1;
    }
    let mut v = Vec::new();
    for _ in 0..l {
        v.push((i % k) as usize);
        i /= k;
    }
    v
}
