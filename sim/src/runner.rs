//! Runs simulations in forked children (fresh process state for each), collects their
//! verdicts, shrinks failures, writes replay files and evidence.
use crate::choice::{hash_bytes, mix, Src};
use crate::sys;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;

pub const MAX_CHOICES: usize = 1 << 18;
pub const BLOB: usize = 4 << 20;

#[repr(C)]
pub struct Shared {
    pub n_choices: AtomicU64,
    pub inlib: AtomicU32,
    pub status: AtomicU32, // 0 died, 1 ok, 2 violation, 3 harness error
    pub blob_len: AtomicU64,
    pub phase: AtomicU64,
    pub choices: [AtomicU64; MAX_CHOICES],
    pub blob: [u8; BLOB],
}
impl Shared {
    pub fn map() -> &'static Shared {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                std::mem::size_of::<Shared>(),
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            &*(p as *const Shared)
        }
    }
    pub fn reset(&self) {
        self.n_choices.store(0, SeqCst);
        self.inlib.store(0, SeqCst);
        self.status.store(0, SeqCst);
        self.blob_len.store(0, SeqCst);
        self.phase.store(0, SeqCst);
    }
    pub fn put(&self, b: &[u8]) {
        let n = b.len().min(BLOB);
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.blob.as_ptr() as *mut u8, n) };
        self.blob_len.store(n as u64, SeqCst);
    }
    pub fn get(&self) -> Vec<u8> {
        self.blob[..self.blob_len.load(SeqCst) as usize].to_vec()
    }
    pub fn choices(&self) -> Vec<u64> {
        (0..self.n_choices.load(SeqCst) as usize).map(|i| self.choices[i].load(SeqCst)).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(kind: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { kind: kind.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $k:expr, $($a:tt)*) => { if !$c { return $crate::runner::fail($k, format!($($a)*)); } };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub steps: u64,
    pub io_ops: u64,
    pub switches: u64,
    pub sims: u64,
    pub digest: u64,
    pub sched: u64,
    pub nontrivial: bool,
}

pub struct Ctx {
    pub src: Src,
    pub dir: String,
    pub st: Stats,
    pub story: Vec<String>,
    pub shared: &'static Shared,
    pub inner: &'static Shared,
    pub thorough: bool,
    pub idx: u64,
    armed: bool,
    pub trace: Vec<String>,
}

/// Result of a simulated process (see `Ctx::process`).
pub enum ProcEnd {
    Done(Value),
    Killed,
}

static mut LIB_SHARED: Option<&'static Shared> = None;
thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

/// Calls into the library: seams are live only inside. A panic becomes Err(message).
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let sh = unsafe { LIB_SHARED };
    if let Some(s) = sh {
        s.inlib.fetch_add(1, SeqCst);
    }
    let before = sys::inlib();
    sys::set_inlib(before + 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    sys::set_inlib(before);
    if let Some(s) = sh {
        s.inlib.fetch_sub(1, SeqCst);
    }
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}
/// As `lib`, a panic being a violation.
pub fn lib_ok<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    lib(f).map_err(|m| Fail { kind: "panic".into(), msg: format!("{what} panicked: {m}") })
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let lvl = sys::inlib();
        sys::set_inlib(0);
        let p = i.payload();
        let m = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|x| *x.borrow_mut() = format!("{m} at {loc}"));
        sys::set_inlib(lvl);
    }));
}

impl Ctx {
    pub fn arm(&mut self, s: sys::Sim) {
        assert!(!self.armed);
        self.armed = true;
        sys::install(s);
        sys::set_tid(1);
    }
    pub fn absorb(&mut self, s: &sys::Sim) {
        for (k, v) in &s.fired {
            *self.st.faults.entry(k.clone()).or_default() += v;
        }
        self.st.sim_ns += s.clock_ns.saturating_sub(s.clock_start);
        self.st.steps += s.steps;
        self.st.io_ops += s.io_ops;
        self.st.switches += s.switches;
        if s.fine_switches > 0 {
            *self.st.counters.entry("switches inside computation".into()).or_default() += s.fine_switches;
        }
        self.st.sims += 1;
        self.st.digest = mix(self.st.digest ^ s.digest);
        self.st.sched = mix(self.st.sched ^ s.sched_digest);
        self.trace.extend(s.trace.iter().cloned());
    }
    pub fn disarm(&mut self) {
        if self.armed {
            self.armed = false;
            sys::set_tid(0);
            let s = sys::uninstall();
            self.absorb(&s);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.st.counters.entry(k.into()).or_default() += n;
    }
    pub fn tell(&mut self, s: impl Into<String>) {
        if self.story.len() < 400 {
            self.story.push(s.into());
        }
    }
    pub fn mixin(&mut self, b: &[u8]) {
        self.st.digest = mix(self.st.digest ^ hash_bytes(b));
    }
    /// Runs `f` in a process of its own (a node that may crash): fresh globals, its own
    /// simulator state; ends with a JSON value, or by being killed where the plan says.
    pub fn process(&mut self, s: sys::Sim, f: impl FnOnce(&mut Ctx) -> Result<Value, Fail>) -> Result<ProcEnd, Fail> {
        assert!(!self.armed);
        let inner = self.inner;
        inner.reset();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            child_setup(15);
            unsafe { LIB_SHARED = Some(inner) };
            let st0 = std::mem::take(&mut self.st);
            drop(st0);
            self.trace.clear();
            self.arm(s);
            let r = catch_unwind(AssertUnwindSafe(|| f(self)));
            self.disarm();
            let out = match r {
                Ok(Ok(v)) => json!({"ok": v, "st": stats_json(&self.st), "trace": self.trace}),
                Ok(Err(e)) => json!({"kind": e.kind, "msg": e.msg, "st": stats_json(&self.st), "trace": self.trace}),
                Err(_) => json!({"harness": PANIC_MSG.with(|m| m.borrow().clone()), "st": stats_json(&self.st), "trace": self.trace}),
            };
            inner.put(out.to_string().as_bytes());
            inner.status.store(1, SeqCst);
            sys::die(0);
        }
        let (code, sig) = wait(pid);
        self.count("processes", 1);
        if code == Some(0) && inner.status.load(SeqCst) == 1 {
            let v: Value = serde_json::from_slice(&inner.get()).expect("inner blob");
            self.merge_json(&v["st"]);
            if let Some(t) = v["trace"].as_array() {
                self.trace.extend(t.iter().filter_map(|x| x.as_str().map(|s| s.to_string())));
            }
            if let Some(h) = v.get("harness") {
                panic!("simulated process: harness panic: {h}");
            }
            if let Some(k) = v.get("kind") {
                return fail(k.as_str().unwrap(), v["msg"].as_str().unwrap());
            }
            return Ok(ProcEnd::Done(v["ok"].clone()));
        }
        if code == Some(sys::EXIT_KILLED) {
            *self.st.faults.entry("process:killed".into()).or_default() += 1;
            return Ok(ProcEnd::Killed);
        }
        death(code, sig, inner.inlib.load(SeqCst) > 0)
    }
    fn merge_json(&mut self, v: &Value) {
        let s = stats_from(v);
        for (k, n) in s.counters {
            *self.st.counters.entry(k).or_default() += n;
        }
        for (k, n) in s.faults {
            *self.st.faults.entry(k).or_default() += n;
        }
        self.st.sim_ns += s.sim_ns;
        self.st.steps += s.steps;
        self.st.io_ops += s.io_ops;
        self.st.switches += s.switches;
        self.st.sims += s.sims;
        self.st.digest = mix(self.st.digest ^ s.digest);
        self.st.sched = mix(self.st.sched ^ s.sched);
        self.st.nontrivial |= s.nontrivial;
    }
}

fn death<T>(code: Option<i32>, sig: Option<i32>, inlib: bool) -> Result<T, Fail> {
    match (code, sig) {
        (Some(sys::EXIT_BUDGET), _) => fail("hang", "a library call did not finish within the step budget"),
        (Some(sys::EXIT_DEADLOCK), _) => fail("deadlock", "every thread is blocked inside the library"),
        (_, Some(libc::SIGALRM | libc::SIGPROF)) if inlib => fail("hang", "a library call did not finish within the time limit"),
        (_, Some(s)) if inlib => fail("abort", format!("a library call ended the process with signal {s}")),
        (Some(c), _) if inlib => fail("abort", format!("a library call ended the process with exit code {c}")),
        _ => panic!("simulated process died outside the library: code {code:?} signal {sig:?}"),
    }
}

pub fn stats_json(s: &Stats) -> Value {
    json!({"c": s.counters, "f": s.faults, "ns": s.sim_ns, "steps": s.steps, "io": s.io_ops, "sw": s.switches,
           "sims": s.sims, "d": s.digest, "s": s.sched, "n": s.nontrivial})
}
fn stats_from(v: &Value) -> Stats {
    let m = |k: &str| -> BTreeMap<String, u64> {
        v[k].as_object().map(|o| o.iter().map(|(k, x)| (k.clone(), x.as_u64().unwrap_or(0))).collect()).unwrap_or_default()
    };
    let u = |k: &str| v[k].as_u64().unwrap_or(0);
    Stats {
        counters: m("c"),
        faults: m("f"),
        sim_ns: u("ns"),
        steps: u("steps"),
        io_ops: u("io"),
        switches: u("sw"),
        sims: u("sims"),
        digest: u("d"),
        sched: u("s"),
        nontrivial: v["n"].as_bool().unwrap_or(false),
    }
}

fn child_setup(secs: i64) {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        // one thread runs at a time: no address space for an arena of each
        libc::mallopt(libc::M_ARENA_MAX, 1);
        // processor time first, so that a busy machine is not taken for a hanging call
        for (which, secs) in [(libc::ITIMER_PROF as usize, secs), (libc::ITIMER_REAL as usize, secs * 7)] {
            let it = libc::itimerval {
                it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
                it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
            };
            libc::syscall(libc::SYS_setitimer, which, &it as *const _ as usize, 0usize);
        }
        let rl = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &rl);
        let cl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &cl);
    }
}
fn wait(pid: i32) -> (Option<i32>, Option<i32>) {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            panic!("waitpid failed");
        }
    }
    if libc::WIFEXITED(st) {
        (Some(libc::WEXITSTATUS(st)), None)
    } else {
        (None, Some(libc::WTERMSIG(st)))
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

pub struct Outcome {
    pub fail: Option<Fail>,
    pub harness: Option<String>,
    pub st: Stats,
    pub choices: Vec<u64>,
    pub story: Vec<String>,
    pub trace: Vec<String>,
}

pub struct Rig {
    pub shared: &'static Shared,
    pub inner: &'static Shared,
    pub dir: String,
    pub thorough: bool,
}
impl Rig {
    pub fn new(slot: u32, thorough: bool) -> Rig {
        let base = if std::fs::create_dir_all("/dev/shm/vsimtest").is_ok() {
            let _ = std::fs::remove_dir("/dev/shm/vsimtest");
            "/dev/shm/"
        } else {
            std::fs::create_dir_all("/tmp/shmv").unwrap();
            "/tmp/shmv"
        };
        let dir = format!("{base}vs{:08x}{slot:02x}", std::process::id());
        Rig { shared: Shared::map(), inner: Shared::map(), dir, thorough }
    }
    /// One simulated run; everything it does is a function of (property, seed | choices).
    pub fn run(&self, p: &Prop, idx: u64, seed: u64, replay: Option<Vec<u64>>, verbose: bool) -> Outcome {
        let sh = self.shared;
        sh.reset();
        let _ = std::fs::remove_dir_all(&self.dir);
        std::fs::create_dir_all(&self.dir).expect("scratch directory");
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            child_setup(40);
            if !verbose {
                unsafe {
                    let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(fd, 1);
                    libc::dup2(fd, 2);
                }
            }
            unsafe { LIB_SHARED = Some(sh) };
            std::env::set_current_dir(&self.dir).expect("scratch directory");
            let mut cx = Ctx {
                src: Src::new(seed, replay, sh),
                dir: ".".into(),
                st: Stats::default(),
                story: vec![],
                shared: sh,
                inner: self.inner,
                thorough: self.thorough,
                idx,
                armed: false,
                trace: vec![],
            };
            let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut cx)));
            cx.disarm();
            let n = cx.trace.len();
            if n > 600 {
                cx.trace.drain(300..n - 300);
            }
            let mut out = json!({"st": stats_json(&cx.st), "story": cx.story, "trace": cx.trace});
            let status = match r {
                Ok(Ok(())) => 1,
                Ok(Err(f)) => {
                    out["kind"] = json!(f.kind);
                    out["msg"] = json!(f.msg);
                    2
                }
                Err(_) => {
                    out["harness"] = json!(PANIC_MSG.with(|m| m.borrow().clone()));
                    3
                }
            };
            sh.put(out.to_string().as_bytes());
            sh.status.store(status, SeqCst);
            sys::die(0);
        }
        let (code, sig) = wait(pid);
        let _ = std::fs::remove_dir_all(&self.dir);
        let choices = sh.choices();
        let status = sh.status.load(SeqCst);
        let mut o = Outcome { fail: None, harness: None, st: Stats::default(), choices, story: vec![], trace: vec![] };
        if code == Some(0) && status > 0 {
            match serde_json::from_slice::<Value>(&sh.get()) {
                Ok(v) => {
                    o.st = stats_from(&v["st"]);
                    let strs = |k: &str| -> Vec<String> {
                        v[k].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
                    };
                    o.story = strs("story");
                    o.trace = strs("trace");
                    match status {
                        2 => {
                            o.fail = Some(Fail {
                                kind: v["kind"].as_str().unwrap_or("").into(),
                                msg: v["msg"].as_str().unwrap_or("").into(),
                            })
                        }
                        3 => o.harness = Some(v["harness"].as_str().unwrap_or("?").into()),
                        _ => {}
                    }
                }
                Err(e) => o.harness = Some(format!("result blob: {e}")),
            }
        } else {
            let r = catch_unwind(AssertUnwindSafe(|| death::<()>(code, sig, sh.inlib.load(SeqCst) > 0)));
            match r {
                Ok(Err(f)) => o.fail = Some(f),
                _ => o.harness = Some(format!("run died outside the library: code {code:?} signal {sig:?}")),
            }
        }
        o
    }
}

pub fn seed_of(base: u64, id: &str, idx: u64) -> u64 {
    mix(mix(base ^ hash_bytes(id.as_bytes())).wrapping_add(idx))
}

/// Shortens the list of choices while the same kind of failure remains.
pub fn shrink(rig: &Rig, p: &Prop, idx: u64, first: Vec<u64>, kind: &str, secs: f64) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = first;
    let mut tries = 0;
    let still = |c: &Vec<u64>, tries: &mut u64| -> bool {
        *tries += 1;
        let o = rig.run(p, idx, 0, Some(c.clone()), false);
        o.harness.is_none() && o.fail.map(|f| f.kind == kind).unwrap_or(false)
    };
    while best.last() == Some(&0) {
        best.pop();
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && t0.elapsed().as_secs_f64() < secs {
            let mut i = 0;
            while i < best.len() && t0.elapsed().as_secs_f64() < secs {
                let mut c = best.clone();
                c.drain(i..(i + size).min(c.len()));
                if c.len() < best.len() && still(&c, &mut tries) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks, then lower single values
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && t0.elapsed().as_secs_f64() < secs {
            let mut i = 0;
            while i < best.len() && t0.elapsed().as_secs_f64() < secs {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if still(&c, &mut tries) {
                        best = c;
                    }
                }
                i = e;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            let mut step = best[i] / 2;
            while step > 0 && t0.elapsed().as_secs_f64() < secs {
                let mut c = best.clone();
                c[i] -= step;
                if still(&c, &mut tries) {
                    best = c;
                }
                step = if best[i] < step { best[i] / 2 } else { step / 2 };
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || t0.elapsed().as_secs_f64() >= secs {
            return (best, tries);
        }
    }
}

pub struct Known {
    pub property: String,
    pub kind: String,
    pub needle: String,
    pub what: String,
}
/// Lines `known: property=<id> kind=<kind> match=<text> -- <what fails>`.
pub fn known_findings() -> Vec<Known> {
    let path = crate::verif_dir().join("known_findings.txt");
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: property=")?;
            let (id, r) = r.split_once(" kind=")?;
            let (kind, r) = r.split_once(" match=")?;
            let (needle, what) = r.split_once(" -- ")?;
            Some(Known { property: id.into(), kind: kind.into(), needle: needle.into(), what: what.into() })
        })
        .collect()
}

struct Agg {
    runs: u64,
    st: Stats,
    digests: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    harness: Option<(u64, String)>,
    viol: Option<(u64, u64, Fail, Vec<u64>)>,
}

#[repr(C)]
struct Board {
    stop_at: AtomicU64,
}

pub fn check(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let env_u = |k: &str| std::env::var(k).ok().and_then(|s| s.parse::<u64>().ok());
    let total = env_u("VSIM_RUNS").unwrap_or(if thorough { p.thorough } else { p.quick });
    let cap = env_u("VSIM_CAP").unwrap_or(if thorough { 650 } else { 150 }) as f64;
    let workers = env_u("VSIM_WORKERS").unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 16));
    let known = known_findings();
    let board = unsafe {
        let m = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        &*(m as *const Board)
    };
    board.stop_at.store(u64::MAX, SeqCst);
    let first = env_u("VSIM_FIRST").unwrap_or(0);
    let mut pids = vec![];
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe { libc::pipe(fds.as_mut_ptr()) };
        let rig = Rig::new(w as u32, thorough);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                libc::close(fds[0]);
            }
            let r = catch_unwind(AssertUnwindSafe(|| worker(p, &rig, w, workers, first, total, base, cap, t0, board, &known)));
            let v = match r {
                Ok(v) => v,
                Err(_) => json!({"harness": [0, PANIC_MSG.with(|m| m.borrow().clone())]}),
            };
            let b = v.to_string();
            let mut off = 0;
            while off < b.len() {
                let n = unsafe { libc::write(fds[1], b.as_ptr().add(off) as *const _, b.len() - off) };
                if n <= 0 {
                    break;
                }
                off += n as usize;
            }
            sys::die(0);
        }
        unsafe { libc::close(fds[1]) };
        pids.push((pid, fds[0], rig.dir.clone()));
    }
    let mut a = Agg {
        runs: 0,
        st: Stats::default(),
        digests: BTreeSet::new(),
        scheds: BTreeSet::new(),
        samples: vec![],
        known: BTreeMap::new(),
        harness: None,
        viol: None,
    };
    let mut nontrivial_runs = 0u64;
    let mut capped = false;
    for (pid, fd, dir) in pids {
        let mut buf = vec![];
        let mut tmp = vec![0u8; 1 << 16];
        loop {
            let n = unsafe { libc::read(fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        unsafe { libc::close(fd) };
        wait(pid);
        let _ = std::fs::remove_dir_all(&dir);
        let v: Value = serde_json::from_slice(&buf).unwrap_or_else(|_| json!({"harness": [0, "worker died"]}));
        if let Some(h) = v.get("harness").filter(|h| !h.is_null()) {
            let idx = h[0].as_u64().unwrap_or(0);
            if a.harness.as_ref().map(|x| idx < x.0).unwrap_or(true) {
                a.harness = Some((idx, h[1].to_string()));
            }
        }
        a.runs += v["runs"].as_u64().unwrap_or(0);
        nontrivial_runs += v["nontrivial"].as_u64().unwrap_or(0);
        capped |= v["capped"].as_bool().unwrap_or(false);
        let s = stats_from(&v["st"]);
        for (k, n) in s.counters {
            *a.st.counters.entry(k).or_default() += n;
        }
        for (k, n) in s.faults {
            *a.st.faults.entry(k).or_default() += n;
        }
        a.st.sim_ns += s.sim_ns;
        a.st.steps += s.steps;
        a.st.io_ops += s.io_ops;
        a.st.switches += s.switches;
        a.st.sims += s.sims;
        for (k, set) in [("digests", &mut a.digests), ("scheds", &mut a.scheds)] {
            for x in v[k].as_array().into_iter().flatten() {
                set.insert(x.as_u64().unwrap_or(0));
            }
        }
        if let Some(x) = v["samples"].as_array() {
            a.samples.extend(x.iter().cloned());
        }
        for (k, n) in v["known"].as_object().into_iter().flatten() {
            *a.known.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
        }
        if let Some(x) = v.get("viol").filter(|x| !x.is_null()) {
            let idx = x["idx"].as_u64().unwrap();
            if a.viol.as_ref().map(|y| idx < y.0).unwrap_or(true) {
                a.viol = Some((
                    idx,
                    x["seed"].as_u64().unwrap(),
                    Fail { kind: x["kind"].as_str().unwrap().into(), msg: x["msg"].as_str().unwrap().into() },
                    x["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap()).collect(),
                ));
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut violations = 0;
    let mut exit = 0;
    for k in &known {
        if k.property == p.id {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    if let Some((idx, seed, f, choices)) = &a.viol {
        violations = 1;
        exit = 1;
        let rig = Rig::new(99, thorough);
        let (small, tries) = shrink(&rig, p, *idx, choices.clone(), &f.kind, 25.0);
        let mut o = rig.run(p, *idx, 0, Some(small.clone()), false);
        let mut used = small;
        if o.fail.is_none() {
            used = choices.clone();
            o = rig.run(p, *idx, 0, Some(used.clone()), false);
        }
        let ff = o.fail.clone().unwrap_or(f.clone());
        let dir = crate::verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{:016x}.json", p.id, seed));
        let rep = json!({
            "property": p.id, "seed": seed, "run_index": idx, "base_seed": base, "tier": if thorough {"thorough"} else {"quick"},
            "kind": ff.kind, "violation": ff.msg, "choices": used, "original_choices": choices.len(),
            "shrink_runs": tries, "plan": o.story, "trace": o.trace,
            "replay_command": format!("bash /verif/check replay {}", path.display()),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).expect("replay file");
        // the file must reproduce the violation in a process of its own
        let again = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        let ok = again.map(|o| o.status.code() == Some(1)).unwrap_or(false);
        println!("violation of {} in run {idx} (seed {seed}): [{}] {}", p.id, ff.kind, ff.msg);
        println!("replayed in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
        println!("VIOLATION property={} replay={}", p.id, path.display());
    } else if let Some((i, h)) = &a.harness {
        println!("HARNESS ERROR in run {i}: {h}");
        exit = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    a.samples.truncate(4);
    let ev = json!({
        "property": p.id,
        "tier": if thorough {"thorough"} else {"quick"},
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.digests.len(),
            "nontrivial_runs": nontrivial_runs,
            "rule": p.rule,
            "samples": a.samples,
            "runs_per_hour": (a.runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (a.runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "simulated_processes": a.st.sims,
            "simulated_time_s": a.st.sim_ns as f64 / 1e9,
            "simulator_steps": a.st.steps,
            "io_operations": a.st.io_ops,
            "context_switches": a.st.switches,
            "faults_injected": a.st.faults,
            "checks_performed": a.st.counters,
            "distinct_interleavings": a.scheds.len(),
            "distinct_interleavings_measure": "distinct digests of the sequence of (from task, to task, step) switches; 1 when the run has a single thread",
            "distinct_states_measure": "distinct_nontrivial counts distinct digests over the full sequence of seam events and observed results of a run",
            "real_components": p.real,
            "stub_components": p.stub,
            "known_findings_seen": a.known,
            "stopped_by_time_cap": capped,
            "workers": workers,
        },
        "assumptions": ["the interposed libc entry points, entropy, clocks and allocator are the only sources of nondeterminism the library meets",
                         "oracles in sim/src/model.rs are correct"],
        "wall_s": wall,
        "violations": violations,
    });
    let evdir = crate::verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{} {}: {} runs ({} distinct non-trivial) in {:.1} s, {} simulated processes, {:.1} s simulated, {} faults injected{}",
        p.id,
        if exit == 0 { "held" } else { "FAILED" },
        a.runs,
        a.digests.len(),
        wall,
        a.st.sims,
        a.st.sim_ns as f64 / 1e9,
        a.st.faults.values().sum::<u64>(),
        if capped { " (time cap reached)" } else { "" }
    );
    exit
}

#[allow(clippy::too_many_arguments)]
fn worker(p: &Prop, rig: &Rig, w: u64, n: u64, first: u64, total: u64, base: u64, cap: f64, t0: Instant, board: &Board, known: &[Known]) -> Value {
    let mut st = Stats::default();
    let mut digests = BTreeSet::new();
    let mut scheds = BTreeSet::new();
    let mut samples = vec![];
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut nontrivial) = (0u64, 0u64);
    let mut viol = Value::Null;
    let mut harness = Value::Null;
    let mut capped = false;
    let mut i = first + w;
    while i < first + total && i < board.stop_at.load(SeqCst) {
        if t0.elapsed().as_secs_f64() > cap {
            capped = true;
            break;
        }
        let seed = seed_of(base, p.id, i);
        let o = rig.run(p, i, seed, None, false);
        runs += 1;
        for (k, n) in &o.st.counters {
            *st.counters.entry(k.clone()).or_default() += n;
        }
        for (k, n) in &o.st.faults {
            *st.faults.entry(k.clone()).or_default() += n;
        }
        st.sim_ns += o.st.sim_ns;
        st.steps += o.st.steps;
        st.io_ops += o.st.io_ops;
        st.switches += o.st.switches;
        st.sims += o.st.sims;
        if o.st.nontrivial {
            nontrivial += 1;
            digests.insert(o.st.digest);
        }
        scheds.insert(o.st.sched);
        if samples.is_empty() && o.st.nontrivial && o.fail.is_none() {
            samples.push(json!({"run": i, "seed": seed, "draws": o.choices.len(), "plan": o.story.iter().take(40).collect::<Vec<_>>(),
                "seam_events": o.trace.iter().take(40).collect::<Vec<_>>()}));
        }
        if let Some(h) = o.harness {
            harness = json!([i, h]);
            board.stop_at.fetch_min(i, SeqCst);
            break;
        }
        if let Some(f) = o.fail {
            if let Some(k) = known.iter().find(|k| k.property == p.id && k.kind == f.kind && f.msg.contains(&k.needle)) {
                *seen.entry(k.what.clone()).or_default() += 1;
            } else {
                viol = json!({"idx": i, "seed": seed, "kind": f.kind, "msg": f.msg, "choices": o.choices});
                board.stop_at.fetch_min(i, SeqCst);
                break;
            }
        }
        i += n;
    }
    json!({"runs": runs, "nontrivial": nontrivial, "st": stats_json(&st), "digests": digests, "scheds": scheds, "samples": samples,
           "known": seen, "viol": viol, "harness": harness, "capped": capped})
}

/// Replays a file; exit 1 when the recorded violation reproduces.
pub fn replay(props: &[Prop], path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay JSON");
    let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap_or("")).expect("unknown property");
    let rig = Rig::new(98, v["tier"] == "thorough");
    let choices: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap()).collect();
    let o = rig.run(p, v["run_index"].as_u64().unwrap_or(0), 0, Some(choices), false);
    for s in &o.story {
        println!("plan: {s}");
    }
    if let Some(h) = o.harness {
        println!("HARNESS ERROR: {h}");
        return 2;
    }
    match o.fail {
        Some(f) => {
            println!("[{}] {}", f.kind, f.msg);
            println!("VIOLATION property={} replay={}", p.id, path);
            if f.kind == v["kind"].as_str().unwrap_or("") {
                1
            } else {
                3
            }
        }
        None => {
            println!("no violation: property {} held on this run", p.id);
            0
        }
    }
}

/// Runs seeds twice, in different processes and worker slots, and compares every digest.
pub fn determinism(props: &[Prop], n: u64) -> i32 {
    let mut bad = 0;
    for p in props {
        let (a, b) = (Rig::new(1, false), Rig::new(77, false));
        let mut same = 0;
        for i in 0..n {
            let s = seed_of(4242, p.id, i);
            let x = a.run(p, i, s, None, false);
            let y = b.run(p, i, s, None, false);
            let z = b.run(p, i, 0, Some(x.choices.clone()), false);
            let key = |o: &Outcome| {
                (o.st.digest, o.st.sched, o.st.steps, o.st.sim_ns, o.choices.clone(), o.fail.as_ref().map(|f| f.kind.clone()), o.harness.clone(), o.trace.clone())
            };
            if key(&x) == key(&y) && key(&x) == key(&z) {
                same += 1;
            } else {
                bad += 1;
                println!("{} run {i} differs: {:?} {:?} {:?}", p.id, (x.st.digest, x.st.steps, x.choices.len()), (y.st.digest, y.st.steps, y.choices.len()), (z.st.digest, z.st.steps, z.choices.len()));
                for (q, r) in x.trace.iter().zip(y.trace.iter()) {
                    if q != r {
                        println!("   first difference: {q} | {r}");
                        break;
                    }
                }
            }
        }
        println!("{}: {same}/{n} seeds identical across two processes and a replay of the choices", p.id);
    }
    (bad > 0) as i32
}
