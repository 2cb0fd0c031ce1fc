//! The seams. Every source of nondeterminism the library meets is owned here:
//! libc entry points are interposed by defining them in this executable (disk I/O, clocks,
//! sleeps, hash-seed entropy, futex based locks) and the global allocator is ours, so that
//! real caller threads run one at a time and can be switched at every intercepted call and
//! at every allocation the library makes. Hooks act only on simulated threads (TID > 0)
//! while they are inside a library call (INLIB > 0); everything else passes through.
//! No PRNG is drawn and no real clock is read here: a run is a function of its plan.
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, Ordering::Relaxed, Ordering::SeqCst};

use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, mode_t, size_t, ssize_t, timespec};

thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
    static INLIB: Cell<u32> = const { Cell::new(0) };
    static INHOOK: Cell<bool> = const { Cell::new(false) };
}

pub static ARMED: AtomicBool = AtomicBool::new(false);
static ALL_DONE: AtomicU32 = AtomicU32::new(0);
static mut SIM: *mut Sim = std::ptr::null_mut();

pub const EXIT_BUDGET: i32 = 76;
pub const EXIT_KILLED: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;
pub const EXIT_HARNESS: i32 = 79;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Open,
    Create,
    Read,
    Write,
    Mkdir,
    Close,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Act {
    /// fails with this errno, once
    Err(i32),
    /// fails with this errno from now on
    Sticky(i32),
    /// transfers at most n bytes
    Short(usize),
    /// end of file from now on (the file was truncated under the reader)
    Eof,
    /// takes this much simulated time
    Stall(u64),
    /// the process dies at this operation (a write first transfers n bytes)
    Kill(usize),
}
#[derive(Clone, Debug)]
pub struct Fault {
    pub path: String,
    pub op: Op,
    pub nth: u32,
    pub act: Act,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize, Option<u64>),
    TimedOut,
    Done,
}

pub struct Task {
    st: St,
    word: AtomicU32,
}

impl Task {
    fn new(st: St) -> Box<Task> {
        Box::new(Task { st, word: AtomicU32::new(0) })
    }
}

pub struct Sim {
    prefix: Vec<u8>,
    pub paths: Vec<String>,
    counts: Vec<[u32; 6]>,
    fds: Vec<usize>, // fd -> path index + 1
    pub open_tracked: i64,
    pub faults: Vec<Fault>,
    pub chunks: Vec<i64>, // read transfer limits, cycled: 0 = unlimited, -1 = EINTR
    pub wchunks: Vec<i64>,
    chunk_pos: usize,
    wchunk_pos: usize,
    eintr_run: u32,
    pub hash_seed: u64,
    hash_ctr: u64,
    pub clock_ns: u64,
    pub clock_start: u64,
    pub misalign: bool,
    /// standard output and error are a terminal
    pub tty: bool,
    pub vars: Vec<(&'static str, &'static str)>,
    /// what the library changed on disk: (operation, path)
    pub touched: Vec<(&'static str, String)>,
    pub steps: u64,
    pub budget: u64,
    pub preempts: Vec<(u64, u64)>, // (gap in steps, choice); see INNER
    next_pre: usize,
    pre_base: u64,
    fine_steps: u64,
    pub site_salt: u64,
    pub site_mod: u64,
    pub fine_total: u64,
    counting: bool,
    pub fine_switches: u64,
    running: bool,
    pub tasks: Vec<Box<Task>>, // boxed: threads wait on their words
    planned: usize, // tasks of run_tasks
    threads: Vec<(usize, usize)>, // threads the library started: pthread_t, task
    pub adopted: u64,
    cur: usize,
    pub switches: u64,
    pub futex_blocks: u64,
    pub fired: std::collections::BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub tracing: bool,
    pub digest: u64,
    pub sched_digest: u64,
    pub io_ops: u64,
}

impl Sim {
    pub fn new(ntasks: usize) -> Sim {
        Sim {
            prefix: real_dir(),
            paths: vec![],
            counts: vec![],
            fds: vec![0; 4096],
            open_tracked: 0,
            faults: vec![],
            chunks: vec![],
            wchunks: vec![],
            chunk_pos: 0,
            wchunk_pos: 0,
            eintr_run: 0,
            hash_seed: 1,
            hash_ctr: 0,
            clock_ns: 1_700_000_000_000_000_000,
            clock_start: 1_700_000_000_000_000_000,
            misalign: false,
            tty: false,
            vars: vec![],
            touched: vec![],
            steps: 0,
            budget: 40_000_000,
            preempts: vec![],
            next_pre: 0,
            pre_base: 0,
            fine_steps: 0,
            site_salt: 0,
            site_mod: 1,
            fine_total: 0,
            counting: false,
            fine_switches: 0,
            running: false,
            tasks: (0..ntasks).map(|i| Task::new(if i == 0 { St::Ready } else { St::Done })).collect(),
            planned: ntasks,
            threads: vec![],
            adopted: 0,
            cur: 0,
            switches: 0,
            futex_blocks: 0,
            fired: Default::default(),
            trace: vec![],
            tracing: true,
            digest: 0xcbf29ce484222325,
            sched_digest: 0xcbf29ce484222325,
            io_ops: 0,
        }
    }
    fn note(&mut self, what: &str, a: &str, b: i64) {
        for x in what.bytes().chain(a.bytes()).chain(b.to_le_bytes()) {
            self.digest = (self.digest ^ x as u64).wrapping_mul(0x100000001b3);
        }
        if self.tracing && self.trace.len() < 4000 {
            self.trace.push(format!("{what} {a} {b}"));
        }
    }
    fn fire(&mut self, k: &str) {
        *self.fired.entry(k.to_string()).or_default() += 1;
    }
    fn path_id(&mut self, p: &[u8]) -> Option<usize> {
        // runs work below their scratch directory, which is also their working directory
        let rest: &[u8] = if p.first() != Some(&b'/') {
            p.strip_prefix(b"./").unwrap_or(p)
        } else if !self.prefix.is_empty() && p.starts_with(&self.prefix) {
            &p[self.prefix.len()..]
        } else {
            return None;
        };
        let rel = String::from_utf8_lossy(rest).trim_start_matches('/').to_string();
        if let Some(i) = self.paths.iter().position(|x| *x == rel) {
            return Some(i);
        }
        self.paths.push(rel);
        self.counts.push([0; 6]);
        Some(self.paths.len() - 1)
    }
    fn touch(&mut self, what: &'static str, p: &str) {
        if self.touched.len() < 10_000 && !self.touched.iter().any(|t| t.0 == what && t.1 == p) {
            self.touched.push((what, p.to_string()));
        }
    }
    fn fault(&mut self, pid: usize, op: Op) -> Option<Act> {
        let n = self.counts[pid][op as usize];
        self.counts[pid][op as usize] += 1;
        let name = self.paths[pid].clone();
        let mut hit = None;
        for f in &self.faults {
            if f.op == op && (f.path == name || (f.path.ends_with('*') && name.starts_with(&f.path[..f.path.len() - 1]))) {
                match f.act {
                    Act::Sticky(_) | Act::Eof if n >= f.nth => hit = Some(f.act),
                    _ if n == f.nth => hit = Some(f.act),
                    _ => {}
                }
                if hit.is_some() {
                    break;
                }
            }
        }
        if let Some(a) = hit {
            self.fire(&format!("{op:?}:{}", act_name(a)));
        }
        hit
    }
    /// Is the file with this name (relative to the scratch directory) open?
    pub fn is_open(&self, rel: &str) -> bool {
        match self.paths.iter().position(|p| p == rel) {
            Some(i) => self.fds.iter().any(|&f| f == i + 1),
            None => false,
        }
    }
    /// Replaces the fault script (used when "the fault goes away").
    pub fn clear_faults(&mut self) {
        self.faults.clear();
        self.chunks.clear();
        self.wchunks.clear();
    }
    fn ready(&self) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| matches!(self.tasks[i].st, St::Ready | St::TimedOut)).collect()
    }
    fn wake(&mut self, addr: usize, most: usize) -> isize {
        let mut n = 0;
        for t in self.tasks.iter_mut() {
            if let St::Blocked(a, _) = t.st {
                if a == addr && n < most {
                    t.st = St::Ready;
                    n += 1;
                }
            }
        }
        n as isize
    }
    fn pick(&mut self) -> Option<usize> {
        let r = self.ready();
        if r.is_empty() {
            return None;
        }
        let k = match self.preempts.get(self.next_pre) {
            Some(p) => p.1 & !INNER,
            None if self.adopted > 0 => splitmix(self.hash_seed ^ self.steps) >> 16,
            None => 0,
        };
        Some(r[k as usize % r.len()])
    }
}

fn real_dir() -> Vec<u8> {
    let d = std::env::current_dir().map(|p| p.to_string_lossy().into_owned().into_bytes()).unwrap_or_default();
    if d.len() > 1 {
        d
    } else {
        vec![]
    }
}
fn act_name(a: Act) -> String {
    match a {
        Act::Err(e) | Act::Sticky(e) => format!("errno{}", errno_name(e)),
        Act::Short(_) => "short".into(),
        Act::Eof => "eof".into(),
        Act::Stall(_) => "stall".into(),
        Act::Kill(_) => "kill".into(),
    }
}
pub fn errno_name(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOENT => "ENOENT",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::EINTR => "EINTR",
        libc::ENOSPC => "ENOSPC",
        libc::EDQUOT => "EDQUOT",
        libc::EROFS => "EROFS",
        libc::ESTALE => "ESTALE",
        libc::ENOMEM => "ENOMEM",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::ENOTDIR => "ENOTDIR",
        libc::ELOOP => "ELOOP",
        libc::EISDIR => "EISDIR",
        libc::ENODEV => "ENODEV",
        _ => "E?",
    }
}

#[inline]
fn in_sim() -> bool {
    ARMED.load(SeqCst) && TID.with(|t| t.get()) > 0 && INLIB.with(|t| t.get()) > 0 && !INHOOK.with(|t| t.get())
}

struct Hook;
impl Hook {
    fn enter() -> Option<Hook> {
        if !in_sim() {
            return None;
        }
        INHOOK.with(|h| h.set(true));
        Some(Hook)
    }
}
impl Drop for Hook {
    fn drop(&mut self) {
        INHOOK.with(|h| h.set(false));
    }
}

/// Access to the simulator state from harness code (current token holder or set-up code).
/// Always re-fetched after a call that may hand the token to another task.
#[inline(never)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *std::ptr::read_volatile(std::ptr::addr_of!(SIM)) }
}
/// Makes the calling thread simulated task number `t` (0 = not simulated).
pub fn set_tid(t: usize) {
    TID.with(|x| x.set(t));
}
pub fn install(mut s: Sim) {
    for (k, _) in crate::props::world::VARS {
        std::env::remove_var(k);
    }
    for (k, v) in std::mem::take(&mut s.vars) {
        std::env::set_var(k, v);
        s.fire("environment:variable");
    }
    unsafe { SIM = Box::into_raw(Box::new(s)) };
    ARMED.store(true, SeqCst);
}
pub fn uninstall() -> Box<Sim> {
    ARMED.store(false, SeqCst);
    let mut s = unsafe { Box::from_raw(std::mem::replace(&mut *std::ptr::addr_of_mut!(SIM), std::ptr::null_mut())) };
    if s.adopted > 0 {
        // threads left running wait on these
        std::mem::forget(std::mem::take(&mut s.tasks));
    }
    s
}

pub fn set_inlib(n: u32) {
    INLIB.with(|x| x.set(n));
}
pub fn inlib() -> u32 {
    INLIB.with(|x| x.get())
}

// ------------------------------------------------------------------ raw system calls
#[inline(always)]
pub unsafe fn sc(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn fix(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn err(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}
pub fn die(code: i32) -> ! {
    unsafe {
        loop {
            sc(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
        }
    }
}

// ------------------------------------------------------------------ scheduling
fn word_wait(w: &AtomicU32) {
    while w.swap(0, SeqCst) == 0 {
        unsafe { sc(libc::SYS_futex, w as *const _ as usize, 0x80, 0, 0, 0, 0) };
    }
}
fn word_set(w: &AtomicU32) {
    w.store(1, SeqCst);
    unsafe { sc(libc::SYS_futex, w as *const _ as usize, 0x81, 1, 0, 0, 0) };
}

#[inline(never)]
fn switch_to(to: usize) {
    let s = sim();
    let me = s.cur;
    s.cur = to;
    if to == me {
        return;
    }
    s.switches += 1;
    for x in [me as u64, to as u64, s.steps, s.fine_total] {
        s.sched_digest = (s.sched_digest ^ x).wrapping_mul(0x100000001b3);
    }
    let steps = s.steps as i64;
    s.note("switch-to-task", &format!("{to}"), steps);
    let (mine, theirs): (*const AtomicU32, *const AtomicU32) = (&s.tasks[me].word, &s.tasks[to].word);
    unsafe {
        word_set(&*theirs);
        word_wait(&*mine);
    }
}

#[inline(never)]
fn step() {
    let s = sim();
    s.steps += 1;
    s.clock_ns += 100;
    if s.steps > s.budget {
        die(EXIT_BUDGET);
    }
    if s.running {
        if let Some(&(gap, c)) = s.preempts.get(s.next_pre) {
            if c & INNER == 0 && s.steps - s.pre_base >= gap {
                let to = s.pick().unwrap_or(s.cur);
                s.next_switch();
                switch_to(to);
            }
        } else if s.adopted > 0 && splitmix(s.hash_seed ^ s.steps << 1) % 97 == 0 {
            // nobody planned for these threads
            let to = s.pick().unwrap_or(s.cur);
            switch_to(to);
        }
    }
}

/// Switches inside computation: the crate under test is compiled with a call to the functions
/// below at every basic block, load and store (SanitizerCoverage). The gap of such a switch counts
/// FINE: all of them; SITE: those at a drawn class of code places, so that rarely executed code is
/// hit as often as hot loops; GLOB: accesses to static memory.
pub const FINE: u64 = 1 << 32;
pub const SITE: u64 = 1 << 33;
pub const GLOB: u64 = 1 << 34;
const INNER: u64 = FINE | SITE | GLOB;
static FINE_NOW: AtomicU32 = AtomicU32::new(0);
impl Sim {
    fn next_switch(&mut self) {
        self.next_pre += 1;
        self.pre_base = self.steps;
        self.fine_steps = 0;
        self.aim();
    }
    /// Are inner steps counted now?
    fn aim(&self) {
        let fine = self.counting || self.running && self.preempts.get(self.next_pre).map_or(false, |p| p.1 & INNER != 0);
        FINE_NOW.store(fine as u32, SeqCst);
    }
}
/// From now on the library's own computation is counted, too.
pub fn count_work() {
    let s = sim();
    s.counting = true;
    s.aim();
}
/// Eight times what the library has done so far: basic blocks, loads and stores, calls to its environment, bytes allocated.
pub fn work() -> u64 {
    let s = sim();
    8 * s.fine_total + 64 * s.steps + TAKEN.load(Relaxed) as u64
}
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
#[cold]
#[inline(never)]
extern "C" fn inner_step(pc: usize, addr: usize) {
    if let Some(_h) = Hook::enter() {
        let s = sim();
        s.fine_total += 1;
        if let Some(&(gap, c)) = s.preempts.get(s.next_pre) {
            let counts = if c & SITE != 0 {
                let place = (pc as u64).wrapping_sub(inner_step as *const () as u64) ^ s.site_salt;
                (place.wrapping_mul(0x9e3779b97f4a7c15) >> 32) % s.site_mod.max(1) == 0
            } else if c & GLOB != 0 {
                (std::ptr::addr_of!(__data_start) as usize..std::ptr::addr_of!(_end) as usize).contains(&addr)
            } else {
                c & FINE != 0
            };
            s.fine_steps += counts as u64;
            if s.running && counts && s.fine_steps >= gap {
                let to = s.pick().unwrap_or(s.cur);
                s.fine_switches += (to != s.cur) as u64;
                s.next_switch();
                switch_to(to);
            }
        }
    }
}
macro_rules! inner_points {
    ($($f:ident)*) => { $(
        #[no_mangle]
        #[unsafe(naked)]
        pub extern "C" fn $f(_addr: usize) {
            core::arch::naked_asm!(
                "cmp dword ptr [rip + {now}], 0",
                "jne 2f",
                "ret",
                "2:",
                "mov rsi, rdi",
                "mov rdi, [rsp]",
                "jmp {step}",
                now = sym FINE_NOW,
                step = sym inner_step,
            )
        }
    )* };
}
inner_points! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
#[no_mangle]
#[unsafe(naked)]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    core::arch::naked_asm!(
        "cmp dword ptr [rip + {now}], 0",
        "jne 2f",
        "ret",
        "2:",
        "xor esi, esi",
        "mov rdi, [rsp]",
        "jmp {step}",
        now = sym FINE_NOW,
        step = sym inner_step,
    )
}

/// Runs the tasks as real threads, one at a time, until all are done.
pub fn run_tasks(tasks: Vec<Box<dyn FnOnce() + Send>>) {
    assert_eq!(tasks.len(), sim().planned);
    sim().tasks.iter_mut().take(tasks.len()).for_each(|t| t.st = St::Ready);
    ALL_DONE.store(0, SeqCst);
    let handles: Vec<_> = tasks
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    word_wait(&sim().tasks[i].word);
                    TID.with(|t| t.set(i + 1));
                    f();
                    // No thread ends before all are done: thread-local destructors (which give
                    // back slots of shared lists) must not run beside another task.
                    finish(i);
                    while ALL_DONE.load(SeqCst) == 0 {
                        unsafe { sc(libc::SYS_futex, ALL_DONE.as_ptr() as usize, 0x80, 0, 0, 0, 0) };
                    }
                })
                .unwrap()
        })
        .collect();
    let s = sim();
    let first = s.pick().unwrap_or(0);
    s.cur = first;
    s.running = s.tasks.len() > 1;
    s.pre_base = s.steps;
    s.aim();
    word_set(&s.tasks[first].word);
    for h in handles {
        if h.join().is_err() {
            die(EXIT_HARNESS);
        }
    }
    let s = sim();
    s.cur = 0;
    s.tasks[0].st = St::Ready;
    s.running = s.tasks.iter().skip(1).any(|t| t.st != St::Done);
    s.aim();
}
fn finish(me: usize) {
    let s = sim();
    s.tasks[me].st = St::Done;
    s.wake(s.tasks[me].word.as_ptr() as usize, usize::MAX);
    if me < s.planned && s.tasks[..s.planned].iter().all(|t| t.st == St::Done) {
        ALL_DONE.store(1, SeqCst);
        unsafe { sc(libc::SYS_futex, ALL_DONE.as_ptr() as usize, 0x81, i32::MAX as usize, 0, 0, 0) };
    } else if !hand_over() {
        die(EXIT_DEADLOCK);
    }
}

// Threads the library starts itself become tasks of the simulation, too.
struct Birth {
    run: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    task: usize,
    word: *const AtomicU32,
}
type Create = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
type Join = unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int;
extern "C" {
    fn __cxa_thread_atexit_impl(f: unsafe extern "C" fn(*mut c_void), arg: *mut c_void, dso: *mut c_void) -> c_int;
}
extern "C" fn child(p: *mut c_void) -> *mut c_void {
    INHOOK.with(|h| h.set(true));
    let (run, arg) = unsafe {
        let b = Box::from_raw(p as *mut Birth);
        // registered first, hence run last: the token is kept until all thread-local values are gone
        __cxa_thread_atexit_impl(child_end, b.task as *mut c_void, std::ptr::addr_of!(ALL_DONE) as *mut c_void);
        word_wait(&*b.word);
        TID.with(|t| t.set(b.task + 1));
        INLIB.with(|t| t.set(1));
        (b.run, b.arg)
    };
    INHOOK.with(|h| h.set(false));
    run(arg)
}
unsafe extern "C" fn child_end(task: *mut c_void) {
    INHOOK.with(|h| h.set(true));
    TID.with(|t| t.set(0));
    finish(task as usize);
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, run: extern "C" fn(*mut c_void) -> *mut c_void, arg: *mut c_void) -> c_int {
    let real: Create = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()));
    if let Some(_h) = Hook::enter() {
        let s = sim();
        let task = s.tasks.len();
        s.tasks.push(Task::new(St::Ready));
        let b = Box::into_raw(Box::new(Birth { run, arg, task, word: &s.tasks[task].word }));
        let r = real(t, attr, child, b as *mut c_void);
        if r != 0 {
            drop(Box::from_raw(b));
            s.tasks.pop();
            return r;
        }
        s.threads.push((*t as usize, task));
        s.adopted += 1;
        s.running = true;
        s.aim();
        s.note("start-task", &format!("{task}"), 0);
        step();
        return 0;
    }
    real(t, attr, run, arg)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let real: Join = std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr()));
    if let Some(_h) = Hook::enter() {
        if let Some(i) = sim().threads.iter().position(|x| x.0 == t as usize) {
            let (_, task) = sim().threads.remove(i);
            step();
            while sim().tasks[task].st != St::Done {
                let s = sim();
                let me = s.cur;
                s.tasks[me].st = St::Blocked(s.tasks[task].word.as_ptr() as usize, None);
                if !hand_over() {
                    die(EXIT_DEADLOCK);
                }
                let w: *const AtomicU32 = &sim().tasks[me].word;
                word_wait(&*w);
                sim().tasks[me].st = St::Ready;
            }
        }
    }
    real(t, out)
}

/// Gives the token to some other ready task (or to the earliest timer).
#[inline(never)]
fn hand_over() -> bool {
    let s = sim();
    let to = match s.pick() {
        Some(t) => t,
        None => {
            let t = (0..s.tasks.len())
                .filter_map(|i| match s.tasks[i].st {
                    St::Blocked(_, Some(d)) => Some((d, i)),
                    _ => None,
                })
                .min();
            match t {
                Some((d, i)) => {
                    s.clock_ns = s.clock_ns.max(d);
                    s.tasks[i].st = St::TimedOut;
                    i
                }
                None => return false,
            }
        }
    };
    for x in [s.cur as u64, to as u64, s.steps] {
        s.sched_digest = (s.sched_digest ^ x).wrapping_mul(0x100000001b3);
    }
    s.cur = to;
    s.switches += 1;
    let steps = s.steps as i64;
    s.note("hand-over-to-task", &format!("{to}"), steps);
    let w: *const AtomicU32 = &s.tasks[to].word;
    unsafe { word_set(&*w) };
    true
}

unsafe fn futex(addr: usize, op: usize, val: usize, timeout: usize, bitset_abs: bool) -> isize {
    let s = sim();
    match op & 0x7f {
        0 | 9 => {
            if (*(addr as *const AtomicU32)).load(SeqCst) != val as u32 {
                return err(libc::EAGAIN);
            }
            let deadline = if timeout != 0 {
                let ts = &*(timeout as *const timespec);
                let ns = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                Some(if bitset_abs { ns } else { s.clock_ns + ns })
            } else {
                None
            };
            s.futex_blocks += 1;
            let me = s.cur;
            s.tasks[me].st = St::Blocked(addr, deadline);
            if !hand_over() {
                die(EXIT_DEADLOCK);
            }
            let w: *const AtomicU32 = &sim().tasks[me].word;
            word_wait(&*w);
            let s = sim();
            let timed_out = s.tasks[me].st == St::TimedOut;
            s.tasks[me].st = St::Ready;
            if timed_out {
                return err(libc::ETIMEDOUT);
            }
            0
        }
        _ => {
            s.wake(addr, val)
        }
    }
}

// ------------------------------------------------------------------ interposed libc
unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let h = Hook::enter();
    let mut tracked = None;
    if h.is_some() {
        if let Some(pid) = sim().path_id(CStr::from_ptr(path).to_bytes()) {
            step();
            let s = sim();
            s.io_ops += 1;
            let op = if flags & libc::O_CREAT != 0 { Op::Create } else { Op::Open };
            let name = s.paths[pid].clone();
            match s.fault(pid, op) {
                Some(Act::Err(e)) | Some(Act::Sticky(e)) => {
                    s.note("open!", &name, e as i64);
                    return err(e) as c_int;
                }
                Some(Act::Stall(n)) => s.clock_ns += n,
                Some(Act::Kill(_)) => die(EXIT_KILLED),
                _ => {}
            }
            tracked = Some(pid);
        } else if flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_RDWR) != 0 && !CStr::from_ptr(path).to_bytes().starts_with(b"/dev/") {
            // nothing outside the scratch directory may be changed
            let p = CStr::from_ptr(path).to_string_lossy().into_owned();
            sim().touch("opens for writing", &p);
            return err(libc::EACCES) as c_int;
        }
    }
    let r = fix(sc(libc::SYS_openat, dirfd as isize as usize, path as usize, flags as usize, mode as usize, 0, 0));
    if let (Some(pid), Some(_h)) = (tracked, h) {
        let s = sim();
        let name = s.paths[pid].clone();
        s.note("open", &name, (r >= 0) as i64);
        if r >= 0 && flags & (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_RDWR) != 0 {
            s.touch(if flags & libc::O_TRUNC != 0 { "truncates" } else { "opens for writing" }, &name);
        }
        if r >= 0 && (r as usize) < s.fds.len() {
            s.fds[r as usize] = pid + 1;
            s.open_tracked += 1;
        }
    }
    r as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(d, path, flags, mode)
}

/// What an intercepted read may do: Err(errno) or a transfer limit.
unsafe fn read_gate(fd: c_int, n: usize) -> Result<usize, i32> {
    let Some(_h) = Hook::enter() else { return Ok(n) };
    let s = sim();
    let pid = match s.fds.get(fd as usize) {
        Some(&p) if p > 0 => p - 1,
        _ => return Ok(n),
    };
    step();
    let s = sim();
    s.io_ops += 1;
    let name = s.paths[pid].clone();
    let mut lim = n;
    match s.fault(pid, Op::Read) {
        Some(Act::Err(e)) | Some(Act::Sticky(e)) => {
            s.note("read!", &name, e as i64);
            return Err(e);
        }
        Some(Act::Short(k)) => lim = lim.min(k.max(1)),
        Some(Act::Stall(t)) => s.clock_ns += t,
        Some(Act::Eof) => {
            s.note("read-eof!", &name, 0);
            return Ok(0);
        }
        Some(Act::Kill(_)) => die(EXIT_KILLED),
        None => {}
    }
    if !s.chunks.is_empty() {
        let c = s.chunks[s.chunk_pos % s.chunks.len()];
        s.chunk_pos += 1;
        if c == -1 {
            if s.eintr_run < 3 {
                s.eintr_run += 1;
                s.fire("Read:errnoEINTR");
                return Err(libc::EINTR);
            }
        } else if c > 0 && (c as usize) < lim {
            s.fire("Read:short");
            lim = c as usize;
        }
        s.eintr_run = 0;
    }
    s.note("read", &name, lim as i64);
    Ok(lim)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match read_gate(fd, n) {
        Err(e) => err(e),
        Ok(l) => fix(sc(libc::SYS_read, fd as usize, buf as usize, l, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    match read_gate(fd, n) {
        Err(e) => err(e),
        Ok(l) => fix(sc(libc::SYS_pread64, fd as usize, buf as usize, l, off as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if in_sim() && cnt > 0 {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
    }
    fix(sc(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
unsafe fn write_gate(fd: c_int, buf: *const c_void, n: usize) -> Result<usize, i32> {
    let Some(_h) = Hook::enter() else { return Ok(n) };
    let s = sim();
    let pid = match s.fds.get(fd as usize) {
        Some(&p) if p > 0 => p - 1,
        _ => {
            if fd == 1 {
                s.touch("writes to", "standard output");
            }
            return Ok(n);
        }
    };
    step();
    let s = sim();
    s.io_ops += 1;
    let name = s.paths[pid].clone();
    let mut lim = n;
    match s.fault(pid, Op::Write) {
        Some(Act::Err(e)) | Some(Act::Sticky(e)) => {
            s.note("write!", &name, e as i64);
            return Err(e);
        }
        Some(Act::Short(k)) => lim = lim.min(k.max(1)),
        Some(Act::Stall(t)) => s.clock_ns += t,
        Some(Act::Kill(k)) => {
            sc(libc::SYS_write, fd as usize, buf as usize, k.min(n), 0, 0, 0);
            die(EXIT_KILLED)
        }
        _ => {}
    }
    if !s.wchunks.is_empty() {
        let c = s.wchunks[s.wchunk_pos % s.wchunks.len()];
        s.wchunk_pos += 1;
        if c == -1 {
            if s.eintr_run < 3 {
                s.eintr_run += 1;
                s.fire("Write:errnoEINTR");
                return Err(libc::EINTR);
            }
        } else if c > 0 && (c as usize) < lim {
            s.fire("Write:short");
            lim = c as usize;
        }
        s.eintr_run = 0;
    }
    s.note("write", &name, lim as i64);
    Ok(lim)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match write_gate(fd, buf, n) {
        Err(e) => err(e),
        // what is drawn on a simulated terminal goes nowhere
        Ok(l) if (fd == 1 || fd == 2) && in_sim() && sim().tty => {
            sim().fire("terminal:drawn");
            l as ssize_t
        }
        Ok(l) => fix(sc(libc::SYS_write, fd as usize, buf as usize, l, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, cnt: c_int) -> ssize_t {
    if in_sim() && cnt > 0 {
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 {
                return write(fd, v.iov_base, v.iov_len);
            }
        }
    }
    fix(sc(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(_h) = Hook::enter() {
        let s = sim();
        if let Some(p) = s.fds.get(fd as usize).copied() {
            if p > 0 {
                step();
                let s = sim();
                s.fds[fd as usize] = 0;
                s.open_tracked -= 1;
                let name = s.paths[p - 1].clone();
                s.note("close", &name, 0);
            }
        }
    }
    fix(sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    if let Some(_h) = Hook::enter() {
        let s = sim();
        if let Some(pid) = s.path_id(CStr::from_ptr(path).to_bytes()) {
            step();
            let s = sim();
            s.io_ops += 1;
            let name = s.paths[pid].clone();
            match s.fault(pid, Op::Mkdir) {
                Some(Act::Err(e)) | Some(Act::Sticky(e)) => {
                    s.note("mkdir!", &name, e as i64);
                    return err(e) as c_int;
                }
                Some(Act::Kill(_)) => die(EXIT_KILLED),
                _ => {}
            }
            s.note("mkdir", &name, 0);
            let r = fix(sc(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0)) as c_int;
            if r == 0 {
                sim().touch("makes the directory", &name);
            }
            return r;
        }
        let p = CStr::from_ptr(path).to_string_lossy().into_owned();
        if sc(libc::SYS_access, path as usize, libc::F_OK as usize, 0, 0, 0, 0) != 0 {
            s.touch("makes the directory", &p);
            return err(libc::EACCES) as c_int;
        }
    }
    fix(sc(libc::SYS_mkdir, path as usize, mode as usize, 0, 0, 0, 0)) as c_int
}
/// The library removes, renames, links or changes the named file: noted, refused outside the scratch directory.
unsafe fn change(what: &'static str, path: *const c_char) -> Result<(), c_int> {
    if let Some(_h) = Hook::enter() {
        let s = sim();
        match s.path_id(CStr::from_ptr(path).to_bytes()) {
            Some(pid) => {
                step();
                let s = sim();
                s.io_ops += 1;
                let name = s.paths[pid].clone();
                s.note(what, &name, 0);
                s.touch(what, &name);
            }
            None => {
                let p = CStr::from_ptr(path).to_string_lossy().into_owned();
                s.touch(what, &p);
                return Err(err(libc::EACCES) as c_int);
            }
        }
    }
    Ok(())
}
macro_rules! changing {
    ($what:literal, $f:ident, $nr:expr, [$($a:ident: $t:ty),*], $at:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $f($($a: $t),*) -> c_int {
            if let Err(e) = change($what, $at) {
                return e;
            }
            let mut v = [0usize; 5].into_iter();
            $(let $a = $a as isize as usize;)*
            let mut args = [$($a),*].into_iter().chain(&mut v);
            let mut n = || args.next().unwrap();
            let (a, b, c, d, e) = (n(), n(), n(), n(), n());
            fix(sc($nr, a, b, c, d, e, 0)) as c_int
        }
    };
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if in_sim() && (fd == 1 || fd == 2) && sim().tty {
        return 1;
    }
    let mut t = [0u8; 256];
    (fix(sc(libc::SYS_ioctl, fd as usize, libc::TCGETS as usize, t.as_mut_ptr() as usize, 0, 0, 0)) == 0) as c_int
}
changing!("removes", unlink, libc::SYS_unlink, [p: *const c_char], p);
changing!("removes", unlinkat, libc::SYS_unlinkat, [d: c_int, p: *const c_char, f: c_int], p);
changing!("removes", rmdir, libc::SYS_rmdir, [p: *const c_char], p);
changing!("renames", rename, libc::SYS_rename, [p: *const c_char, q: *const c_char], p);
changing!("links", link, libc::SYS_link, [q: *const c_char, p: *const c_char], p);
changing!("links", symlink, libc::SYS_symlink, [q: *const c_char, p: *const c_char], p);
changing!("truncates", truncate64, libc::SYS_truncate, [p: *const c_char, n: i64], p);
changing!("changes the mode of", chmod, libc::SYS_chmod, [p: *const c_char, m: mode_t], p);
fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
unsafe fn fill_random(s: &mut Sim, buf: *mut u8, n: usize) {
    for i in 0..n {
        if i % 8 == 0 {
            s.hash_ctr += 1;
        }
        let v = splitmix(s.hash_seed.wrapping_add(s.hash_ctr.wrapping_mul(0xD1342543DE82EF95)));
        *buf.add(i) = (v >> (8 * (i % 8))) as u8;
    }
    s.fire("entropy:served");
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if let Some(_h) = Hook::enter() {
        let s = sim();
        fill_random(s, buf as *mut u8, n);
        return n as ssize_t;
    }
    fix(sc(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if let Some(_h) = Hook::enter() {
        let s = sim();
        s.clock_ns += 50;
        (*ts).tv_sec = (s.clock_ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (s.clock_ns % 1_000_000_000) as i64;
        s.fire("clock:served");
        return 0;
    }
    fix(sc(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}
unsafe fn do_sleep(req: *const timespec, abs: bool) -> bool {
    if let Some(_h) = Hook::enter() {
        let s = sim();
        let ns = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let wake = if abs { ns } else { s.clock_ns + ns };
        s.fire("sleep:simulated");
        if s.running {
            // the others go on; time passes when none of them can
            let me = s.cur;
            s.tasks[me].st = St::Blocked(0, Some(wake));
            hand_over();
            let w: *const AtomicU32 = &sim().tasks[me].word;
            word_wait(&*w);
            sim().tasks[me].st = St::Ready;
        } else {
            s.clock_ns = s.clock_ns.max(wake);
        }
        step();
        return true;
    }
    false
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if do_sleep(req, false) {
        return 0;
    }
    fix(sc(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if do_sleep(req, flags & libc::TIMER_ABSTIME != 0) {
        return 0;
    }
    -sc(libc::SYS_clock_nanosleep, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(_h) = Hook::enter() {
        step();
        let s = sim();
        if s.running {
            let r = s.ready();
            let me = s.cur;
            if let Some(&to) = r.iter().find(|&&t| t > me).or(r.iter().find(|&&t| t != me)) {
                switch_to(to);
            }
        }
        return 0;
    }
    fix(sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
/// `syscall(2)` is variadic; on x86-64 its integer arguments arrive exactly like these.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        if let Some(_h) = Hook::enter() {
            if sim().running {
                step();
                let op = b & 0x7f;
                let r = futex(a, b, c & 0xffff_ffff, if op == 0 || op == 9 { d } else { 0 }, op == 9);
                if op != 0 && op != 9 {
                    sc(n, a, b, c, d, e, f); // threads outside the simulation, if any
                }
                return r as c_long;
            }
        }
    } else if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    }
    fix(sc(n, a, b, c, d, e, f)) as c_long
}

// ------------------------------------------------------------------ allocator seam
pub struct SimAlloc;
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

/// Bytes handed out and not yet given back, the simulator's own state left out.
static LIVE: AtomicI64 = AtomicI64::new(0);
pub fn live() -> i64 {
    LIVE.load(Relaxed)
}
/// Bytes ever handed out.
static TAKEN: AtomicI64 = AtomicI64::new(0);
fn account(n: i64) {
    if !INHOOK.try_with(|h| h.get()).unwrap_or(true) {
        LIVE.fetch_add(n, Relaxed);
        if n > 0 {
            TAKEN.fetch_add(n, Relaxed);
        }
    }
}
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        self.get(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        self.give(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        account(new as i64 - l.size() as i64);
        self.resize(p, l, new)
    }
}
impl SimAlloc {
    unsafe fn get(&self, l: Layout) -> *mut u8 {
        if let Some(_h) = Hook::enter() {
            step();
            let s = sim();
            if s.misalign && l.align() == 1 && l.size() >= 64 {
                // Legal: a byte buffer needs no alignment.
                let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, 16));
                if !p.is_null() {
                    s.fire("alloc:misaligned");
                    return p.add(1);
                }
            }
        }
        System.alloc(l)
    }
    unsafe fn give(&self, p: *mut u8, l: Layout) {
        if l.align() == 1 && (p as usize) & 15 == 1 {
            return System.dealloc(p.sub(1), Layout::from_size_align_unchecked(l.size() + 16, 16));
        }
        System.dealloc(p, l)
    }
    unsafe fn resize(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if l.align() == 1 && (p as usize) & 15 == 1 {
            let q = self.get(Layout::from_size_align_unchecked(new, 1));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.give(p, l);
            }
            return q;
        }
        if let Some(_h) = Hook::enter() {
            step();
            let s = sim();
            if s.misalign && l.align() == 1 && new >= 64 {
                drop(_h);
                let q = self.get(Layout::from_size_align_unchecked(new, 1));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                    System.dealloc(p, l);
                }
                return q;
            }
        }
        System.realloc(p, l, new)
    }
}
