//! C13: several evaluation sessions in threads of one process, scheduled by the simulator.
use super::world::*;
use crate::choice::Src;
use crate::ensure;
use crate::gen::*;
use crate::model;
use crate::runner::{fail, lib_ok, Ctx, Fail, ProcEnd, Prop, Res};
use crate::sys::{self, Act, Fault, Op, FINE, GLOB, SITE};
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::nuscenes::NuScenes;
use perception_eval::manager::PerceptionEvaluationManager;
use serde_json::{json, Value};
use std::sync::Mutex;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        run: c13,
        quick: 18000,
        thorough: 504000,
        rule: "a run is non-trivial when at least two threads finished and at least one switch between them happened; distinct = distinct digest of all seam events including every switch",
        real: "whole sessions (scenario, dataset, lookup, matching, scoring, logging) in real threads, log4rs, parking_lot, arc-swap, std synchronisation",
        stub: "thread scheduling (one thread at a time, switched at allocations, I/O, futex calls and yields by the simulator), kernel file I/O results, entropy, clock",
    }]
}

/// Harness data handed to the simulated threads, which run one at a time.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

struct Session {
    w: World,
    res: String,
    msgs: Vec<Message>,
    lookups: Vec<i64>,
    rounds: usize,
    doomed: bool,
}

/// Everything one session does and everything it sees.
fn live(x: &Session) -> Result<Value, Fail> {
    let mut out = vec![];
    for k in 0..x.rounds {
        let c = match lib_ok("loading the scenario", || PerceptionEvaluationConfig::from(&x.w.scn_path, &x.res, k % 2 == 1))? {
            Ok(c) => c,
            Err(e) => return fail("config-refused", format!("a well-formed scenario was refused: {e}")),
        };
        out.push(json!([
            c.version,
            c.dataset_path.display().to_string(),
            format!("{:?} {:?}", c.evaluation_task, c.frame_id),
            c.result_dir.display().to_string(),
            c.log_dir.display().to_string(),
            c.viz_dir.display().to_string(),
            c.load_raw_data
        ]));
        let mut m = match lib_ok("creating the evaluation", || PerceptionEvaluationManager::from(&c).map_err(|e| e.to_string()))? {
            Ok(m) => m,
            Err(_) if x.doomed => return Ok(json!("refused")),
            Err(e) => return fail("dataset-refused", format!("an intact dataset was refused: {e}")),
        };
        out.push(json!(gt_dump(&m.frame_ground_truths)));
        for (i, msg) in x.msgs.iter().enumerate() {
            add(&mut m, &msg.dets, &msg.gt)?;
            if let Some(t) = x.lookups.get(i) {
                let f = lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(*t)))?;
                out.push(json!(f.map(|f| gt_dump(&[f]))));
            }
            if i % 2 == k % 2 {
                out.push(json!(report(&m)?));
            }
        }
        out.push(json!(history_dump(&m)));
        out.push(json!(report(&m)?));
    }
    Ok(json!(out))
}
/// When to switch to which thread.
#[derive(Clone, Debug, Default)]
pub struct Switches {
    list: Vec<(u64, u64)>,
    salt: u64,
    modulus: u64,
}
impl Switches {
    pub fn into(self, sim: &mut sys::Sim) {
        sim.preempts = self.list;
        sim.site_salt = self.salt;
        sim.site_mod = self.modulus;
    }
    pub fn text(&self) -> String {
        let one = |&(gap, c): &(u64, u64)| {
            let unit = match c >> 32 {
                0 => "",
                1 => " fine",
                2 => " places",
                _ => " static accesses",
            };
            format!("{gap}{unit}->{}", c & 0xff)
        };
        format!("switches after [{}], places 1/{} salt {:x}", self.list.iter().map(one).collect::<Vec<_>>().join(", "), self.modulus, self.salt)
    }
}
/// Gaps of very different length, so that some runs interleave finely and some coarsely; counted in
/// calls of the library to its environment or in steps of its computation (see sys::FINE).
pub fn preempts(s: &mut Src, max: i64) -> Switches {
    let n = s.range(0, max);
    let scale = *s.pick(&[200u64, 2000, 60, 20, 20000, 3]);
    let kinds: &[u64] = match s.weighted(&[6, 2, 4, 2, 2]) {
        0 => &[0],
        1 => &[FINE],
        2 => &[SITE],
        3 => &[GLOB],
        _ => &[0, FINE, SITE, GLOB],
    };
    let fscale = *s.pick(&[300u64, 10, 3000, 30000, 100000]);
    let sscale = *s.pick(&[2u64, 8, 1, 64]);
    let (salt, modulus) = if kinds == [0] { (0, 1) } else { (s.draw(1 << 40), *s.pick(&[300u64, 64, 1000, 3000])) };
    let list = (0..n)
        .map(|_| {
            let kind = *s.pick(kinds);
            let far = match kind {
                0 if s.chance(1, 8) => 30000,
                0 => scale,
                FINE if s.chance(1, 8) => 300000,
                FINE => fscale,
                _ => sscale,
            };
            (1 + s.draw(far), s.draw(6) | kind)
        })
        .collect();
    Switches { list, salt, modulus }
}
pub fn first_diff(a: &Value, b: &Value) -> String {
    let (a, b) = (a.to_string(), b.to_string());
    let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |t: &str| String::from_utf8_lossy(&t.as_bytes()[at.saturating_sub(60)..t.len().min(at + 100)]).into_owned();
    format!("...{} | ...{}", cut(&a), cut(&b))
}
fn session(cx: &mut Ctx, i: usize) -> Session {
    let w = world(cx, &format!("ds{i}"), &DsOpts { scenes: 1, samples: 3, insts: 2, ..small_ds() });
    let mut g = ObjGen::new(&mut cx.src, &w.p);
    g.scale = false;
    let base = w.d.samples.first().map(|s| s.ts).unwrap_or(1_600_000_000_000_000);
    let f: Vec<_> = (0..2).map(|k| g.frame(&mut cx.src, base + k * 100_000)).collect();
    let msgs = stream(cx, &mut g, &f, 2);
    let lookups = msgs.iter().map(|m| m.sent.max(0)).collect();
    let rounds = 1 + cx.src.weighted(&[4, 1]);
    Session { w, res: format!("{}/res{i}", cx.dir), msgs, lookups, rounds, doomed: false }
}

fn c13(cx: &mut Ctx) -> Res {
    if cx.src.chance(1, 3) {
        return shared(cx);
    }
    let n = cx.src.range(2, 3) as usize;
    let mut ss: Vec<Session> = vec![];
    for i in 0..n {
        ss.push(session(cx, i));
    }
    let s = &mut cx.src;
    if s.chance(1, 5) {
        // two sessions log into one result directory
        ss[1].res = ss[0].res.clone();
    }
    if s.chance(1, 5) {
        // the same scenario and dataset in two sessions, other messages
        let (a, b) = ss.split_at_mut(1);
        b[0].w.scn_path = a[0].w.scn_path.clone();
        b[0].w.scn = a[0].w.scn.clone();
    }
    let mut faults = vec![];
    if s.chance(1, 5) && ss[n - 1].w.scn_path != ss[0].w.scn_path {
        // one session's disk fails; the others must not notice
        let t = s.pick(&TABLES).to_string();
        let path = format!("ds{}/annotation/{t}.json", n - 1);
        faults.push(Fault { path, op: if s.chance(1, 2) { Op::Open } else { Op::Read }, nth: 0, act: Act::Sticky(*s.pick(&[libc::EIO, libc::ESTALE])) });
        ss[n - 1].doomed = true;
    }
    let env = Env::draw(s);
    let pre = preempts(s, if cx.thorough { 120 } else { 40 });
    cx.tell(format!("{n} sessions; {}; faults {faults:?}; {}", env.text(), pre.text()));
    let mut alone = vec![];
    for x in &ss {
        let mut sim = Env::calm().sim(1, "none");
        if x.doomed {
            sim.faults = faults.clone();
        }
        match cx.process(sim, move |_| live(x))? {
            ProcEnd::Done(v) => alone.push(v),
            ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
        }
    }
    let mut sim = env.sim(n, "ds0/annotation");
    sim.faults.extend(faults);
    pre.into(&mut sim);
    let got = together(cx, sim, &ss)?;
    for i in 0..n {
        ensure!(got[i] == alone[i], "interference", "session {i} beside {} other(s) differs from the same session alone: {}", n - 1, first_diff(&alone[i], &got[i]));
        cx.count("sessions compared", 1);
    }
    cx.mixin(got.to_string().as_bytes());
    cx.st.nontrivial = cx.st.switches > 0;
    Ok(())
}
fn collect(out: &Mutex<Vec<Option<Result<Value, Fail>>>>) -> Result<Value, Fail> {
    let mut vals = vec![];
    for (i, r) in std::mem::take(&mut *out.lock().unwrap()).into_iter().enumerate() {
        match r {
            Some(Ok(v)) => vals.push(v),
            Some(Err(f)) => return fail(&f.kind, format!("thread {i}: {}", f.msg)),
            None => panic!("thread {i} gave nothing"),
        }
    }
    Ok(json!(vals))
}
pub type Job<'a> = Box<dyn Fn() -> Result<Value, Fail> + 'a>;
/// Runs the jobs as simulated threads; the simulator of this process is already armed.
pub fn threads(jobs: Vec<Job>) -> Result<Value, Fail> {
    let out: Mutex<Vec<Option<Result<Value, Fail>>>> = Mutex::new((0..jobs.len()).map(|_| None).collect());
    let share = Share((jobs, out));
    let p: &'static Share<(Vec<Job<'static>>, Mutex<Vec<Option<Result<Value, Fail>>>>)> = unsafe { std::mem::transmute(&share) };
    let tasks: Vec<Box<dyn FnOnce() + Send>> = (0..share.get().0.len())
        .map(|i| {
            Box::new(move || {
                let r = (p.get().0[i])();
                p.get().1.lock().unwrap()[i] = Some(r);
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sys::run_tasks(tasks);
    collect(&share.get().1)
}
fn together(cx: &mut Ctx, sim: sys::Sim, ss: &[Session]) -> Result<Value, Fail> {
    match cx.process(sim, move |_| threads(ss.iter().map(|x| Box::new(move || live(x)) as Job).collect()))? {
        ProcEnd::Done(v) => Ok(v),
        ProcEnd::Killed => fail("killed", "killed without a kill in the plan"),
    }
}

/// Threads reading one loaded dataset and one evaluation at the same time.
fn shared(cx: &mut Ctx) -> Res {
    let x = session(cx, 0);
    let n = cx.src.range(2, 3) as usize;
    let s = &mut cx.src;
    let kinds: Vec<Vec<usize>> = (0..n).map(|_| (0..s.range(1, 3)).map(|_| s.below(4)).collect()).collect();
    let env = Env::draw(s);
    let pre = preempts(s, if cx.thorough { 120 } else { 40 });
    cx.tell(format!("{n} threads share one dataset and one evaluation, actions {kinds:?}; {}; {}", env.text(), pre.text()));
    let mut sim = env.sim(n, "ds0/annotation");
    pre.into(&mut sim);
    let (xr, kr) = (&x, &kinds);
    match cx.process(sim, move |_| {
        let c = xr.w.config()?;
        let ns = match lib_ok("loading the dataset", || NuScenes::load(&xr.w.scn.version, &xr.w.scn.ds_path).map_err(|e| e.to_string()))? {
            Ok(n) => n,
            Err(e) => return fail("dataset-refused", format!("an intact dataset was refused: {e}")),
        };
        let mut m = manager(&c)?;
        for msg in &xr.msgs {
            add(&mut m, &msg.dets, &msg.gt)?;
        }
        let rep = report(&m)?;
        let hist = history_dump(&m);
        let looks: Vec<_> = xr.lookups.iter().map(|t| m.get_frame_ground_truth(&when(*t)).map(|f| gt_dump(&[f]))).collect();
        let (mr, nr, d) = (&m, &ns, &xr.w.d);
        let (rep, hist, looks) = (&rep, &hist, &looks);
        let jobs: Vec<Job> = kr
            .iter()
            .map(|acts| {
                Box::new(move || {
                    for a in acts {
                        match a {
                            0 => {
                                let r = report(mr)?;
                                ensure!(r == *rep, "shared-report", "a score asked for by several threads differs");
                            }
                            1 => {
                                lib_ok("listing the records", || model::compare_loaded(nr, d))??;
                            }
                            2 => {
                                lib_ok("navigating", || model::navigate(nr, d))??;
                            }
                            _ => {
                                for (t, want) in xr.lookups.iter().zip(looks) {
                                    let f = lib_ok("looking up a frame", || mr.get_frame_ground_truth(&when(*t)))?;
                                    ensure!(f.map(|f| gt_dump(&[f])) == *want, "shared-lookup", "a lookup made by several threads differs");
                                }
                                let mut k = lib_ok("cloning", || mr.clone())?;
                                if let Some(msg) = xr.msgs.first() {
                                    add(&mut k, &msg.dets, &msg.gt)?;
                                    report(&k)?;
                                }
                            }
                        }
                    }
                    Ok(json!(acts.len()))
                }) as Job
            })
            .collect();
        let v = threads(jobs)?;
        ensure!(report(&m)? == *rep && history_dump(&m) == *hist, "shared-changed", "reading by several threads changed the evaluation");
        Ok(v)
    })? {
        ProcEnd::Done(v) => cx.mixin(v.to_string().as_bytes()),
        ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
    }
    cx.count("threads sharing", n as u64);
    cx.st.nontrivial = cx.st.switches > 0;
    Ok(())
}
