//! C22: a process that evaluates again and again gives back what each round took.
use super::world::*;
use crate::choice::Src;
use crate::ensure;
use crate::gen::*;
use crate::model;
use crate::runner::{fail, lib_ok, Ctx, ProcEnd, Prop, Res};
use crate::sys::{self, Act, Fault, Op};
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::nuscenes::{schema::SampleData, NuScenes, WithDataset};
use perception_eval::label::{convert_labels, Label, LabelConverter};
use perception_eval::manager::PerceptionEvaluationManager;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        run: c22,
        quick: 6000,
        thorough: 200000,
        rule: "a run is non-trivial when at least twelve rounds were measured; distinct = distinct digest of all seam events",
        real: "scenario and dataset loading, payload reading, box queries, matching, scoring, logging, all of them repeated in one process; the system allocator, the process's file descriptors and threads",
        stub: "kernel file I/O results, clock, entropy, buffer placement; the stream of messages",
    }]
}

#[derive(Clone, Debug)]
pub(super) enum Todo {
    /// a whole evaluation; messages, lookups and scores per round, repetitions of both, kept clones
    Session { scores: usize, asks: usize, raw: bool, clone: bool },
    /// loads the dataset, navigates, asks for every record's boxes
    Browse { compare: bool, asks: usize },
    /// reads the payloads, readable or not
    Payloads { raw: bool },
    /// converts label names, known and unknown
    Labels,
    /// asks for records the dataset does not hold
    Absent,
    /// loads the damaged dataset
    Damaged,
    /// an evaluation of the damaged dataset
    DamagedSession,
    /// a scenario the library refuses
    Refused(usize),
    /// an evaluation whose results cannot be stored
    Unwritable,
}

pub(super) struct Plan {
    pub(super) w: World,
    pub(super) msgs: Vec<Message>,
    pub(super) lookups: Vec<i64>,
    pub(super) bad_root: String,
    pub(super) bad_scn: String,
    pub(super) refused: Vec<String>,
    pub(super) full: String,
    pub(super) todo: Vec<Todo>,
    /// label names nobody knows
    names: Vec<String>,
    /// every round brings other messages
    pub(super) fresh: bool,
    /// microseconds from one lookup to its repetition
    pub(super) pace: i64,
}

/// What the process holds.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Held {
    bytes: i64,
    handles: usize,
    threads: usize,
}
fn entries(dir: &str) -> usize {
    std::fs::read_dir(dir).unwrap().count()
}
/// A joined thread stays listed for a moment.
fn threads() -> usize {
    let mut n = entries("/proc/self/task");
    for _ in 0..20 {
        if n == 1 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
        n = entries("/proc/self/task");
    }
    n
}
fn held() -> Held {
    Held { bytes: sys::live(), handles: entries("/proc/self/fd"), threads: threads() }
}
/// Growth must not go on: a cache may fill during the first half.
fn judge(what: &str, v: &[Held], d: &impl Fn() -> String) -> Res {
    let (a, b, c) = (v[1], v[v.len() / 2], v[v.len() - 1]);
    let n = v.len() - 1 - v.len() / 2;
    ensure!(c.handles <= b.handles || b.handles <= a.handles, "handles", "{what}: {} handles after 2 rounds, {} after {}, {} after {}, everything closed in between; {}", a.handles, b.handles, v.len() / 2 + 1, c.handles, v.len(), d());
    ensure!(c.threads <= b.threads || b.threads <= a.threads, "threads", "{what}: {} threads after 2 rounds, {} after {}, {} after {}", a.threads, b.threads, v.len() / 2 + 1, c.threads, v.len());
    ensure!(
        c.bytes <= b.bytes || b.bytes <= a.bytes,
        "memory",
        "{what}: {} bytes held after 2 rounds, {} more after {}, again {} more after {} further equal rounds, everything dropped in between; {}",
        a.bytes,
        b.bytes - a.bytes,
        v.len() / 2 + 1,
        c.bytes - b.bytes,
        n,
        d()
    );
    Ok(())
}

/// The next round's messages: other times and names, of the same length.
fn renew(x: &mut Plan, k: usize) {
    let object = |o: &mut perception_eval::object::object3d::DynamicObject, i: usize| {
        o.timestamp += chrono::Duration::microseconds(1_000_000);
        if let Some(u) = &mut o.uuid {
            if u.len() >= 4 && u.is_ascii() {
                let n = k * 31 + i;
                let at = u.len() - 4;
                // in place: the harness itself must not allocate between two measurements
                for (b, v) in unsafe { &mut u.as_bytes_mut()[at..] }.iter_mut().zip([n / 4096, n / 256, n / 16, n]) {
                    *b = b"0123456789abcdef"[v % 16];
                }
            }
        }
    };
    for m in &mut x.msgs {
        m.gt.timestamp += chrono::Duration::microseconds(1_000_000);
        m.dets.iter_mut().enumerate().for_each(|(i, o)| object(o, i));
        m.gt.objects.iter_mut().enumerate().for_each(|(i, o)| object(o, 100 + i));
    }
    x.lookups.iter_mut().for_each(|t| *t += 1);
    for (i, name) in x.names.iter_mut().enumerate() {
        let n = k * 31 + i;
        for (b, v) in unsafe { name.as_bytes_mut() }.iter_mut().rev().zip([n, n / 16, n / 256, n / 4096]) {
            *b = b"0123456789abcdef"[v % 16];
        }
    }
}

pub(super) fn one(x: &Plan, t: &Todo) -> Res {
    let load = |root: &str| lib_ok("loading the dataset", || NuScenes::load(&x.w.scn.version, root).map_err(|e| e.to_string()));
    let config = |path: &str, res: &str, raw: bool| lib_ok("loading the scenario", || PerceptionEvaluationConfig::from(path, res, raw).map_err(|e| e.to_string()));
    match t {
        Todo::Session { scores, asks, raw, clone } => {
            let c = match config(&x.w.scn_path, &x.w.result_dir, *raw)? {
                Ok(c) => c,
                Err(e) => return fail("config-refused", format!("a well-formed scenario was refused: {e}")),
            };
            let mut m = manager(&c)?;
            for msg in &x.msgs {
                add(&mut m, &msg.dets, &msg.gt)?;
            }
            let mut seen: Vec<Held> = Vec::with_capacity(scores.max(asks) + 1);
            for k in 0..*asks {
                for t in &x.lookups {
                    lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(*t + k as i64 * x.pace)).is_some())?;
                }
                seen.push(held());
            }
            if *asks >= 12 {
                judge("asking one evaluation for frames", &seen, &|| format!("{} frames asked for per round", x.lookups.len()))?;
            }
            seen.clear();
            for _ in 0..*scores {
                drop(report(&m)?);
                seen.push(held());
            }
            if *scores >= 12 {
                judge("scoring one evaluation", &seen, &|| format!("{} frames in the history", m.frame_results.len()))?;
            }
            if *clone {
                let k = lib_ok("cloning", || m.clone())?;
                drop(m);
                report(&k)?;
            }
        }
        Todo::Browse { compare, asks } => {
            let n = match load(&x.w.scn.ds_path)? {
                Ok(n) => n,
                Err(e) => return fail("dataset-refused", format!("an intact dataset was refused: {e}")),
            };
            if *compare {
                lib_ok("listing the records", || model::compare_loaded(&n, &x.w.d))??;
                lib_ok("navigating", || model::navigate(&n, &x.w.d))??;
            }
            let mut seen: Vec<Held> = Vec::with_capacity(asks + 1);
            for _ in 0..*asks {
                lib_ok("asking for boxes", || {
                    for d in n.sample_data_iter() {
                        for sensor in [false, true] {
                            let _ = n.get_sample_data(&d.token, &sensor).is_ok();
                        }
                        let _ = n.get_sample_data_path(&d.token).is_ok();
                    }
                })?;
                seen.push(held());
            }
            if *asks >= 12 {
                judge("asking one dataset for boxes", &seen, &|| format!("{} records", x.w.d.datas.len()))?;
            }
        }
        Todo::Payloads { raw } => {
            let n = match load(&x.w.scn.ds_path)? {
                Ok(n) => n,
                Err(e) => return fail("dataset-refused", format!("an intact dataset was refused: {e}")),
            };
            lib_ok("reading payloads", || {
                let read = |r: WithDataset<SampleData>| {
                    let a = r.open().is_ok();
                    let b = if *raw { r.load_raw().is_ok() } else { r.load().is_ok() };
                    (a, b)
                };
                n.sample_data_iter().map(read).filter(|p| p.0 != p.1).count()
            })?;
        }
        Todo::Labels => {
            lib_ok("converting labels", || {
                let n: Vec<&str> = x.names.iter().map(|n| n.as_str()).collect();
                match LabelConverter::new("autoware") {
                    Ok(c) => convert_labels(&n, &c).map(|v| v.len()).unwrap_or(0) + x.names.iter().filter(|n| c.convert(n) == Label::Unknown).count(),
                    Err(_) => 0,
                }
            })?;
        }
        Todo::Absent => {
            let n = match load(&x.w.scn.ds_path)? {
                Ok(n) => n,
                Err(e) => return fail("dataset-refused", format!("an intact dataset was refused: {e}")),
            };
            for k in 0..8u64 {
                let t: perception_eval::dataset::nuscenes::schema::LongToken = serde_json::from_value(json!(hx(0xabc0_0000_0000_0000_0000_0000_0000_0000 + k as u128))).unwrap();
                lib_ok("asking for an absent record", || n.get_sample_data(&t, &true).is_ok() as u32 + n.get_boxes(&t).is_ok() as u32)?;
            }
        }
        Todo::Damaged => drop(load(&x.bad_root)?.is_ok()),
        Todo::DamagedSession => {
            if let Ok(c) = config(&x.bad_scn, &x.w.result_dir, false)? {
                lib_ok("creating the evaluation", || PerceptionEvaluationManager::from(&c).is_ok())?;
            }
        }
        Todo::Refused(k) => drop(config(&x.refused[*k], &x.w.result_dir, false)?),
        Todo::Unwritable => drop(config(&x.w.scn_path, &x.full, false)?),
    }
    Ok(())
}

pub(super) fn plan(cx: &mut Ctx, s_faults: &mut Vec<Fault>) -> Plan {
    let w = world(cx, "ds", &DsOpts { scenes: 1, samples: 3, insts: 2, ..small_ds() });
    let mut g = ObjGen::new(&mut cx.src, &w.p);
    g.scale = false;
    let base = w.d.samples.first().map(|s| s.ts).unwrap_or(1_600_000_000_000_000);
    let f: Vec<_> = (0..2).map(|k| g.frame(&mut cx.src, base + k * 100_000)).collect();
    let msgs = stream(cx, &mut g, &f, 3);
    let s = &mut cx.src;
    let mut lookups: Vec<i64> = w.d.samples.iter().map(|x| x.ts).collect();
    lookups.extend(msgs.iter().map(|m| m.sent.max(0)));
    // some payloads are there, whole or torn
    for d in &w.d.datas {
        if s.chance(1, 2) {
            let p = std::path::Path::new(&w.scn.ds_path).join(&d.file);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, super::load::cloud(s.below(60), 7)).unwrap();
            if s.chance(1, 4) {
                std::fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(13).unwrap();
            }
        }
        if s.chance(1, 8) {
            s_faults.push(Fault { path: format!("ds/{}", d.file), op: if s.chance(1, 2) { Op::Open } else { Op::Read }, nth: 0, act: Act::Sticky(*s.pick(&[libc::EIO, libc::EACCES])) });
        }
    }
    // a second copy of the dataset that cannot be loaded
    let bad_root = format!("{}/bad", cx.dir);
    write_ds(&w.d, &Style::plain(), std::path::Path::new(&bad_root), "annotation");
    let table = s.pick(&TABLES).to_string();
    let path = format!("{bad_root}/annotation/{table}.json");
    match s.below(6) {
        0 => std::fs::remove_file(&path).unwrap(),
        1 => {
            let len = std::fs::metadata(&path).unwrap().len();
            std::fs::OpenOptions::new().write(true).open(&path).unwrap().set_len(s.draw(len.max(1))).unwrap();
        }
        2 => std::fs::write(&path, "[{\"token\": 1}]").unwrap(),
        3 => std::fs::remove_dir_all(&bad_root).unwrap(),
        4 => s_faults.push(Fault { path: format!("bad/annotation/{table}.json"), op: Op::Open, nth: 0, act: Act::Sticky(*s.pick(&[libc::EIO, libc::EACCES, libc::EMFILE])) }),
        _ => s_faults.push(Fault { path: format!("bad/annotation/{table}.json"), op: Op::Read, nth: 0, act: Act::Sticky(libc::EIO) }),
    }
    let mut scn = w.scn.clone();
    scn.ds_path = bad_root.clone();
    let bad_scn = format!("{}/bad.yaml", cx.dir);
    std::fs::write(&bad_scn, scn.yaml(0)).unwrap();
    let mut refused = vec![];
    let text = w.scn.yaml(0);
    for (k, t) in [None, Some(String::new()), Some(text.replace("evaluation_task", "task")), Some("a: [".into())].into_iter().enumerate() {
        let p = format!("{}/refused{k}.yaml", cx.dir);
        if let Some(t) = t {
            std::fs::write(&p, t).unwrap();
        }
        refused.push(p);
    }
    let full = format!("{}/full", cx.dir);
    let (op, at) = if s.chance(1, 2) { (Op::Mkdir, "full*") } else { (Op::Create, "full/log/output.log") };
    s_faults.push(Fault { path: at.into(), op, nth: 0, act: Act::Sticky(*s.pick(&[libc::ENOSPC, libc::EACCES, libc::EROFS])) });
    let todo = (0..1 + s.weighted(&[2, 3, 2, 1])).map(|_| draw(s)).collect();
    let fresh = s.chance(1, 2);
    let pace = *s.pick(&[0, 1, 1000, 60_000, 10_000_000]);
    let names = (0..3).map(|i| format!("unknown.thing.{i}.with_a_name_{}0000", s.draw(1 << 20))).collect();
    Plan { w, msgs, lookups, bad_root, bad_scn, refused, full, todo, names, fresh, pace }
}
fn draw(s: &mut Src) -> Todo {
    match s.weighted(&[6, 3, 3, 1, 3, 1, 2, 2, 1]) {
        0 => Todo::Session { scores: *s.pick(&[1usize, 2, 25]), asks: *s.pick(&[1usize, 25]), raw: s.chance(1, 2), clone: s.chance(1, 3) },
        1 => Todo::Browse { compare: s.chance(1, 2), asks: *s.pick(&[1usize, 25]) },
        2 => Todo::Payloads { raw: s.chance(1, 3) },
        3 => Todo::Absent,
        4 => Todo::Damaged,
        5 => Todo::DamagedSession,
        6 => Todo::Refused(s.below(4)),
        7 => Todo::Unwritable,
        _ => Todo::Labels,
    }
}

fn c22(cx: &mut Ctx) -> Res {
    let mut faults = vec![];
    let mut x = plan(cx, &mut faults);
    let s = &mut cx.src;
    let rounds = *s.pick(&[12usize, 12, 25]);
    let env = Env::draw(s);
    cx.tell(format!("{rounds} rounds of {:?}, {} messages; {}; faults {faults:?}", x.todo, if x.fresh { "each with other" } else { "the same" }, env.text()));
    let mut sim = env.sim(1, "ds/annotation");
    sim.budget *= 10;
    sim.faults.extend(faults);
    let xr = &mut x;
    let end = cx.process(sim, move |_| {
        let mut seen: Vec<Held> = Vec::with_capacity(rounds);
        for k in 0..rounds {
            if xr.fresh {
                renew(xr, k);
            }
            for t in &xr.todo {
                one(xr, t)?;
            }
            seen.push(held());
        }
        judge("equal rounds in one process", &seen, &|| format!("each round {:?}", xr.todo))?;
        Ok(json!([seen[rounds - 1].bytes - seen[1].bytes, seen[rounds - 1].handles as i64 - seen[1].handles as i64]))
    })?;
    let v: Value = match end {
        ProcEnd::Done(v) => v,
        ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
    };
    if v[0].as_i64() != Some(0) || v[1].as_i64() != Some(0) {
        cx.count("runs in which something settled later than the second round", 1);
    }
    cx.count("rounds", rounds as u64);
    cx.st.nontrivial = true;
    Ok(())
}
