//! C23: a failed step leaves no trace. C24: inputs are only read and only the log is written.
use super::config::in_order;
use super::leak::{self, Plan};
use super::world::*;
use crate::choice::Src;
use crate::ensure;
use crate::gen::*;
use crate::model;
use crate::runner::{fail, lib, lib_ok, Ctx, Fail, ProcEnd, Prop, Res};
use crate::sys::{self, Act, Fault, Op};
use perception_eval::config::PerceptionEvaluationConfig as C;
use perception_eval::dataset::nuscenes::NuScenes;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::manager::PerceptionEvaluationManager as M;
use perception_eval::utils::logger::configure_logger;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C23",
            run: c23,
            quick: 9000,
            thorough: 270000,
            rule: "a run is non-trivial when at least one step failed in the middle of an evaluation that was compared with its undisturbed twin; distinct = distinct digest of all seam events",
            real: "scenario and dataset loading, lookups, matching, scoring, payload and box queries, log4rs with its appenders; all in one process with the failing steps",
            stub: "kernel file I/O results, clock, entropy, buffer placement; the stream of messages",
        },
        Prop {
            id: "C24",
            run: c24,
            quick: 9000,
            thorough: 270000,
            rule: "a run is non-trivial when at least one step was carried out, or killed, and the directory tree compared afterwards; distinct = distinct digest of all seam events",
            real: "scenario and dataset loading, payload and box queries, matching, scoring, logging; the file system below the scratch directory",
            stub: "kernel file I/O results, clock, entropy, buffer placement; writes outside the scratch directory (refused and reported)",
        },
    ]
}

// ------------------------------------------------------------------ C23
/// A step that fails, or may.
#[derive(Clone, Debug)]
enum Bad {
    /// a scenario the library refuses
    Refused(usize),
    /// a session whose log cannot be created
    Unwritable,
    /// logging directly into such a place
    LogOnly,
    /// the damaged dataset
    Damaged,
    /// an evaluation of the damaged dataset
    DamagedSession,
    /// a dataset version that is not there
    NoVersion,
    /// payloads of which some are missing, torn or unreadable
    Payloads(bool),
    /// records that do not exist
    Absent,
    /// a score for another task
    Unscorable,
}
fn bad(s: &mut Src) -> Bad {
    match s.weighted(&[5, 3, 1, 3, 2, 1, 2, 1, 2]) {
        0 => Bad::Refused(s.below(REFUSED)),
        1 => Bad::Unwritable,
        2 => Bad::LogOnly,
        3 => Bad::Damaged,
        4 => Bad::DamagedSession,
        5 => Bad::NoVersion,
        6 => Bad::Payloads(s.chance(1, 2)),
        7 => Bad::Absent,
        _ => Bad::Unscorable,
    }
}
const REFUSED: usize = 10;

struct Session {
    x: Plan,
    /// paths as the client writes them
    scn: String,
    res: String,
    ds: String,
    bad_scn: String,
    bad_ds: String,
    refused: Vec<String>,
    full: String,
    /// what fails before each step of the evaluation
    bads: Vec<Vec<Bad>>,
}

/// Spells a path below the scratch directory in one of several equivalent ways.
fn spell(s: &mut Src, dir: &str, rel: &str, form: usize) -> String {
    match form {
        0 => format!("{dir}/{rel}"),
        1 => rel.to_string(),
        2 => format!("./{rel}"),
        _ => format!("{dir}/{rel}{}", if s.chance(1, 2) { "/" } else { "" }),
    }
}

fn session(cx: &mut Ctx, faults: &mut Vec<Fault>) -> Session {
    let x = leak::plan(cx, faults);
    let dir = cx.dir.clone();
    let s = &mut cx.src;
    let form = s.weighted(&[3, 3, 1]);
    let mut scn = x.w.scn.clone();
    let ds = spell(s, &dir, "ds", form);
    scn.ds_path = ds.clone();
    let text = scn.yaml(s.draw(32));
    std::fs::write(&x.w.scn_path, &text).unwrap();
    let bad_ds = spell(s, &dir, "bad", form);
    scn.ds_path = bad_ds.clone();
    std::fs::write(&x.bad_scn, scn.yaml(s.draw(32))).unwrap();
    // what the library refuses: the file as a whole, or one value of it
    let texts: [Option<Vec<u8>>; REFUSED] = [
        None,
        Some(vec![]),
        Some(text.replace("evaluation_task", "task").into_bytes()),
        Some(b"a: [".to_vec()),
        Some(text.replace("frame_id: ", "frame_id: x").into_bytes()),
        Some(text.replace("evaluation_task: ", "evaluation_task: x").into_bytes()),
        Some(text.replace("iou_3d_threshold", "iou_3d").into_bytes()),
        Some(text.replace("target_labels", "labels").into_bytes()),
        Some(text.bytes().map(|b| if b == b'f' { 0xff } else { b }).collect()),
        Some(text.into_bytes()),
    ];
    let mut refused = vec![];
    for (k, t) in texts.into_iter().enumerate() {
        let rel = format!("no{k}.yaml");
        if let Some(t) = t {
            std::fs::write(format!("{dir}/{rel}"), t).unwrap();
        }
        refused.push(spell(s, &dir, &rel, form));
    }
    let e = *s.pick(&[libc::EIO, libc::EACCES, libc::EMFILE]);
    faults.push(Fault { path: format!("no{}.yaml", REFUSED - 1), op: if s.chance(1, 2) && e == libc::EIO { Op::Read } else { Op::Open }, nth: 0, act: Act::Sticky(e) });
    let n = 4 + 3 * x.msgs.len();
    let much = 1 + s.draw(3);
    let bads = (0..n).map(|_| if s.chance(much, 4) { (0..1 + s.below(2)).map(|_| bad(s)).collect() } else { vec![] }).collect();
    let res = spell(s, &dir, "ds-result", form);
    let full = spell(s, &dir, "full", form);
    Session { scn: spell(s, &dir, "ds.yaml", form), bad_scn: spell(s, &dir, "bad.yaml", form), x, res, ds, bad_ds, refused, full, bads }
}

fn config(scn: &str, res: &str, raw: bool) -> Result<Result<C, String>, Fail> {
    lib_ok("loading the scenario", || C::from(scn, res, raw).map_err(|e| e.to_string()))
}
fn shown(c: &C) -> Value {
    json!([c.version, c.dataset_path.display().to_string(), format!("{:?} {:?} {:?} {:?}", c.evaluation_task, c.frame_id, c.filter_params, c.metrics_params), c.result_dir.display().to_string(), c.log_dir.display().to_string(), c.load_raw_data])
}
fn load(version: &str, root: &str) -> Result<Result<NuScenes, String>, Fail> {
    lib_ok("loading the dataset", || NuScenes::load(version, root).map_err(|e| e.to_string()))
}

/// The log every record must reach, and the records sent there.
struct Logs {
    active: String,
    sent: BTreeMap<String, Vec<String>>,
    n: usize,
}
impl Logs {
    fn move_to(&mut self, res: &str) {
        self.active = format!("{}/log/output.log", res.trim_end_matches('/'));
    }
    fn text(&self) -> String {
        String::from_utf8_lossy(&std::fs::read(&self.active).unwrap_or_default()).into_owned()
    }
    /// A record written now is in the active log, and the last thing in it.
    fn probe(&mut self, after: &str) -> Res {
        self.n += 1;
        let m = format!("probe {};", self.n);
        let level = [log::Level::Debug, log::Level::Error][self.n % 2];
        lib_ok("logging", || log::log!(target: "client", level, "{}", m))?;
        let line = format!("{} - {m}\n", level.as_str());
        ensure!(self.text().ends_with(&line), "record-missing", "after {after} a {level} record is not at the end of {}", self.active);
        self.sent.entry(self.active.clone()).or_default().push(line);
        Ok(())
    }
}

fn trouble(x: &Session, b: &Bad, n: &NuScenes, m: Option<&M>, c: &C, logs: &mut Logs) -> Result<u64, Fail> {
    let failed = match b {
        Bad::Refused(k) => {
            let res = format!("./refused{k}");
            let r = config(&x.refused[*k], &res, false)?;
            ensure!(r.is_err(), "accepted", "refused scenario {k} was accepted");
            ensure!(!Path::new(&res).exists(), "trace", "a refused scenario ({k}: {}) left {res} behind", r.err().unwrap());
            true
        }
        Bad::Unwritable => match config(&x.scn, &x.full, false)? {
            Ok(_) => {
                logs.move_to(&x.full);
                false
            }
            Err(_) => {
                ensure!(!Path::new("./full/log/output.log").exists(), "trace", "a session without a log left a log file");
                true
            }
        },
        Bad::LogOnly => match lib_ok("configuring the logger", || configure_logger(Path::new(&x.full).join("log").as_path(), log::Level::Debug).map_err(|e| e.to_string()))? {
            Ok(()) => {
                logs.move_to(&x.full);
                false
            }
            Err(_) => true,
        },
        Bad::Damaged => load(&x.x.w.scn.version, &x.bad_ds)?.is_err(),
        Bad::DamagedSession => match config(&x.bad_scn, "./bad-result", false)? {
            Ok(c) => {
                logs.move_to("./bad-result");
                lib_ok("creating the evaluation", || M::from(&c).is_err())?
            }
            Err(e) => return fail("config-refused", format!("a well-formed scenario was refused: {e}")),
        },
        Bad::NoVersion => load("no-such-version", &x.ds)?.is_err(),
        Bad::Payloads(raw) => {
            let mut k = 0;
            for r in n.sample_data_iter() {
                k += lib_ok("reading a payload", || r.open().is_err() as u32 + if *raw { r.load_raw().is_err() } else { r.load().is_err() } as u32)?;
            }
            k > 0
        }
        Bad::Absent => {
            let t: perception_eval::dataset::nuscenes::schema::LongToken = serde_json::from_value(json!(hx(0xabc0_0000_0000_0000_0000_0000_0000_0007))).unwrap();
            lib_ok("asking for an absent record", || n.get_sample_data(&t, &true).is_err() && n.get_boxes(&t).is_err())?
        }
        Bad::Unscorable => match m {
            Some(m) => {
                let mut c2 = c.clone();
                c2.evaluation_task = EvaluationTask::Tracking;
                let other = M { config: &c2, frame_ground_truths: m.frame_ground_truths.clone(), frame_results: m.frame_results.clone() };
                lib_ok("scoring another task", || other.get_metrics_score().is_err())?
            }
            None => false,
        },
    };
    Ok(failed as u64)
}

/// The evaluation, with the failing steps in between or without; everything it shows.
fn evaluate(x: &Session, troubled: bool) -> Result<Value, Fail> {
    let mut out = vec![];
    let mut failed = 0;
    let mut logs = Logs { active: String::new(), sent: BTreeMap::new(), n: 0 };
    let c = match config(&x.scn, &x.res, true)? {
        Ok(c) => c,
        Err(e) => return fail("config-refused", format!("a well-formed scenario was refused: {e}")),
    };
    logs.move_to(&x.res);
    let n = match load(&x.x.w.scn.version, &x.ds)? {
        Ok(n) => n,
        Err(e) => return fail("dataset-refused", format!("an intact dataset was refused: {e}")),
    };
    let mut at = 0;
    let mut step = |m: Option<&M>, logs: &mut Logs| -> Res {
        let bads = if troubled { x.bads.get(at).map(|v| v.as_slice()).unwrap_or(&[]) } else { &[] };
        at += 1;
        for b in bads {
            failed += trouble(x, b, &n, m, &c, logs)?;
            logs.probe(&format!("{b:?}"))?;
        }
        Ok(())
    };
    logs.probe("set-up")?;
    step(None, &mut logs)?;
    out.push(shown(&c));
    let mut m = manager(&c)?;
    step(Some(&m), &mut logs)?;
    for (i, msg) in x.x.msgs.iter().enumerate() {
        let f = lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(msg.sent.max(0))))?;
        out.push(json!(f.map(|f| gt_dump(&[f]))));
        step(Some(&m), &mut logs)?;
        add(&mut m, &msg.dets, &msg.gt)?;
        step(Some(&m), &mut logs)?;
        if i % 2 == 0 {
            out.push(json!(report(&m)?));
        }
        step(Some(&m), &mut logs)?;
    }
    step(Some(&m), &mut logs)?;
    out.push(json!(gt_dump(&m.frame_ground_truths)));
    out.push(json!(history_dump(&m)));
    out.push(json!(report(&m)?));
    step(Some(&m), &mut logs)?;
    lib_ok("listing the records", || model::compare_loaded(&n, &x.x.w.d))??;
    out.push(boxes(&n)?);
    if troubled {
        for (path, want) in &logs.sent {
            let text = String::from_utf8_lossy(&std::fs::read(path).unwrap_or_default()).into_owned();
            if let Err(e) = in_order(&text, want) {
                return fail("record-missing", format!("{path}: {e}"));
            }
        }
    }
    // the faults go away: everything that failed works, as if tried for the first time
    if troubled {
        sys::sim().clear_faults();
        mend(x);
    }
    for (k, path) in x.refused.iter().enumerate() {
        let res = format!("./mended{k}");
        match config(path, &res, false)? {
            Ok(c) => out.push(shown(&c)),
            Err(e) => return fail("retry-refused", format!("scenario {k}, mended, was refused: {e}")),
        }
    }
    match config(&x.scn, &x.full, false)? {
        Ok(c) => out.push(shown(&c)),
        Err(e) => return fail("retry-refused", format!("the result directory could be written again and the session was refused: {e}")),
    }
    logs.move_to(&x.full);
    logs.probe("the result directory could be written again")?;
    match load(&x.x.w.scn.version, &x.bad_ds)? {
        Ok(n) => {
            lib_ok("listing the records", || model::compare_loaded(&n, &x.x.w.d))??;
            out.push(boxes(&n)?);
        }
        Err(e) => return fail("retry-refused", format!("the mended dataset was refused: {e}")),
    }
    let c2 = match config(&x.bad_scn, &x.res, false)? {
        Ok(c) => c,
        Err(e) => return fail("config-refused", format!("a well-formed scenario was refused: {e}")),
    };
    out.push(json!(gt_dump(&manager(&c2)?.frame_ground_truths)));
    for r in n.sample_data_iter() {
        let want = payload();
        match lib_ok("reading a payload", || r.load_raw().map_err(|e| e.to_string()))? {
            Ok(b) => ensure!(b == want, "payload", "a payload that can be read again has {} bytes instead of {}", b.len(), want.len()),
            Err(e) => return fail("retry-refused", format!("a payload that is there again was refused: {e}")),
        }
        let loaded = lib_ok("loading a payload", || r.load().map(|d| format!("{:?}", std::mem::discriminant(&d))).map_err(|e| e.to_string()))?;
        out.push(json!(loaded));
    }
    Ok(json!({"out": out, "failed": failed}))
}
fn boxes(n: &NuScenes) -> Result<Value, Fail> {
    let mut v = vec![];
    for d in n.sample_data_iter() {
        v.push(lib_ok("asking for boxes", || match n.get_sample_data(&d.token, &true) {
            Ok((p, b)) => format!("{p:?} {b:?}"),
            Err(e) => format!("refused: {e}"),
        })?);
    }
    Ok(json!(v))
}
fn payload() -> Vec<u8> {
    super::load::cloud(9, 3)
}
/// Repairs everything the plan damaged.
fn mend(x: &Session) {
    std::fs::create_dir_all("./bad").unwrap();
    write_ds(&x.x.w.d, &Style::plain(), Path::new("./bad"), "annotation");
    for k in 0..REFUSED {
        std::fs::copy("./ds.yaml", format!("./no{k}.yaml")).unwrap();
    }
    for d in &x.x.w.d.datas {
        let p = Path::new("./ds").join(&d.file);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, payload()).unwrap();
    }
}

fn c23(cx: &mut Ctx) -> Res {
    let mut faults = vec![];
    let x = session(cx, &mut faults);
    let env = Env::draw(&mut cx.src);
    cx.tell(format!("failing steps {:?}; dataset {}, results {}; {}; faults {faults:?}", x.bads, x.ds, x.res, env.text()));
    let mut sim = env.sim(1, "ds/annotation");
    sim.budget *= 4;
    sim.faults.extend(faults);
    let xr = &x;
    let mut got = vec![];
    for troubled in [true, false] {
        let sim = if troubled { std::mem::replace(&mut sim, sys::Sim::new(1)) } else { Env::calm().sim(1, "ds/annotation") };
        match cx.process(sim, move |_| evaluate(xr, troubled))? {
            ProcEnd::Done(v) => got.push(v),
            ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
        }
    }
    let (a, b) = (&got[0]["out"], &got[1]["out"]);
    ensure!(a == b, "result-differs", "the evaluation differs from its undisturbed twin: {}", super::session::first_diff(a, b));
    let failed = got[0]["failed"].as_u64().unwrap();
    cx.count("failing steps", failed);
    cx.mixin(a.to_string().as_bytes());
    cx.st.nontrivial = failed > 0;
    Ok(())
}

// ------------------------------------------------------------------ C24
/// Everything below a directory: kind, mode and content.
type Tree = BTreeMap<String, (u32, Vec<u8>)>;
fn tree(dir: &str) -> Tree {
    fn walk(at: &Path, rel: &str, out: &mut Tree) {
        use std::os::unix::fs::MetadataExt;
        for e in std::fs::read_dir(at).unwrap() {
            let e = e.unwrap();
            let name = format!("{rel}{}", e.file_name().to_string_lossy());
            let m = e.path().symlink_metadata().unwrap();
            let bytes = match () {
                _ if m.is_dir() => vec![],
                _ if m.file_type().is_symlink() => std::fs::read_link(e.path()).unwrap().to_string_lossy().into_owned().into_bytes(),
                _ => std::fs::read(e.path()).unwrap(),
            };
            out.insert(name.clone(), (m.mode(), bytes));
            if m.is_dir() {
                walk(&e.path(), &format!("{name}/"), out);
            }
        }
    }
    let mut t = Tree::new();
    walk(Path::new(dir), "", &mut t);
    t
}
/// What of the process belongs to the client.
fn settings() -> Value {
    let mask = unsafe {
        let m = libc::umask(0);
        libc::umask(m);
        m
    };
    let vars: Vec<_> = std::env::vars_os().map(|(k, v)| format!("{k:?}={v:?}")).collect();
    let handlers: Vec<usize> = (1..32)
        .map(|n| unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            libc::sigaction(n, std::ptr::null(), &mut a);
            a.sa_sigaction
        })
        .collect();
    let limits: Vec<_> = [libc::RLIMIT_NOFILE, libc::RLIMIT_FSIZE, libc::RLIMIT_STACK]
        .iter()
        .map(|&l| unsafe {
            let mut r: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(l, &mut r);
            (r.rlim_cur, r.rlim_max)
        })
        .collect();
    json!({"working directory": std::env::current_dir().unwrap().display().to_string(), "file mode mask": mask, "environment": vars, "signal handlers": handlers, "limits": limits})
}
/// `after` differs from `before` only by the logs of these result directories and what leads there.
fn only_logs(before: &Tree, after: &Tree, dirs: &[String], what: &str) -> Res {
    for (p, (mode, bytes)) in before {
        let log = dirs.iter().any(|d| *p == under(d, "log/output.log"));
        let Some((m2, b2)) = after.get(p) else { return fail("removed", format!("{what}: {p} is gone")) };
        ensure!(m2 == mode, "mode", "{what}: the mode of {p} went from {mode:o} to {m2:o}");
        if log {
            ensure!(b2.starts_with(bytes), "log-history", "{what}: the earlier {} bytes of {p} were not kept", bytes.len());
        } else {
            ensure!(b2 == bytes, "altered", "{what}: {p} was altered: {} bytes before, {} after", bytes.len(), b2.len());
        }
    }
    for (p, (mode, _)) in after {
        if before.contains_key(p) {
            continue;
        }
        let ok = dirs.iter().any(|d| if mode & libc::S_IFMT == libc::S_IFDIR { leads(d, p) } else { *p == under(d, "log/output.log") });
        ensure!(ok, "created", "{what}: {p} was created");
    }
    Ok(())
}

fn c24(cx: &mut Ctx) -> Res {
    let mut faults = vec![];
    let mut x = leak::plan(cx, &mut faults);
    let dir = cx.dir.clone();
    let s = &mut cx.src;
    // where the results go
    let rel = s.pick(&["ds-result", "out/deep/er", "ds/result", "results/full", "r"]).to_string();
    let form = s.weighted(&[2, 2, 1, 1]);
    x.w.result_dir = spell(s, &dir, &rel, form);
    let mut dirs = vec![rel.clone(), "full".to_string()];
    if s.chance(1, 6) {
        // the current directory takes the results
        x.w.result_dir = s.pick(&["", ".", "./"]).to_string();
        dirs[0] = String::new();
    }
    // earlier results are there
    let root = |d: &str, f: &str| if d.is_empty() { f.to_string() } else { format!("{d}/{f}") };
    for d in &dirs {
        if s.chance(1, 2) {
            continue;
        }
        std::fs::create_dir_all(root(d, "log")).unwrap();
        std::fs::create_dir_all(root(d, "visualize/old")).unwrap();
        for (f, b) in [("log/output.log", "INFO - an earlier session\ntorn rec"), ("log/output.log.1", "older"), ("visualize/old/1.png", "png"), ("result.json", "{}")] {
            std::fs::write(root(d, f), b).unwrap();
        }
        if s.chance(1, 60) {
            // a log that earlier sessions have made long
            let n = *s.pick(&[5_000usize, 70_000, 1_100_000, 11_000_000]);
            std::fs::write(root(d, "log/output.log"), "INFO - old\n".repeat(n / 11)).unwrap();
        }
    }
    for f in ["ds/annotation/notes.txt", "ds/annotation/sample.json.bak", "other.txt"] {
        std::fs::write(f, "kept").unwrap();
    }
    if s.chance(1, 2) {
        use std::os::unix::fs::PermissionsExt;
        for f in ["ds.yaml", "ds/annotation/sample.json", "other.txt"] {
            std::fs::set_permissions(f, std::fs::Permissions::from_mode(0o444)).unwrap();
        }
    }
    let mask = *s.pick(&[0o022, 0o077, 0o002]);
    let tty = s.chance(1, 3);
    let kill = s.chance(1, 3).then(|| (*s.pick(&[Op::Open, Op::Create, Op::Read, Op::Write, Op::Write, Op::Mkdir]), s.draw(12) as u32, s.draw(64) as usize));
    if let Some((op, nth, n)) = kill {
        let path = match op {
            Op::Create | Op::Write | Op::Mkdir => "*".to_string(),
            _ => format!("ds/annotation/{}.json", s.pick(&TABLES)),
        };
        let nth = if op == Op::Write { nth } else { nth / 4 };
        faults.push(Fault { path, op, nth, act: Act::Kill(n) });
    }
    let rounds = 1 + s.below(2);
    let lives = 1 + kill.is_some() as usize;
    let envs: Vec<Env> = (0..lives).map(|_| Env::draw(s)).collect();
    cx.tell(format!("{rounds} rounds of {:?}; results to {:?}; mask {mask:o}; {}; kill {kill:?}; {}; faults {faults:?}", x.todo, x.w.result_dir, if tty { "on a terminal" } else { "no terminal" }, envs[0].text()));
    let dirs: Vec<String> = dirs.into_iter().map(|d| if d.is_empty() { ".".into() } else { d }).collect();
    let start = tree(&dir);
    let (xr, dr, st) = (&x, &dirs, &start);
    let mut done = 0;
    for (life, env) in envs.iter().enumerate() {
        let before = tree(&dir);
        let mut sim = env.sim(1, "ds/annotation");
        sim.budget *= 4;
        sim.tty = tty;
        sim.faults.extend(faults.iter().filter(|f| life == 0 || !matches!(f.act, Act::Kill(_))).cloned());
        let br = &before;
        let end = cx.process(sim, move |_| {
            unsafe { libc::umask(mask) };
            let mine = settings();
            let mut n = 0u64;
            for _ in 0..rounds {
                for t in &xr.todo {
                    leak::one(xr, t)?;
                    n += 1;
                    let now = settings();
                    ensure!(now == mine, "settings", "{t:?} changed the process's settings: {}", super::session::first_diff(&mine, &now));
                    let hook = lib(|| panic!("the client's own panic"));
                    ensure!(hook.as_ref().err().is_some_and(|m| m.starts_with("the client's own panic")), "panic-hook", "{t:?} replaced the client's panic hook");
                    for (what, p) in &sys::sim().touched {
                        let p = p.trim_start_matches("./");
                        let log = dr.iter().any(|d| p == under(d, "log/output.log"));
                        let way = *what == "makes the directory" && dr.iter().any(|d| leads(d, p.trim_end_matches('/')));
                        ensure!(log && *what == "opens for writing" || way, "touched", "{t:?}: the library {what} {p:?}");
                    }
                    only_logs(br, &tree("."), dr, &format!("after {t:?}"))?;
                }
            }
            Ok(json!(n))
        })?;
        match end {
            ProcEnd::Done(v) => done += v.as_u64().unwrap(),
            ProcEnd::Killed => {
                ensure!(kill.is_some() && life == 0, "killed", "killed without a kill in the plan");
                done += 1;
            }
        }
        let after = tree(&dir);
        only_logs(&before, &after, dr, "afterwards")?;
        only_logs(st, &after, dr, "in the end")?;
        cx.count("files compared", after.len() as u64);
        for (p, (_, b)) in &after {
            cx.mixin(p.as_bytes());
            cx.mixin(b);
        }
    }
    cx.count("steps", done);
    cx.st.nontrivial = done > 0;
    Ok(())
}
/// Directory `p` leads to the log of result directory `d`.
fn leads(d: &str, p: &str) -> bool {
    under(d, "log/").starts_with(&format!("{p}/"))
}
/// `f` below result directory `d`, as the tree names it.
fn under(d: &str, f: &str) -> String {
    if d == "." {
        f.to_string()
    } else {
        format!("{d}/{f}")
    }
}
