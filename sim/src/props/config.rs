//! C07 (scenario files) and C08 (logging).
use super::load::{FRAME_IDS, TASKS};
use super::world::*;
use crate::ensure;
use crate::gen::*;
use crate::model::{self, Params};
use crate::runner::{fail, lib, lib_ok, Ctx, ProcEnd, Prop, Res};
use crate::sys::{self, Act, Fault, Op};
use log::Level;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::filter::filter_objects;
use perception_eval::frame_id::FrameID;
use perception_eval::object::object3d::DynamicObject;
use perception_eval::utils::logger::configure_logger;
use serde_json::{json, Value};
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            run: c07,
            quick: 45000,
            thorough: 1260000,
            rule: "a run is non-trivial when at least one scenario was loaded and compared or one fault was met; distinct = distinct digest of all seam events",
            real: "PerceptionEvaluationConfig::from, its schema and deserialisers, serde_yaml, log4rs set-up, std::fs, BufReader",
            stub: "kernel open/read/mkdir results, entropy, clock, buffer placement; stored scenario bytes damaged by the harness",
        },
        Prop {
            id: "C08",
            run: c08,
            quick: 25000,
            thorough: 700000,
            rule: "a run is non-trivial when records were emitted and the log files compared; distinct = distinct digest of all seam events",
            real: "configure_logger, PerceptionEvaluationConfig::from, log4rs and its file appender, log facade, whole evaluation sessions",
            stub: "kernel mkdir/create/write results on the log file (errno, short, torn, stall, process killed at a write), entropy, clock",
        },
    ]
}

type C = PerceptionEvaluationConfig;
pub(super) fn load(path: &str, res: &str, raw: bool) -> Result<Result<C, String>, crate::runner::Fail> {
    lib_ok("loading the scenario", || C::from(path, res, raw).map_err(|e| e.to_string()))
}

// ------------------------------------------------------------------ C07
const LABELS: [&str; 26] = [
    "car", "Car", "bicycle", "pedestrian", "motorbike", "truck", "bus", "animal", "unknown", "trailer", "motorcycle", "vehicle.car", "vehicle.truck", "vehicle.bicycle", "vehicle.motorcycle",
    "pedestrian.adult", "pedestrian.child", "human.pedestrian.adult", "vehicle.bus", "PEDESTRIAN", "Bus", "UNKNOWN", "spaceship", "", "caf\u{e9}", "vehicle.bus (bendy & rigid)",
];

const ODD: [&str; 14] = ["null", "~", "007", "1e5", "0x1f", "true", " padded ", "tab\there", "UPPER-lower", "", "caf\u{e9}", "a,b", "[x]", "- y"];
const PATHS: [&str; 12] = [
    "~/data", "$HOME/data", "${ROOT}/data", "/data set/\u{fc}", "data/../other", "./data", "data/", "/data//x/", "C:\\data", "file:///data", "007", " data",
];

/// What the configuration says about one object, whatever its internal representation.
fn probe(c: &C, p: &Params) -> Res {
    use perception_eval::label::Label::*;
    let base = |label, x: f64, y: f64, pts: Option<usize>, uuid: Option<&str>| DynamicObject {
        timestamp: when(1),
        frame_id: FrameID::BaseLink,
        position: [x, y, 0.0],
        orientation: [1.0, 0.0, 0.0, 0.0],
        size: [1.0, 1.0, 1.0],
        velocity: None,
        confidence: 0.5,
        label,
        pointcloud_num: pts,
        uuid: uuid.map(String::from),
    };
    let mut objs = vec![];
    let m = p.min_pts.unwrap_or(3);
    let eps = 1.0 / 64.0;
    let mut ids: Vec<Option<&str>> = vec![None, Some("never-listed"), Some("")];
    let other: Vec<String> = p.uuids.iter().flatten().flat_map(|u| [u.to_lowercase(), u.to_uppercase(), format!("{u} ")]).collect();
    if let Some(u) = &p.uuids {
        ids.extend(u.iter().flat_map(|x| [Some(x.as_str()), Some(x.trim())]));
        ids.extend(other.iter().map(|x| Some(x.as_str())));
    }
    let inside = p.uuids.as_ref().and_then(|u| u.first()).map(|x| x.as_str());
    for l in [Car, Pedestrian, Bicycle, Motorbike, Truck, Bus, Animal, Unknown] {
        for x in [0.0, p.max_x - eps, p.max_x, p.max_x + eps, -p.max_x + eps, -p.max_x, -p.max_x - eps] {
            objs.push(base(l.clone(), x, 0.0, Some(m + 1), inside));
        }
        for y in [p.max_y - eps, p.max_y, p.max_y + eps, -p.max_y + eps, -p.max_y] {
            objs.push(base(l.clone(), 0.0, y, Some(m + 1), inside));
        }
        for n in [0, m.saturating_sub(1), m, m + 1] {
            objs.push(base(l.clone(), 0.0, 0.0, Some(n), inside));
        }
        for u in &ids {
            objs.push(base(l.clone(), 0.0, 0.0, Some(m + 1), *u));
        }
    }
    for gt in [true, false] {
        let got = lib_ok("filtering objects", || filter_objects(&objs, gt, &c.filter_params))?;
        let want: Vec<String> = objs.iter().filter(|o| p.keeps(o, gt)).map(model::okey).collect();
        let got: Vec<String> = got.iter().map(model::okey).collect();
        if got != want {
            let at = want.iter().zip(got.iter()).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            return fail(
                "limits",
                format!("the configuration keeps {} of {} probe {}, its scenario keeps {}; first difference: {:?} / {:?}", got.len(), objs.len(), if gt { "ground truths" } else { "detections" }, want.len(), got.get(at), want.get(at)),
            );
        }
    }
    Ok(())
}
struct Want {
    scn: Scn,
    p: Params,
    fid: FrameID,
    task: EvaluationTask,
    entries: Vec<(String, String)>,
    /// no dataset is there
    odd: bool,
}
fn agrees(c: &C, w: &Want, res: &str, raw: bool) -> Res {
    let e = (c.dataset_path.clone(), c.version.clone());
    ensure!(
        w.entries.iter().any(|(p, v)| e.0 == Path::new(p) && e.1 == *v),
        "dataset",
        "dataset path {:?} with version {:?}; the scenario lists {:?}",
        e.0,
        e.1,
        w.entries
    );
    ensure!(c.evaluation_task == w.task, "task", "task {:?}, scenario says {}", c.evaluation_task, w.scn.task);
    ensure!(c.frame_id == w.fid, "frame-id", "frame id {:?}, scenario says {}", c.frame_id, w.scn.frame_id);
    ensure!(c.result_dir == Path::new(res), "result-dir", "result directory {:?}, requested {res:?}", c.result_dir);
    ensure!(c.log_dir.starts_with(res) && c.log_dir != Path::new(res), "log-dir", "log directory {:?} is not below {res:?}", c.log_dir);
    ensure!(c.viz_dir.starts_with(res) && c.viz_dir != Path::new(res), "viz-dir", "visualisation directory {:?} is not below {res:?}", c.viz_dir);
    ensure!(c.viz_dir != c.log_dir, "viz-dir", "log and visualisation directories are the same: {:?}", c.log_dir);
    ensure!(c.load_raw_data == raw, "raw-flag", "load_raw_data {}", c.load_raw_data);
    probe(c, &w.p)
}
/// Thresholds and limits at work: one message through a whole evaluation.
fn at_work(cx: &mut Ctx, c: &C, p: &Params, g: &mut ObjGen) -> Res {
    let mut m = manager(c)?;
    for _ in 0..2 {
        let f = g.frame(&mut cx.src, 1_600_000_000_000_000);
        let d = g.dets(&mut cx.src, &f, 1_600_000_000_000_000);
        add(&mut m, &d, &f)?;
        let l = m.frame_results.last().unwrap();
        model::check_recorded(l, p, &d, &f)?;
        model::check_partition(l, p)?;
    }
    model::check_report(&report(&m)?, &m.frame_results, p)?;
    cx.count("configurations put to work", 1);
    Ok(())
}
/// A text with one flaw, for which loading must be refused.
fn flawed(cx: &mut Ctx, y: &str, scn: &Scn) -> (String, String) {
    let s = &mut cx.src;
    let lines: Vec<&str> = y.lines().collect();
    let line = |k: &str| lines.iter().position(|l| l.trim_start().starts_with(k)).unwrap();
    let swap = |i: usize, with: &str| -> String { lines.iter().enumerate().filter(|(j, _)| *j != i || !with.is_empty()).map(|(j, l)| if j == i { with } else { l }).collect::<Vec<_>>().join("\n") + "\n" };
    const SCALARS: [&str; 17] = [
        "ScenarioFormatVersion", "ScenarioName", "ScenarioDescription", "SensorModel", "VehicleModel", "UseCaseName", "UseCaseFormatVersion", "Version:", "VehicleId", "LaunchSensing", "PassRate", "evaluation_task",
        "frame_id", "max_x_position", "center_distance_threshold", "plane_distance_threshold", "iou_3d_threshold",
    ];
    const NUMBERS: [&str; 6] = ["max_x_position", "max_y_position", "center_distance_threshold", "plane_distance_threshold", "iou_2d_threshold", "iou_3d_threshold"];
    match s.below(12) {
        0 => {
            // torn before the last required value
            let end = y.find("iou_3d_threshold").unwrap();
            let mut at = s.below(end + 1);
            while !y.is_char_boundary(at) {
                at -= 1;
            }
            (y[..at].to_string(), format!("the scenario is truncated to {at} of {} bytes", y.len()))
        }
        1 => {
            let k = *s.pick(&SCALARS);
            (swap(line(k), ""), format!("{k} is missing"))
        }
        2 => {
            let k = *s.pick(&NUMBERS);
            let i = line(k);
            let v = *s.pick(&["wide", "[1.0]", "{a: 1}", "", "1.0.0", "true", "0x"]);
            let ind = &lines[i][..lines[i].len() - lines[i].trim_start().len()];
            (swap(i, &format!("{ind}{k}: {v}")), format!("{k} is {v:?}"))
        }
        3 => {
            let i = line("evaluation_task");
            let v = *s.pick(&["detektion", "DETECTION", "detection2d", "'detection '", "''", "null", "[detection]", "42", "sensing", "Detection_"]);
            (swap(i, &format!("      evaluation_task: {v}")), format!("the task is {v}"))
        }
        4 => {
            let i = line("frame_id");
            let v = *s.pick(&["baselink", "BASE_LINK", "lidar_top", "''", "null", "[map]", "7", "'map '", "cam_top", "Base_Link"]);
            (swap(i, &format!("      frame_id: {v}")), format!("the frame id is {v}"))
        }
        5 => {
            let (a, b) = (line("Datasets"), line("Conditions"));
            let v = *s.pick(&["[]", "[{}]", "", "null", "{}", "/data", "[null]", "['/data']", "[[]]", "[{/data: {}}]", "[{}, {/d: {Version: a, VehicleId: b, LaunchSensing: false, LocalMapPath: c}}]"]);
            let mut t: Vec<String> = lines[..a].iter().map(|l| l.to_string()).collect();
            t.push(format!("  Datasets: {v}"));
            t.extend(lines[b..].iter().map(|l| l.to_string()));
            (t.join("\n") + "\n", format!("the dataset list is {v:?}"))
        }
        6 => {
            let t = *s.pick(&["", "# nothing\n", "null\n", "[]\n", "42\n", "a: [1\n", "\tx: 1\n", "a: b: c\n", "Evaluation: {}\n", "---\n", "%YAML 9\n", "\"\n", "a: *b\n", "!!binary x\n"]);
            (t.to_string(), format!("the scenario holds {t:?}"))
        }
        7 => {
            let i = line("target_labels");
            let v = *s.pick(&["car", "null", "7", "{car: 1}", "[[car]]", "[{car: 1}]"]);
            let mut t: Vec<String> = lines[..i].iter().map(|l| l.to_string()).collect();
            t.push(format!("      target_labels: {v}"));
            t.extend(lines[i + 1..].iter().filter(|l| !l.trim_start().starts_with("- ")).map(|l| l.to_string()));
            // the list of uuids may have been removed as well; it is optional
            (t.join("\n") + "\n", format!("the target labels are {v}"))
        }
        8 => {
            let k = *s.pick(&["min_point_number", "LaunchSensing", "PassRate"]);
            match lines.iter().position(|l| l.trim_start().starts_with(k)) {
                Some(i) => {
                    let ind = &lines[i][..lines[i].len() - lines[i].trim_start().len()];
                    let v = if k == "min_point_number" { *s.pick(&["-1", "many", "1.5", "[1]", "99999999999999999999999"]) } else { *s.pick(&["sometimes", "[1]", "{}"]) };
                    (swap(i, &format!("{ind}{k}: {v}")), format!("{k} is {v}"))
                }
                None => (String::new(), "the scenario is empty".into()),
            }
        }
        9 => {
            let i = line("UseCaseName");
            let v = *s.pick(&["perception3d", "Perception", "localization", "[]"]);
            (swap(i, &format!("  UseCaseName: {v}")), format!("the use case is {v}"))
        }
        10 => {
            let k = *s.pick(&["Evaluation:", "PerceptionEvaluationConfig:", "evaluation_config_dict:", "Conditions:"]);
            let i = line(k);
            let ind = &lines[i][..lines[i].len() - lines[i].trim_start().len()];
            (swap(i, &format!("{ind}X{}", lines[i].trim_start())), format!("{k} is spelled X{k}"))
        }
        _ => {
            // an unbalanced bracket inside a required value
            let i = line("max_y_position");
            let _ = scn;
            (swap(i, "      max_y_position: [1.0"), "a bracket is never closed".into())
        }
    }
}

fn c07(cx: &mut Ctx) -> Res {
    let mut wants: Vec<Want> = vec![];
    let mut texts: Vec<String> = vec![];
    let nscn = cx.src.range(1, 3);
    for i in 0..nscn {
        let name = format!("ds{i}");
        let mut w = world(cx, &name, &DsOpts { scenes: 1, samples: 2, insts: 2, ..small_ds() });
        let s = &mut cx.src;
        if s.chance(1, 2) {
            let n = if s.chance(1, 6) { s.range(7, 40) } else { s.range(0, 6) };
            w.scn.labels = (0..n).map(|_| s.pick(&LABELS).to_string()).collect();
        }
        let mut task = EvaluationTask::Detection;
        let mut fid = Params::of(&w.scn).fid;
        if s.chance(1, 2) {
            let (tn, t) = s.pick(&TASKS).clone();
            let (fname, f) = s.pick(&FRAME_IDS).clone();
            w.scn.task = tn.to_string();
            w.scn.frame_id = fname.to_string();
            (task, fid) = (t, f);
        }
        w.scn.iou2 = *s.pick(&[0.5, 0.25, 0.75]);
        w.scn.iou3 = *s.pick(&[0.5, 0.125, 1.0]);
        if s.chance(1, 6) {
            w.scn.uuids = Some(vec![]);
        } else if s.chance(1, 8) {
            // a long list of ids
            let n = s.range(9, 80);
            w.scn.uuids = Some((0..n).map(|i| format!("{i:02x}-listed")).collect());
        } else if s.chance(1, 6) {
            // ids that look like something else
            let n = s.range(1, 4);
            w.scn.uuids = Some((0..n).map(|_| s.pick(&ODD).to_string()).collect());
        }
        // a dataset that is elsewhere when the scenario is loaded
        let odd = s.chance(1, 6);
        if odd {
            w.scn.ds_path = s.pick(&PATHS).to_string();
            w.scn.version = s.pick(&ODD).to_string();
        }
        let mut y = w.scn.yaml(s.draw(32));
        let mut entries = vec![(w.scn.ds_path.clone(), w.scn.version.clone())];
        match s.weighted(&[4, 1, 1, 1]) {
            1 => {
                // a second dataset in the list: the first one counts
                y = y.replace("  Conditions:", "    - /data/second:\n        Version: other\n        VehicleId: b\n        LaunchSensing: true\n        LocalMapPath: x\n  Conditions:");
            }
            2 => {
                // two entries in one mapping: one of them, as a whole
                y = y.replace("  Conditions:", "      /data/other:\n        Version: other\n        VehicleId: b\n        LaunchSensing: true\n        LocalMapPath: x\n  Conditions:");
                entries.push(("/data/other".into(), "other".into()));
            }
            3 => {
                // keys of later format versions
                y = y.replace("SensorModel:", "Extra: {a: [1, 2]}\nSensorModel:").replace("      max_x_position", "      ignore_attributes: [cycle]\n      max_x_position").replace("    PassRate", "    Criterion: x\n    PassRate");
            }
            _ => {}
        }
        std::fs::write(&w.scn_path, &y).unwrap();
        cx.tell(format!("scenario {i}: task {}, frame id {}, labels {:?}, datasets {entries:?}", w.scn.task, w.scn.frame_id, w.scn.labels));
        let p = Params::of(&w.scn);
        wants.push(Want { scn: w.scn, p, fid, task, entries, odd });
        texts.push(y);
    }
    // the loads of this process, one of them usually damaged or faulty
    let n = cx.src.range(1, if cx.thorough { 5 } else { 3 });
    let mut plan: Vec<(usize, String, String, bool, u64, usize, Option<Vec<u8>>)> = vec![];
    let mut last_clean: Option<usize> = None;
    let mut faults = vec![];
    let mut chunk = 0usize;
    for k in 0..n {
        let i = cx.src.below(wants.len());
        let mut rel = format!("scn{k}.yaml");
        let mut path = format!("{}/{rel}", cx.dir);
        let s = &mut cx.src;
        let res = match s.weighted(&[3, 2, 1]) {
            0 => format!("{}/result{}", cx.dir, s.draw(2)),
            1 => format!("{}/deep/er/res{k}", cx.dir),
            _ => format!("{}/res {k} \u{e9}/", cx.dir),
        };
        let raw = s.chance(1, 2);
        let mut must = 1; // 0 refuse, 1 accept, 2 either
        let mut what = "intact".to_string();
        let kind = s.weighted(&[6, 6, 3]);
        let mut text = texts[i].clone().into_bytes();
        match kind {
            1 => {
                let (t, w) = flawed(cx, &texts[i], &wants[i].scn);
                text = t.into_bytes();
                what = w;
                must = 0;
                *cx.st.faults.entry("disk:scenario-damaged".into()).or_default() += 1;
            }
            2 => {
                must = 0;
                match s.below(7) {
                    0 => {
                        what = "missing".into();
                        *cx.st.faults.entry("disk:missing-file".into()).or_default() += 1;
                    }
                    1 => {
                        what = "a directory".into();
                        std::fs::create_dir(&path).unwrap();
                        *cx.st.faults.entry("disk:directory-in-place".into()).or_default() += 1;
                    }
                    2 => {
                        let e = *s.pick(&[libc::EACCES, libc::EMFILE, libc::EIO, libc::ELOOP, libc::ENOMEM]);
                        faults.push(Fault { path: rel.clone(), op: Op::Open, nth: 0, act: Act::Sticky(e) });
                        what = format!("refused at open with {}", sys::errno_name(e));
                    }
                    3 => {
                        let e = *s.pick(&[libc::EIO, libc::ESTALE, libc::ETIMEDOUT]);
                        faults.push(Fault { path: rel.clone(), op: Op::Read, nth: 0, act: Act::Sticky(e) });
                        what = format!("failing reads with {}", sys::errno_name(e));
                    }
                    4 => {
                        let at = s.below(text.len());
                        let b = *s.pick(&[0xffu8, 0xfe, 0xc0, 0x80]);
                        text[at] = b;
                        what = format!("byte {at} is {b:#x}");
                        // the second byte of a two-byte character may still make one
                        if std::str::from_utf8(&text).is_ok() {
                            must = 2;
                        }
                        *cx.st.faults.entry("disk:byte-changed".into()).or_default() += 1;
                    }
                    5 => {
                        // reads deliver a part, then an error or the end
                        let c = 64 + s.below(256);
                        if chunk == 0 {
                            chunk = c;
                        }
                        let nth = s.draw(8) as u32;
                        let got = nth as usize * chunk;
                        let last = texts[i].find("iou_3d_threshold").unwrap();
                        if s.chance(1, 2) {
                            faults.push(Fault { path: rel.clone(), op: Op::Read, nth, act: Act::Eof });
                            what = format!("ends after {got} bytes");
                            must = if got <= last { 0 } else { 2 };
                        } else {
                            faults.push(Fault { path: rel.clone(), op: Op::Read, nth, act: Act::Sticky(libc::EIO) });
                            what = format!("EIO after {got} bytes");
                            must = if got < texts[i].len() { 0 } else { 2 };
                        }
                    }
                    _ => {
                        what = "empty".into();
                        text.clear();
                        *cx.st.faults.entry("disk:empty-file".into()).or_default() += 1;
                    }
                }
            }
            _ => {}
        }
        // the file loaded last may have been edited since
        let mut edited = None;
        match last_clean {
            Some(j) if kind != 2 && cx.src.chance(1, 3) => {
                rel = format!("scn{j}.yaml");
                path = format!("{}/{rel}", cx.dir);
                edited = Some(text);
            }
            _ => {
                if what != "missing" && what != "a directory" {
                    std::fs::write(&path, &text).unwrap();
                }
                last_clean = if kind == 2 { None } else { Some(k as usize) };
            }
        }
        cx.tell(format!("load {k}: scenario {i} into {res}, {what}{}", if edited.is_some() { format!(", written over {rel}") } else { String::new() }));
        plan.push((i, path, res, raw, must, k as usize, edited));
    }
    let mut env = Env::draw(&mut cx.src);
    if chunk > 0 {
        env.chunks = vec![chunk as i64];
    }
    cx.tell(env.text());
    let mut sim = env.sim(1, "ds0/annotation");
    sim.faults.extend(faults);
    let mut gens: Vec<ObjGen> = vec![];
    for w in &wants {
        gens.push(ObjGen::new(&mut cx.src, &w.p));
    }
    cx.arm(sim);
    let mut kept: Vec<(C, usize, String, bool)> = vec![];
    for (i, path, res, raw, must, k, edited) in &plan {
        let rel = &path[cx.dir.len() + 1..];
        if let Some(t) = edited {
            std::fs::write(path, t).unwrap();
        }
        match (load(path, res, *raw)?, must) {
            (Ok(_), 0) => return fail("accepted", format!("load {k}: a scenario that must be refused was loaded")),
            (Err(m), 1) => return fail("refused", format!("load {k}: a well-formed scenario was refused: {m}")),
            (Ok(c), _) => {
                agrees(&c, &wants[*i], res, *raw)?;
                kept.push((c, *i, res.clone(), *raw));
                cx.count("configurations compared", 1);
            }
            (Err(_), _) => cx.count("refusals", 1),
        }
        ensure!(!sys::sim().is_open(rel), "fd-leak", "load {k}: the scenario file is still open");
    }
    // faults gone: everything loads, and earlier configurations are what they were
    sys::sim().clear_faults();
    for k in 0..wants.len() {
        let path = format!("{}/ds{k}.yaml", cx.dir);
        let res = format!("{}/again{k}", cx.dir);
        match load(&path, &res, false)? {
            Ok(c) => {
                agrees(&c, &wants[k], &res, false)?;
                if !wants[k].odd && wants[k].scn.task == "detection" && wants[k].entries.len() == 1 && wants[k].scn.frame_id == "base_link" {
                    let p = wants[k].p.clone();
                    at_work(cx, &c, &p, &mut gens[k])?;
                }
            }
            Err(m) => return fail("refused", format!("a well-formed scenario was refused after earlier loads: {m}")),
        }
        cx.count("configurations compared", 1);
    }
    for (c, i, res, raw) in &kept {
        agrees(c, &wants[*i], res, *raw)?;
    }
    cx.disarm();
    cx.st.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C08
const LEVELS: [Level; 5] = [Level::Error, Level::Warn, Level::Info, Level::Debug, Level::Trace];

#[derive(Clone, Debug)]
enum Step {
    /// (directory number, Some(level) = configure_logger, None = load the scenario)
    Configure(usize, Option<Level>),
    /// records (level, message)
    Emit(Vec<(Level, String)>),
    /// record a message of the stream and look at the score
    Evaluate(usize),
}
fn log_rel(d: usize) -> String {
    format!("res{d}/log")
}
fn emit(l: Level, m: &str) -> Res {
    lib_ok("logging", || log::log!(target: "client", l, "{}", m))
}
fn read_log(d: usize) -> Vec<u8> {
    std::fs::read(format!("./{}/output.log", log_rel(d))).unwrap_or_default()
}
/// The expected lines occur in `text` in order, each once.
pub(super) fn in_order(text: &str, want: &[String]) -> Result<(), String> {
    let mut at = 0;
    for w in want {
        match text[at..].find(w.as_str()) {
            Some(i) => at += i + w.len(),
            None => return Err(format!("{:?} is not in the log (at its place)", w.chars().take(60).collect::<String>())),
        }
        if text.matches(w.as_str()).count() != 1 {
            return Err(format!("{:?} is in the log {} times", w.chars().take(60).collect::<String>(), text.matches(w.as_str()).count()));
        }
    }
    Ok(())
}

/// Several threads log at once while one of them may move the log elsewhere.
fn c08_threads(cx: &mut Ctx) -> Res {
    #[derive(Clone, Debug)]
    enum Do {
        Emit(Level, String),
        Move(Level),
        Evaluate,
    }
    let w = world(cx, "ds", &DsOpts { scenes: 1, samples: 1, insts: 2, ..small_ds() });
    let mut g = ObjGen::new(&mut cx.src, &w.p);
    g.scale = false;
    let f: Vec<_> = (0..1).map(|_| g.frame(&mut cx.src, 1_600_000_000_000_000)).collect();
    let msg = stream(cx, &mut g, &f, 1).into_iter().next();
    let n = cx.src.range(2, 3) as usize;
    let s = &mut cx.src;
    let l0 = *s.pick(&LEVELS);
    let scn = s.chance(1, 3);
    let l0 = if scn { Level::Debug } else { l0 };
    let mover = if s.chance(1, 2) { Some(s.below(n)) } else { None };
    let l1 = *s.pick(&LEVELS);
    let mut acts: Vec<Vec<Do>> = vec![];
    for i in 0..n {
        let mut v = vec![];
        for k in 0..s.range(2, 6) {
            if s.chance(1, 10) {
                v.push(Do::Evaluate);
                continue;
            }
            let m = match s.weighted(&[4, 1, 1]) {
                0 => format!("t{i}m{k};"),
                1 => format!("t{i}m{k}; {}{i}m{k}!", "z".repeat(1000 + s.draw(1200) as usize)),
                _ => format!("t{i}m{k};\nmore of t{i}m{k};"),
            };
            v.push(Do::Emit(*s.pick(&LEVELS), m));
        }
        if mover == Some(i) {
            let at = s.below(v.len() + 1);
            v.insert(at, Do::Move(l1));
        }
        acts.push(v);
    }
    let faulty = s.chance(1, 5);
    let env = Env::draw(s);
    let mut wchunks = vec![];
    for _ in 0..s.weighted(&[3, 1, 1, 1]) {
        wchunks.push(match s.below(3) {
            0 => -1,
            1 => 1 + s.draw(400) as i64,
            _ => 0,
        });
    }
    let pre = super::session::preempts(s, if cx.thorough { 120 } else { 40 });
    let mut sim = env.sim(n, "ds/annotation");
    pre.clone().into(&mut sim);
    sim.wchunks = wchunks.clone();
    if faulty {
        let e = *cx.src.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]);
        let nth = cx.src.draw(8) as u32;
        sim.faults.push(Fault { path: "res*".into(), op: Op::Write, nth, act: Act::Sticky(e) });
    }
    cx.tell(format!("{n} threads log at once: level {l0} into res0, then {l1} into res1 after a move; log faults {:?}; write limits {wchunks:?}; {}; {}", sim.faults, env.text(), pre.text()));
    for (i, a) in acts.iter().enumerate() {
        cx.tell(format!("  thread {i}: {}", format!("{a:?}").chars().take(300).collect::<String>()));
    }
    let (wr, ar, mr) = (&w, &acts, &msg);
    let (lo, hi) = if mover.is_some() { (l0.min(l1), l0.max(l1)) } else { (l0, l0) };
    let end = cx.process(sim, move |cx| {
        let c = match load(&wr.scn_path, "./res0", false)? {
            Ok(c) => c,
            Err(m) => return fail("refused", format!("a well-formed scenario was refused: {m}")),
        };
        if !scn {
            if let Err(e) = lib_ok("configuring the logger", || configure_logger(Path::new("./res0/log"), l0).map_err(|e| e.to_string()))? {
                return fail("refused", format!("setting up logging was refused without any fault: {e}"));
            }
        }
        let eval = |c: &C| -> Result<Value, crate::runner::Fail> {
            let mut m = manager(c)?;
            if let Some(x) = mr {
                add(&mut m, &x.dets, &x.gt)?;
            }
            Ok(json!([history_dump(&m), report(&m)?]))
        };
        let calm = eval(&c)?;
        let (c, calm) = (&c, &calm);
        let jobs: Vec<super::session::Job> = ar
            .iter()
            .enumerate()
            .map(|(i, acts)| {
                Box::new(move || {
                    let mut moved = false;
                    for a in acts {
                        match a {
                            Do::Emit(l, m) => {
                                emit(*l, m)?;
                                let line = format!("{} - {m}\n", l.as_str());
                                let must = if mover == Some(i) { *l <= if moved { l1 } else { l0 } } else { *l <= lo };
                                if must && !faulty {
                                    let at = |d: usize| String::from_utf8_lossy(&read_log(d)).contains(&line);
                                    let ok = if mover == Some(i) { at(moved as usize) } else { at(0) || at(1) };
                                    ensure!(ok, "record-missing", "thread {i}: {:?} is not in the log when the call returns", line.chars().take(60).collect::<String>());
                                }
                            }
                            Do::Move(l) => {
                                let r = lib_ok("configuring the logger", || configure_logger(Path::new("./res1/log"), *l).map_err(|e| e.to_string()))?;
                                if let Err(e) = r {
                                    return fail("refused", format!("moving the log was refused without any fault: {e}"));
                                }
                                moved = true;
                            }
                            Do::Evaluate => {
                                let got = eval(c)?;
                                ensure!(got == *calm, "result-differs", "thread {i}: an evaluation beside concurrent logging gives other results");
                            }
                        }
                    }
                    Ok(json!(acts.len()))
                }) as super::session::Job
            })
            .collect();
        super::session::threads(jobs)?;
        let logs: Vec<String> = (0..2).map(|d| String::from_utf8_lossy(&read_log(d)).into_owned()).collect();
        for (i, acts) in ar.iter().enumerate() {
            let mut moved = false;
            let mut seen: Vec<Vec<String>> = vec![vec![], vec![]];
            for a in acts {
                match a {
                    Do::Move(_) => moved = true,
                    Do::Evaluate => {}
                    Do::Emit(l, m) => {
                        let line = format!("{} - {m}\n", l.as_str());
                        let cnt: Vec<usize> = logs.iter().map(|t| t.matches(&line).count()).collect();
                        let short = line.chars().take(60).collect::<String>();
                        ensure!(cnt[0] + cnt[1] <= 1, "record-twice", "{short:?} of thread {i} is in the logs {} times", cnt[0] + cnt[1]);
                        ensure!(cnt[0] + cnt[1] == 0 || *l <= hi, "record-extra", "{short:?} of thread {i} is below every configured level and in the log");
                        if !faulty {
                            ensure!(cnt[0] + cnt[1] == 1 || *l > lo, "record-missing", "{short:?} of thread {i} is not in the logs");
                            if mover == Some(i) {
                                let (d, lev) = if moved { (1, l1) } else { (0, l0) };
                                ensure!(cnt[d] == (*l <= lev) as usize && cnt[1 - d] == 0, "record-place", "{short:?} of thread {i}, logged at level {lev} into res{d}, is in res0 {} and in res1 {} times", cnt[0], cnt[1]);
                            }
                            for d in 0..2 {
                                if cnt[d] == 1 {
                                    seen[d].push(line.clone());
                                }
                            }
                        }
                    }
                }
            }
            for d in 0..2 {
                if let Err(m) = in_order(&logs[d], &seen[d]) {
                    return fail("record-order", format!("log of res{d}, records of thread {i}: {m}"));
                }
                cx.count("records found in the log", seen[d].len() as u64);
            }
        }
        Ok(json!(logs))
    })?;
    match end {
        ProcEnd::Done(v) => cx.mixin(v.to_string().as_bytes()),
        ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
    }
    cx.count("runs with threads logging at once", 1);
    cx.st.nontrivial = true;
    Ok(())
}

fn c08(cx: &mut Ctx) -> Res {
    if cx.src.chance(1, 4) {
        return c08_threads(cx);
    }
    let w = world(cx, "ds", &DsOpts { scenes: 1, samples: 2, insts: 2, ..small_ds() });
    let mut g = ObjGen::new(&mut cx.src, &w.p);
    g.scale = false;
    let seedf: Vec<_> = (0..2).map(|i| g.frame(&mut cx.src, 1_600_000_000_000_000 + i * 100_000)).collect();
    let msgs = stream(cx, &mut g, &seedf, 3);
    let dirs = cx.src.range(1, 3) as usize;
    let nproc = cx.src.range(1, 3) as usize;
    let mut serial = 0u64;
    let mut record = |s: &mut crate::choice::Src| -> (Level, String) {
        serial += 1;
        let l = *s.pick(&LEVELS);
        let body = match s.weighted(&[5, 2, 1, 1, 1]) {
            0 => format!("m{serial};"),
            1 => format!("m{serial}; {{l}} {{}} $ENV{{HOME}} %s \u{e9}\u{1f697};"),
            2 => format!("m{serial}; {}m{serial}!", "x".repeat(900 + s.draw(400) as usize)),
            3 => format!("m{serial}; {}m{serial}!", "y".repeat(if s.chance(1, 40) { 20_000 + s.below(200_000) } else { 3000 })),
            _ => format!("m{serial};\nsecond line of m{serial};"),
        };
        (l, body)
    };
    // plan every process before running any
    let mut procs: Vec<(Vec<Step>, Vec<Fault>, Vec<i64>, Env)> = vec![];
    for pi in 0..nproc {
        let s = &mut cx.src;
        let mut steps = vec![];
        for _ in 0..s.range(1, 3) {
            let d = s.below(dirs);
            steps.push(Step::Configure(d, if s.chance(1, 2) { Some(*s.pick(&LEVELS)) } else { None }));
            for _ in 0..s.range(1, 3) {
                if s.chance(1, 3) {
                    steps.push(Step::Evaluate(s.below(msgs.len().max(1))));
                } else {
                    let n = s.range(1, 4);
                    steps.push(Step::Emit((0..n).map(|_| record(s)).collect()));
                }
            }
        }
        let mut faults = vec![];
        let d = s.below(dirs);
        let out = format!("{}/output.log", log_rel(d));
        match s.weighted(&[4, 2, 2, 2, 2, 1]) {
            1 => {
                // the log file cannot be created
                let e = *s.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EMFILE, libc::EIO, libc::EDQUOT]);
                faults.push(Fault { path: out, op: Op::Create, nth: s.draw(2) as u32, act: if s.chance(1, 2) { Act::Sticky(e) } else { Act::Err(e) } });
            }
            2 => {
                let e = *s.pick(&[libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EIO]);
                let p = if s.chance(1, 2) { log_rel(d) } else { format!("res{d}*") };
                faults.push(Fault { path: p, op: Op::Mkdir, nth: 0, act: Act::Sticky(e) });
            }
            3 => {
                let e = *s.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EROFS]);
                let nth = s.draw(6) as u32;
                faults.push(Fault { path: out, op: Op::Write, nth, act: if s.chance(1, 2) { Act::Sticky(e) } else { Act::Err(e) } });
            }
            4 => {
                // a torn write at the end of a full disk
                let nth = s.draw(5) as u32;
                faults.push(Fault { path: out.clone(), op: Op::Write, nth, act: Act::Short(1 + s.draw(30) as usize) });
                faults.push(Fault { path: out, op: Op::Write, nth: nth + 1, act: Act::Sticky(libc::ENOSPC) });
            }
            5 => faults.push(Fault { path: out, op: Op::Write, nth: s.draw(5) as u32, act: Act::Stall(60_000_000_000) }),
            _ => {
                if pi + 1 < nproc {
                    let nth = s.draw(6) as u32;
                    faults.push(Fault { path: "res*".into(), op: Op::Write, nth, act: Act::Kill(s.draw(64) as usize) });
                }
            }
        }
        let mut wchunks = vec![];
        for _ in 0..s.weighted(&[3, 1, 1, 1]) {
            wchunks.push(match s.below(3) {
                0 => -1,
                1 => 1 + s.draw(40) as i64,
                _ => 0,
            });
        }
        procs.push((steps, faults, wchunks, Env::draw(s)));
    }
    // obstacles that are there from the start
    let blocked: Option<usize> = if cx.src.chance(1, 6) {
        let d = cx.src.below(dirs);
        match cx.src.below(3) {
            0 => std::fs::write(format!("./res{d}"), "in the way").unwrap(),
            1 => {
                std::fs::create_dir(format!("./res{d}")).unwrap();
                std::fs::write(format!("./res{d}/log"), "in the way").unwrap()
            }
            _ => std::fs::create_dir_all(format!("./res{d}/log/output.log")).unwrap(),
        }
        *cx.st.faults.entry("disk:obstacle".into()).or_default() += 1;
        cx.tell(format!("res{d} cannot hold a log"));
        Some(d)
    } else {
        None
    };
    // what the evaluations give without any log fault
    let (w1, m1) = (&w, &msgs);
    let calm = match cx.process(Env::calm().sim(1, "ds/annotation"), move |_| {
        let c = w1.config()?;
        let mut out = vec![];
        for msg in m1.iter() {
            let mut m = manager(&c)?;
            add(&mut m, &msg.dets, &msg.gt)?;
            out.push(json!([gt_dump(&m.frame_ground_truths), history_dump(&m), report(&m)?]));
        }
        Ok(json!(out))
    })? {
        ProcEnd::Done(v) => v,
        ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
    };
    if blocked.is_none() && cx.src.chance(1, 40) {
        // a log that earlier processes have made long
        let d = cx.src.below(dirs);
        let n = *cx.src.pick(&[5_000usize, 70_000, 1_100_000, 11_000_000]);
        std::fs::create_dir_all(format!("./{}", log_rel(d))).unwrap();
        std::fs::write(format!("./{}/output.log", log_rel(d)), "INFO - old record\n".repeat(n / 18)).unwrap();
        cx.tell(format!("the log of res{d} already holds {n} bytes"));
        cx.count("long logs continued", 1);
    }
    let mut before: Vec<Vec<u8>> = (0..dirs).map(read_log).collect();
    for (pi, (steps, faults, wchunks, env)) in procs.iter().enumerate() {
        cx.tell(format!("process {pi}: {}; log faults {faults:?}; write limits {wchunks:?}", env.text()));
        for st in steps {
            let t = format!("{st:?}");
            cx.tell(format!("  {}", t.chars().take(300).collect::<String>()));
        }
        let mut sim = env.sim(1, "ds/annotation");
        sim.faults.extend(faults.iter().cloned());
        sim.wchunks = wchunks.clone();
        let (w1, m1, calm1) = (&w, &msgs, &calm);
        let inner = cx.inner;
        let before1 = before.clone();
        let end = cx.process(sim, move |cx| {
            let mut cur: Option<(usize, Level)> = None; // where the records go
            let mut cfg: Option<C> = None;
            let mut want: Vec<Vec<String>> = vec![vec![]; dirs]; // records that must be in each log
            let mut never: Vec<String> = vec![];
            let errs = |p: &str| -> u64 { sys::sim().fired.iter().filter(|(k, _)| k.starts_with(p) && k.contains("errno") && !k.ends_with("EINTR")).map(|x| *x.1).sum() };
            for step in steps {
                match step {
                    Step::Configure(d, lev) => {
                        let res = format!("./res{d}");
                        let hit = errs("Create") + errs("Mkdir");
                        let fresh = !Path::new(&format!("./{}/output.log", log_rel(*d))).exists();
                        let (ok, msg) = match lev {
                            Some(l) => {
                                let p = format!("{res}/log");
                                let r = lib_ok("configuring the logger", || configure_logger(Path::new(&p), *l).map_err(|e| e.to_string()))?;
                                (r.is_ok(), r.err().unwrap_or_default())
                            }
                            None => match load(&w1.scn_path, &res, false)? {
                                Ok(c) => {
                                    cfg = Some(c);
                                    (true, String::new())
                                }
                                Err(m) => (false, m),
                            },
                        };
                        let faulted = errs("Create") + errs("Mkdir") > hit;
                        if blocked == Some(*d) || (faulted && errs("Create") > 0 && fresh) {
                            ensure!(!ok || blocked != Some(*d), "accepted", "a session was set up although its log file cannot exist");
                        }
                        if ok {
                            ensure!(Path::new(&format!("./{}/output.log", log_rel(*d))).is_file(), "no-log", "a session was set up without a log file in {res}/log");
                            cur = Some((*d, lev.unwrap_or(Level::Debug)));
                            cx.count("sessions configured", 1);
                        } else {
                            ensure!(faulted || blocked == Some(*d), "refused", "setting up logging in {res} was refused without any fault: {msg}");
                            cx.count("sessions refused", 1);
                        }
                    }
                    Step::Emit(v) => {
                        for (l, m) in v {
                            let hit = errs("Write");
                            emit(*l, m)?;
                            let healthy = errs("Write") == hit;
                            let line = format!("{} - {m}\n", l.as_str());
                            match cur {
                                Some((d, lev)) if *l <= lev => {
                                    if healthy {
                                        let t = String::from_utf8_lossy(&read_log(d)).into_owned();
                                        ensure!(t.contains(&line), "record-missing", "after logging to res{d} at level {lev}, {:?} is not in the log file", line.chars().take(60).collect::<String>());
                                        want[d].push(line);
                                        inner.phase.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                        cx.count("records found in the log", 1);
                                    }
                                }
                                _ => never.push(line),
                            }
                        }
                    }
                    Step::Evaluate(k) => {
                        if let (Some(c), Some(msg)) = (&cfg, m1.get(*k)) {
                            let mut m = manager(c)?;
                            add(&mut m, &msg.dets, &msg.gt)?;
                            let r = report(&m)?;
                            let got = json!([gt_dump(&m.frame_ground_truths), history_dump(&m), r]);
                            ensure!(got == calm1[*k], "result-differs", "an evaluation beside a faulty log gives other results");
                            cx.count("evaluations compared", 1);
                        }
                    }
                }
            }
            for d in 0..dirs {
                let all = read_log(d);
                ensure!(all.starts_with(&before1[d]), "log-lost", "the log of res{d} no longer starts with what earlier processes wrote");
                let t = String::from_utf8_lossy(&all[before1[d].len()..]).into_owned();
                if let Err(m) = in_order(&t, &want[d]) {
                    return fail("record-order", format!("log of res{d}: {m}"));
                }
                for n in &never {
                    ensure!(!t.contains(n.as_str()), "record-extra", "log of res{d} holds {:?}, which is below its level or of no session", n.chars().take(60).collect::<String>());
                }
            }
            Ok(json!(want.iter().map(|v| v.len()).sum::<usize>()))
        })?;
        let killed = matches!(end, ProcEnd::Killed);
        for d in 0..dirs {
            let now = read_log(d);
            ensure!(now.starts_with(&before[d]), "log-lost", "after process {pi} the log of res{d} no longer starts with what earlier processes wrote");
            before[d] = now;
        }
        if killed {
            // records whose logging call had returned are on disk
            let n = inner.phase.load(std::sync::atomic::Ordering::SeqCst) as usize;
            let mut seen = 0;
            let all: String = before.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect();
            for st in steps {
                if let Step::Emit(v) = st {
                    seen += v.iter().filter(|(l, m)| all.contains(&format!("{} - {m}\n", l.as_str()))).count();
                }
            }
            ensure!(seen >= n, "record-lost", "{n} records were logged before process {pi} was killed, {seen} are in the logs");
            cx.count("processes killed while logging", 1);
        }
        let st: Value = match end {
            ProcEnd::Done(v) => v,
            ProcEnd::Killed => json!(null),
        };
        cx.mixin(st.to_string().as_bytes());
    }
    for b in &before {
        cx.mixin(b);
    }
    let _ = lib(|| ());
    cx.st.nontrivial = true;
    Ok(())
}
