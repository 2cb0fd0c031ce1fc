//! Dataset loading: C01 C02 C03 C04 C05 C14 C16.
use super::world::*;
use crate::choice::{hash_bytes, mix, Src};
use crate::ensure;
use crate::gen::*;
use crate::model;
use crate::runner::{fail, lib_ok, Ctx, Fail, ProcEnd, Prop, Res};
use crate::sys::{self, Act, Fault, Op};
use perception_eval::dataset::nuscenes::{schema, LoadedSampleData, NuScenes};
use perception_eval::dataset::{load_dataset, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::frame_id::FrameID;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01,
            quick: 50000,
            thorough: 1400000,
            rule: "a run is non-trivial when at least one sample was loaded and compared; distinct = distinct digest of all seam events",
            real: "perception_eval::dataset::nuscenes (load, integrity checks, iterators), serde_json, std::fs, BufReader, HashMap",
            stub: "kernel read/open splitting, interruption and delay; entropy; clock; placement of byte buffers",
        },
        Prop {
            id: "C02",
            run: c02,
            quick: 70000,
            thorough: 1960000,
            rule: "a run is non-trivial when a table was damaged or an I/O fault fired; distinct = distinct digest of all seam events",
            real: "perception_eval::dataset::nuscenes::load and load_dataset, serde_json, std::fs, BufReader",
            stub: "kernel open/read results (errno, early end of file, short reads), stored bytes damaged by the harness",
        },
        Prop {
            id: "C03",
            run: c03,
            quick: 80000,
            thorough: 2240000,
            rule: "a run is non-trivial when the stored tables were altered or the whole dataset was navigated; distinct = distinct digest of all seam events",
            real: "perception_eval::dataset::nuscenes (load, integrity checks, all navigation)",
            stub: "stored tables altered by the harness; entropy; read splitting",
        },
        Prop {
            id: "C04",
            run: c04,
            quick: 80000,
            thorough: 2240000,
            rule: "a run is non-trivial when at least one frame has an object; distinct = distinct digest of all seam events and frames",
            real: "perception_eval::dataset::load_dataset, nuscenes get_sample_data/get_boxes, box transforms, label conversion",
            stub: "kernel read splitting; entropy; clock",
        },
        Prop {
            id: "C05",
            run: c05,
            quick: 22000,
            thorough: 616000,
            rule: "a run is non-trivial when all simulated processes produced frames and a report that were compared; distinct = distinct digest of seam events and outputs",
            real: "scenario loading, dataset loading, matching, metrics, report formatting in several simulated processes",
            stub: "entropy (hash seeds), clock, read splitting differ per process",
        },
        Prop {
            id: "C14",
            run: c14,
            quick: 70000,
            thorough: 1960000,
            rule: "a run is non-trivial when a payload was read back; distinct = distinct digest of all seam events",
            real: "WithDataset<SampleData>::open/load_raw/load, image crate PNG decoding, nalgebra storage",
            stub: "kernel open/read results, buffer placement (allocator), stored payload damage",
        },
        Prop {
            id: "C21",
            run: c21,
            quick: 40000,
            thorough: 1120000,
            rule: "a run is non-trivial when at least one box was compared; distinct = distinct digest of all seam events including every switch",
            real: "NuScenes::get_sample_data/get_sample_data_path/get_boxes/get_box, NuScenesBox operations, rotations, several threads reading one dataset",
            stub: "kernel read splitting; entropy; thread scheduling",
        },
        Prop {
            id: "C16",
            run: c16,
            quick: 28000,
            thorough: 784000,
            rule: "a run is non-trivial when tables were written through the record types and loaded again; distinct = distinct digest of all seam events",
            real: "serde implementations of the record types, NuScenes::load, std::fs writes",
            stub: "kernel write results (errno, short, torn, process killed), read splitting, entropy",
        },
    ]
}

const VERSIONS: [&str; 3] = ["annotation", "v1.0-mini", "v 2.\u{e9}"];

fn load(version: &str, root: &str) -> Result<Result<NuScenes, String>, Fail> {
    lib_ok("loading the dataset", || NuScenes::load(version, root).map_err(|e| e.to_string()))
}
fn compare(n: &NuScenes, d: &DS) -> Res {
    lib_ok("listing the records", || model::compare_loaded(n, d))?
}
fn no_open_files() -> Res {
    ensure!(sys::sim().open_tracked == 0, "fd-leak", "{} files are still open after the load returned", sys::sim().open_tracked);
    Ok(())
}

/// What editors, copies and interrupted writers leave beside the tables.
fn strays(cx: &mut Ctx, meta: &std::path::Path, tables: &[(String, String)]) {
    if !cx.src.chance(1, 5) {
        return;
    }
    let s = &mut cx.src;
    let suffix = *s.pick(&["json.tmp", "json.bak", "json~", "json.old", "json.1", "tmp", "bak", "jsonl", "json.part", "json.new"]);
    let torn = s.chance(1, 2);
    for (n, text) in tables {
        let keep = if torn { s.below(text.len()) } else { text.len() };
        std::fs::write(meta.join(format!("{n}.{suffix}")), &text.as_bytes()[..keep]).unwrap();
    }
    cx.tell(format!("{} copies NAME.{suffix} lie beside the tables", if torn { "torn" } else { "complete" }));
    cx.count("runs with stray copies", 1);
}
fn c01(cx: &mut Ctx) -> Res {
    let d = dataset(&mut cx.src, &DsOpts { scenes: 3, samples: 6, insts: 5, big: true, ..DsOpts::default() });
    let st = Style::draw(&mut cx.src);
    let version = *cx.src.pick(&VERSIONS);
    let env = Env::draw(&mut cx.src);
    let env2 = Env::draw(&mut cx.src);
    let slash = cx.src.chance(1, 6);
    let root = format!("{}/ds{}", cx.dir, if slash { "/" } else { "" });
    let tables = write_ds(&d, &st, std::path::Path::new(&root), version);
    strays(cx, &std::path::Path::new(&root).join(version), &tables);
    cx.tell(short(&d));
    cx.tell(format!("stored as {st:?}"));
    // what the process loads next: the same, another version, another directory, or a new dataset in place
    let mut plan: Vec<(String, String, DS, bool)> = vec![(root.clone(), version.into(), d.clone(), false)];
    let next = cx.src.weighted(&[9, 1, 1, 1]);
    if next == 0 {
        plan.push(plan[0].clone());
    } else {
        let d2 = dataset(&mut cx.src, &DsOpts { scenes: 2, samples: 3, insts: 3, ..DsOpts::default() });
        let v2 = VERSIONS.iter().find(|v| **v != version).unwrap().to_string();
        match next {
            1 => plan.push((root.clone(), v2, d2, true)),
            2 => plan.push((format!("{}/other/ds", cx.dir), version.into(), d2, true)),
            _ => plan.push((root.clone(), version.into(), d2, true)),
        }
        if next < 3 {
            plan.push(plan[0].clone());
        }
        cx.tell(format!("then {}", ["", "another version", "another directory", "another dataset written in its place"][next]));
        cx.count("runs loading several datasets", 1);
    }
    for (i, (root, version, d, new)) in plan.iter().enumerate() {
        let e = if i == 0 { &env } else { &env2 };
        cx.tell(format!("load {i}: {}", e.text()));
        if *new {
            write_ds(d, &Style { salt: i as u64, ..st.clone() }, std::path::Path::new(root), version);
        }
        cx.arm(e.sim(1, &format!("ds/{version}")));
        let n = match load(version, root)? {
            Ok(n) => n,
            Err(m) => return fail("refused", format!("an intact dataset was refused: {m}")),
        };
        no_open_files()?;
        ensure!(n.version() == version, "version", "version {:?}", n.version());
        ensure!(n.dir() == std::path::Path::new(root), "dir", "directory {:?}", n.dir());
        compare(&n, d)?;
        cx.disarm();
        cx.count("records compared", (d.anns.len() + d.samples.len() + d.datas.len() + d.egos.len()) as u64);
    }
    cx.st.nontrivial = !d.samples.is_empty();
    Ok(())
}

// ------------------------------------------------------------------ C02
fn ts_plain(t: &BTreeMap<String, Vec<u8>>) -> bool {
    fn walk(v: &Value) -> bool {
        match v {
            Value::Array(a) => a.iter().all(walk),
            Value::Object(o) => o.iter().all(|(k, x)| {
                if k == "timestamp" {
                    x.as_i64().map(|i| i.abs() < 1 << 53).unwrap_or_else(|| x.as_f64().map(|f| f.fract() == 0.0 && f.abs() < 9e15).unwrap_or(true))
                } else {
                    walk(x)
                }
            }),
            _ => true,
        }
    }
    t.values().all(|b| serde_json::from_slice::<Value>(b).map(|v| walk(&v)).unwrap_or(true))
}
const KNOWN_FIELDS: [&str; 40] = [
    "attribute_tokens", "calibrated_sensor_token", "camera_intrinsic", "category", "category_token", "channel", "date_captured", "description", "ego_pose_token", "fileformat", "filename", "first_annotation_token", "first_sample_token", "instance_token", "is_key_frame", "last_annotation_token", "last_sample_token", "level", "location", "log_token", "log_tokens", "logfile", "modality", "name", "nbr_annotations", "nbr_samples", "next", "num_lidar_pts", "num_radar_pts", "prev", "rotation", "sample_token", "scene_token", "sensor_token", "size", "timestamp", "token", "translation", "vehicle", "visibility_token",
];
/// The tables fail a strict parse, but only inside values (bytes that are no UTF-8, lone
/// surrogates, numbers out of range), which a reader that skips unknown fields never looks at.
fn outline_ok(t: &BTreeMap<String, Vec<u8>>) -> bool {
    type Row = BTreeMap<String, serde::de::IgnoredAny>;
    t.values().all(|b| match serde_json::from_slice::<Value>(b) {
        Ok(_) => true,
        Err(_) => serde_json::from_slice::<Vec<Row>>(b).is_ok_and(|rows| {
            rows.iter().flat_map(|r| r.keys()).any(|k| !KNOWN_FIELDS.contains(&k.as_str()))
        }),
    }) && t.values().any(|b| serde_json::from_slice::<Value>(b).is_err())
}
fn unique(d: &DS) -> bool {
    fn u<T: Ord>(mut v: Vec<T>) -> bool {
        let n = v.len();
        v.sort();
        v.dedup();
        v.len() == n
    }
    u(d.attrs.iter().map(|x| x.tok).collect())
        && u(d.calibs.iter().map(|x| x.tok).collect())
        && u(d.cats.iter().map(|x| x.tok).collect())
        && u(d.egos.iter().map(|x| x.tok).collect())
        && u(d.insts.iter().map(|x| x.tok).collect())
        && u(d.logs.iter().map(|x| x.tok).collect())
        && u(d.maps.iter().map(|x| x.tok).collect())
        && u(d.samples.iter().map(|x| x.tok).collect())
        && u(d.anns.iter().map(|x| x.tok).collect())
        && u(d.datas.iter().map(|x| x.tok).collect())
        && u(d.scenes.iter().map(|x| x.tok).collect())
        && u(d.sensors.iter().map(|x| x.tok).collect())
        && u(d.vis.iter().map(|x| x.tok.clone()).collect())
}

fn c02(cx: &mut Ctx) -> Res {
    let d = dataset(&mut cx.src, &DsOpts { scenes: 2, samples: 3, insts: 3, ..DsOpts::default() });
    let flips = cx.src.chance(1, 4);
    let mut st = Style::draw(&mut cx.src);
    if flips {
        st.extras = false;
        st.float_ts = false;
    }
    let version = *cx.src.pick(&VERSIONS);
    let rootp = format!("{}/ds", cx.dir);
    let root = PathBuf::from(&rootp);
    let tables = write_ds(&d, &st, &root, version);
    let meta = root.join(version);
    strays(cx, &meta, &tables);
    cx.tell(short(&d));
    let mut bytes: BTreeMap<String, Vec<u8>> = tables.iter().map(|(n, t)| (n.clone(), t.clone().into_bytes())).collect();
    let mut faults: Vec<Fault> = vec![];
    let mut must_fail = false;
    let mut fault_ops = false;
    if flips {
        let t = cx.src.pick(&TABLES).to_string();
        let b = bytes.get_mut(&t).unwrap();
        for _ in 0..cx.src.range(1, 3) {
            let at = cx.src.below(b.len());
            let old = b[at];
            b[at] = match cx.src.weighted(&[3, 3, 1]) {
                0 => old ^ (1 << cx.src.below(8)),
                1 => *cx.src.pick(b"0159aeE.-\",:[]{} n\\x"),
                _ => cx.src.draw(256) as u8,
            };
            cx.tell(format!("{t}.json: byte {at} changed from {old:#x} to {:#x}", b[at]));
        }
        std::fs::write(meta.join(format!("{t}.json")), &*b).unwrap();
        *cx.st.faults.entry("disk:byte-changed".into()).or_default() += 1;
    } else {
        let mut hit: Vec<String> = vec![];
        for _ in 0..cx.src.range(1, 2) {
            let t = cx.src.pick(&TABLES).to_string();
            if hit.contains(&t) {
                continue; // one damage could hide another one of the same table
            }
            hit.push(t.clone());
            let file = meta.join(format!("{t}.json"));
            let rel = format!("ds/{version}/{t}.json");
            let b = tables.iter().find(|x| x.0 == t).unwrap().1.clone().into_bytes();
            let end = b.iter().rposition(|c| *c == b']').unwrap();
            match cx.src.below(11) {
                0 => {
                    let _ = std::fs::remove_file(&file).or_else(|_| std::fs::remove_dir(&file));
                    cx.tell(format!("{t}.json is missing"));
                    *cx.st.faults.entry("disk:missing-file".into()).or_default() += 1;
                    must_fail = true;
                }
                1 | 2 => {
                    let at = match cx.src.weighted(&[3, 2, 1]) {
                        0 => cx.src.below(end + 1),
                        1 => {
                            // at a record boundary
                            let ends: Vec<usize> = (0..end).filter(|&i| b[i] == b'}').collect();
                            if ends.is_empty() {
                                0
                            } else {
                                *cx.src.pick(&ends) + 1
                            }
                        }
                        _ => end,
                    };
                    if file.is_file() {
                        std::fs::write(&file, &b[..at]).unwrap();
                    }
                    cx.tell(format!("{t}.json is truncated to {at} of {} bytes", b.len()));
                    *cx.st.faults.entry("disk:torn-file".into()).or_default() += 1;
                    must_fail = true;
                }
                3 => {
                    let tail = *cx.src.pick(&["x", "[]", "]", "{}", ",", "\u{0}", "null", "\n\n1"]);
                    if file.is_file() {
                        std::fs::write(&file, [&b[..], tail.as_bytes()].concat()).unwrap();
                    }
                    cx.tell(format!("{t}.json is followed by {tail:?}"));
                    *cx.st.faults.entry("disk:trailing-garbage".into()).or_default() += 1;
                    must_fail = true;
                }
                4 => {
                    let _ = std::fs::remove_file(&file);
                    let _ = std::fs::create_dir(&file);
                    cx.tell(format!("{t}.json is a directory"));
                    *cx.st.faults.entry("disk:directory-in-place".into()).or_default() += 1;
                    must_fail = true;
                }
                5 => {
                    let all: [&[u8]; 9] = [b"", b"null", b"{}", b"[null]", b"[{}]", b"42", b"\"x\"", b"\xff\xfe[\x00]\x00", b"[[]]"];
                    let c = *cx.src.pick(&all);
                    if file.is_file() {
                        std::fs::write(&file, c).unwrap();
                    }
                    cx.tell(format!("{t}.json holds {:?}", String::from_utf8_lossy(c)));
                    *cx.st.faults.entry("disk:foreign-content".into()).or_default() += 1;
                    must_fail = true;
                }
                6 => {
                    // one record loses a required field or has it with another type
                    let mut v: Value = serde_json::from_slice(&b).unwrap();
                    let a = v.as_array_mut().unwrap();
                    if !a.is_empty() && file.is_file() {
                        let i = cx.src.below(a.len());
                        let o = a[i].as_object_mut().unwrap();
                        let keys: Vec<String> = o.keys().filter(|k| !["zz_extra", "height", "date_captured"].contains(&k.as_str())).cloned().collect();
                        let k = cx.src.pick(&keys).clone();
                        let how = cx.src.below(3);
                        match how {
                            0 => {
                                o.remove(&k);
                            }
                            1 => {
                                o.insert(k.clone(), json!({"x": 1}));
                            }
                            _ => {
                                o.insert(k.clone(), Value::Null);
                            }
                        }
                        std::fs::write(&file, serde_json::to_vec(&v).unwrap()).unwrap();
                        cx.tell(format!("{t}.json record {i}: field {k} {}", ["removed", "replaced by an object", "null"][how]));
                        *cx.st.faults.entry("disk:field-damaged".into()).or_default() += 1;
                        must_fail = true;
                    }
                }
                7 => {
                    let e = *cx.src.pick(&[libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ENOMEM, libc::ELOOP, libc::ESTALE, libc::ENOENT]);
                    let sticky = cx.src.chance(2, 3);
                    faults.push(Fault { path: rel, op: Op::Open, nth: 0, act: if sticky { Act::Sticky(e) } else { Act::Err(e) } });
                    cx.tell(format!("opening {t}.json fails with {}{}", sys::errno_name(e), if sticky { "" } else { " once" }));
                    must_fail |= sticky;
                    fault_ops = true;
                }
                8 | 9 => {
                    let e = *cx.src.pick(&[libc::EIO, libc::ESTALE, libc::ETIMEDOUT, libc::ENOMEM]);
                    let nth = cx.src.draw(4) as u32;
                    let sticky = cx.src.chance(2, 3);
                    faults.push(Fault { path: rel, op: Op::Read, nth, act: if sticky { Act::Sticky(e) } else { Act::Err(e) } });
                    cx.tell(format!("read {nth} of {t}.json fails with {}{}", sys::errno_name(e), if sticky { "" } else { " once" }));
                    must_fail |= sticky && nth == 0;
                    fault_ops = true;
                }
                _ => {
                    let nth = cx.src.draw(3) as u32;
                    faults.push(Fault { path: rel, op: Op::Read, nth, act: Act::Eof });
                    cx.tell(format!("{t}.json ends at read {nth}"));
                    must_fail |= nth == 0;
                    fault_ops = true;
                }
            }
        }
    }
    let env = Env::draw(&mut cx.src);
    let via_frames = !flips && cx.src.chance(1, 4);
    let mut sim = env.sim(1, &format!("ds/{version}"));
    sim.faults.splice(0..0, faults);
    cx.tell(env.text());
    cx.arm(sim);
    if via_frames {
        let r = lib_ok("loading the dataset for evaluation", || {
            load_dataset(version, &root, &EvaluationTask::Detection, &FrameID::BaseLink).map_err(|e| e.to_string())
        })?;
        no_open_files()?;
        if let Ok(f) = r {
            ensure!(!must_fail, "accepted", "a dataset with a damaged table was loaded");
            model::compare_frames(&f, &d, &FrameID::BaseLink)?;
        }
    } else {
        let r = load(version, &rootp)?;
        no_open_files()?;
        match r {
            Ok(n) => {
                ensure!(!must_fail, "accepted", "a dataset with a damaged table was loaded");
                if flips {
                    bytes.retain(|_, _| true);
                    match parse_tables(&bytes) {
                        None => {
                            // numbers written in an unusual way are outside what the property names
                            // so is what stands in fields the tables do not define
                            ensure!(!ts_plain(&bytes) || outline_ok(&bytes), "accepted", "a table that is not well formed was loaded");
                        }
                        Some(w) => {
                            if ts_plain(&bytes) && unique(&w) {
                                if let Some(why) = model::inconsistent(&w) {
                                    return fail("accepted", format!("an inconsistent dataset was loaded: {why}"));
                                }
                                compare(&n, &w)?;
                            }
                        }
                    }
                } else {
                    compare(&n, &d)?;
                }
            }
            Err(_) => {
                cx.count("refusals", 1);
            }
        }
    }
    // the fault goes away
    let fired = sys::sim().fired.keys().any(|k| k.starts_with("Open:") || k.contains("Read:errnoE") || k.ends_with(":eof"));
    cx.st.nontrivial = must_fail || flips || (fault_ops && fired);
    for (n, t) in &tables {
        let f = meta.join(format!("{n}.json"));
        let _ = std::fs::remove_dir(&f);
        std::fs::write(&f, t).unwrap();
    }
    sys::sim().clear_faults();
    match load(version, &rootp)? {
        Ok(n) => compare(&n, &d)?,
        Err(m) => return fail("no-recovery", format!("the restored dataset was refused in the same process: {m}")),
    }
    no_open_files()?;
    cx.disarm();
    Ok(())
}

// ------------------------------------------------------------------ C03
fn other<T: Copy>(s: &mut Src, v: &[T], fresh: T) -> T {
    if v.is_empty() || s.chance(1, 2) {
        fresh
    } else {
        *s.pick(v)
    }
}
fn other_opt(s: &mut Src, v: &[Tok], fresh: Tok) -> Option<Tok> {
    match s.below(3) {
        0 => None,
        1 => Some(fresh),
        _ => Some(other(s, v, fresh)),
    }
}
fn mutate(s: &mut Src, d: &mut DS) -> Option<String> {
    let fresh: Tok = 0xdead_beef_0000_0000_0000_0000_0000_0000u128 + s.draw(1 << 20) as u128;
    let samples: Vec<Tok> = d.samples.iter().map(|x| x.tok).collect();
    let anns: Vec<Tok> = d.anns.iter().map(|x| x.tok).collect();
    let datas: Vec<Tok> = d.datas.iter().map(|x| x.tok).collect();
    let insts: Vec<Tok> = d.insts.iter().map(|x| x.tok).collect();
    let scenes: Vec<Tok> = d.scenes.iter().map(|x| x.tok).collect();
    macro_rules! one {
        ($v:expr) => {{
            if $v.is_empty() {
                return None;
            }
            let i = s.below($v.len());
            (&mut $v[i], i)
        }};
    }
    let k = s.below(35);
    let what = match k {
        0 => {
            let (x, i) = one!(d.calibs);
            x.sensor = fresh;
            format!("calibrated sensor {i}: sensor dangles")
        }
        1 => {
            let c: Vec<Tok> = d.cats.iter().map(|x| x.tok).collect();
            let (x, i) = one!(d.insts);
            x.cat = other(s, &c, fresh);
            format!("instance {i}: category changed")
        }
        2 => {
            let (x, i) = one!(d.insts);
            x.first = other(s, &anns, fresh);
            format!("instance {i}: first annotation changed")
        }
        3 => {
            let (x, i) = one!(d.insts);
            x.last = other(s, &anns, fresh);
            format!("instance {i}: last annotation changed")
        }
        4 => {
            let (x, i) = one!(d.insts);
            x.n = match s.below(4) {
                0 => x.n.wrapping_add(1),
                1 => x.n.saturating_sub(1),
                2 => 0,
                _ => u64::MAX,
            };
            format!("instance {i}: annotation count {}", x.n)
        }
        5 => {
            let l: Vec<Tok> = d.logs.iter().map(|x| x.tok).collect();
            let (x, i) = one!(d.scenes);
            x.log = other(s, &l, fresh);
            format!("scene {i}: log changed")
        }
        6 => {
            let (x, i) = one!(d.scenes);
            x.first = other(s, &samples, fresh);
            format!("scene {i}: first sample changed")
        }
        7 => {
            let (x, i) = one!(d.scenes);
            x.last = other(s, &samples, fresh);
            format!("scene {i}: last sample changed")
        }
        8 => {
            let (x, i) = one!(d.scenes);
            x.n = match s.below(4) {
                0 => x.n.wrapping_add(1),
                1 => x.n.saturating_sub(1),
                2 => 0,
                _ => u64::MAX,
            };
            format!("scene {i}: sample count {}", x.n)
        }
        9 => {
            let (x, i) = one!(d.samples);
            x.scene = other(s, &scenes, fresh);
            format!("sample {i}: scene changed")
        }
        10 | 11 => {
            let (x, i) = one!(d.samples);
            x.prev = other_opt(s, &samples, fresh);
            if s.chance(1, 3) {
                // the first of a chain claims a predecessor
                let i = s.below(d.samples.len());
                if d.samples[i].prev.is_none() {
                    d.samples[i].prev = Some(*s.pick(&samples));
                }
            }
            format!("sample {i}: previous changed")
        }
        12 | 13 => {
            let (x, i) = one!(d.samples);
            x.next = other_opt(s, &samples, fresh);
            format!("sample {i}: next changed")
        }
        14 => {
            let (x, i) = one!(d.anns);
            x.sample = other(s, &samples, fresh);
            format!("annotation {i}: sample changed")
        }
        15 => {
            let (x, i) = one!(d.anns);
            x.inst = other(s, &insts, fresh);
            format!("annotation {i}: instance changed")
        }
        16 => {
            let at: Vec<Tok> = d.attrs.iter().map(|x| x.tok).collect();
            let (x, i) = one!(d.anns);
            let p = s.below(x.attrs.len() + 1);
            x.attrs.insert(p, other(s, &at, fresh));
            format!("annotation {i}: attribute added")
        }
        17 => {
            let (x, i) = one!(d.anns);
            x.vis = Some(if s.chance(1, 2) { "nope".into() } else { "v9".into() });
            format!("annotation {i}: visibility changed")
        }
        18 | 19 => {
            let (x, i) = one!(d.anns);
            x.prev = other_opt(s, &anns, fresh);
            if s.chance(1, 3) {
                let i = s.below(d.anns.len());
                if d.anns[i].prev.is_none() {
                    d.anns[i].prev = Some(*s.pick(&anns));
                }
            }
            format!("annotation {i}: previous changed")
        }
        20 | 21 => {
            let (x, i) = one!(d.anns);
            x.next = other_opt(s, &anns, fresh);
            format!("annotation {i}: next changed")
        }
        22 => {
            let (x, i) = one!(d.datas);
            x.sample = other(s, &samples, fresh);
            format!("sensor record {i}: sample changed")
        }
        23 => {
            let e: Vec<Tok> = d.egos.iter().map(|x| x.tok).collect();
            let (x, i) = one!(d.datas);
            x.ego = other(s, &e, fresh);
            format!("sensor record {i}: ego pose changed")
        }
        24 => {
            let e: Vec<Tok> = d.calibs.iter().map(|x| x.tok).collect();
            let (x, i) = one!(d.datas);
            x.calib = other(s, &e, fresh);
            format!("sensor record {i}: calibrated sensor changed")
        }
        25 => {
            let (x, i) = one!(d.datas);
            x.prev = other_opt(s, &datas, fresh);
            format!("sensor record {i}: previous changed")
        }
        26 => {
            let (x, i) = one!(d.datas);
            x.next = other_opt(s, &datas, fresh);
            format!("sensor record {i}: next changed")
        }
        27 => {
            let (x, i) = one!(d.maps);
            x.logs.push(fresh);
            format!("map {i}: names an absent log")
        }
        28 => {
            // close a scene's chain into a ring
            let (x, i) = one!(d.scenes);
            let (f, l) = (x.first, x.last);
            if let Some(y) = d.samples.iter_mut().find(|y| y.tok == l) {
                y.next = Some(f);
            }
            if s.chance(1, 2) {
                if let Some(y) = d.samples.iter_mut().find(|y| y.tok == f) {
                    y.prev = Some(l);
                }
            }
            format!("scene {i}: chain is a ring")
        }
        29 => {
            let (x, i) = one!(d.insts);
            let (f, l) = (x.first, x.last);
            if let Some(y) = d.anns.iter_mut().find(|y| y.tok == l) {
                y.next = Some(f);
            }
            if s.chance(1, 2) {
                if let Some(y) = d.anns.iter_mut().find(|y| y.tok == f) {
                    y.prev = Some(l);
                }
            }
            format!("instance {i}: chain is a ring")
        }
        30 => {
            // cut a chain consistently: last member removed from the chain but kept as record
            let (x, i) = one!(d.insts);
            if x.n < 2 {
                return None;
            }
            let l = x.last;
            let p = d.anns.iter().find(|y| y.tok == l).and_then(|y| y.prev);
            let p = p?;
            x.last = p;
            x.n -= 1;
            if let Some(y) = d.anns.iter_mut().find(|y| y.tok == p) {
                y.next = None;
            }
            format!("instance {i}: chain shortened consistently")
        }
        31 => {
            // drop one record of some table
            let t = s.below(12);
            macro_rules! drop1 {
                ($v:expr, $n:expr) => {{
                    if $v.is_empty() {
                        return None;
                    }
                    let i = s.below($v.len());
                    $v.remove(i);
                    format!("{} {i} removed", $n)
                }};
            }
            match t {
                0 => drop1!(d.attrs, "attribute"),
                1 => drop1!(d.calibs, "calibrated sensor"),
                2 => drop1!(d.cats, "category"),
                3 => drop1!(d.egos, "ego pose"),
                4 => drop1!(d.insts, "instance"),
                5 => drop1!(d.logs, "log"),
                6 => drop1!(d.samples, "sample"),
                7 => drop1!(d.anns, "annotation"),
                8 => drop1!(d.datas, "sensor record"),
                9 => drop1!(d.scenes, "scene"),
                10 => drop1!(d.sensors, "sensor"),
                _ => drop1!(d.vis, "visibility"),
            }
        }
        33 => {
            // a sample no scene's chain reaches, with sound or dangling neighbours
            let mut x = {
                let (x, _) = one!(d.samples);
                x.clone()
            };
            x.tok = fresh ^ (1 << 60);
            x.prev = other_opt(s, &samples, fresh);
            x.next = other_opt(s, &samples, fresh);
            let at = s.below(d.samples.len() + 1);
            d.samples.insert(at, x);
            "sample outside every chain added".to_string()
        }
        34 => {
            let mut x = {
                let (x, _) = one!(d.anns);
                x.clone()
            };
            x.tok = fresh ^ (1 << 60);
            x.prev = other_opt(s, &anns, fresh);
            x.next = other_opt(s, &anns, fresh);
            if s.chance(1, 4) {
                x.attrs.push(fresh);
            }
            let at = s.below(d.anns.len() + 1);
            d.anns.insert(at, x);
            "annotation outside every chain added".to_string()
        }
        _ => {
            // a middle member skipped by both neighbours
            let mids: Vec<usize> = (0..d.samples.len()).filter(|&i| d.samples[i].prev.is_some() && d.samples[i].next.is_some()).collect();
            if mids.is_empty() {
                return None;
            }
            let i = *s.pick(&mids);
            let (p, n) = (d.samples[i].prev, d.samples[i].next);
            for x in d.samples.iter_mut() {
                if Some(x.tok) == p {
                    x.next = n;
                }
                if Some(x.tok) == n {
                    x.prev = p;
                }
            }
            format!("sample {i}: skipped by its neighbours")
        }
    };
    Some(what)
}

fn c03(cx: &mut Ctx) -> Res {
    let mut d = dataset(&mut cx.src, &DsOpts { scenes: 3, samples: 5, insts: 4, texts: false, big: true, ..DsOpts::default() });
    let st = Style::draw(&mut cx.src);
    let n = cx.src.weighted(&[2, 8, 2, 1]);
    let mut changed = 0;
    for _ in 0..n {
        if let Some(w) = mutate(&mut cx.src, &mut d) {
            cx.tell(w);
            changed += 1;
        }
    }
    let env = Env::draw(&mut cx.src);
    let root = format!("{}/ds", cx.dir);
    write_ds(&d, &st, std::path::Path::new(&root), "annotation");
    let verdict = model::inconsistent(&d);
    cx.tell(format!("{}; model: {}", short(&d), verdict.clone().unwrap_or("consistent".into())));
    cx.arm(env.sim(1, "ds/annotation"));
    let r = load("annotation", &root)?;
    no_open_files()?;
    match (r, &verdict) {
        (Ok(_), Some(why)) => return fail("accepted", format!("an inconsistent dataset was loaded: {why}")),
        // records outside the chain of their scene or instance: consistent by the letter, either verdict will do
        (Err(_), None) if model::stray(&d) => cx.count("stray records refused", 1),
        (Err(m), None) => return fail("refused", format!("a consistent dataset was refused: {m}")),
        (Err(_), Some(_)) => cx.count("refusals", 1),
        (Ok(n), None) => {
            compare(&n, &d)?;
            lib_ok("navigating the dataset", || model::navigate(&n, &d))??;
            cx.count("navigated datasets", 1);
        }
    }
    cx.disarm();
    cx.st.nontrivial = changed > 0 || !d.samples.is_empty();
    Ok(())
}

// ------------------------------------------------------------------ C04
pub const FRAME_IDS: [(&str, FrameID); 20] = [
    ("base_link", FrameID::BaseLink),
    ("BaseLink", FrameID::BaseLink),
    ("map", FrameID::Map),
    ("Map", FrameID::Map),
    ("cam_back", FrameID::CamBack),
    ("CamBack", FrameID::CamBack),
    ("cam_back_left", FrameID::CamBackLeft),
    ("CamBackLeft", FrameID::CamBackLeft),
    ("cam_back_right", FrameID::CamBackRight),
    ("CamBackRight", FrameID::CamBackRight),
    ("cam_front", FrameID::CamFront),
    ("CamFront", FrameID::CamFront),
    ("cam_front_left", FrameID::CamFrontLeft),
    ("CamFrontLeft", FrameID::CamFrontLeft),
    ("cam_front_right", FrameID::CamFrontRight),
    ("CamFrontRight", FrameID::CamFrontRight),
    ("cam_traffic_light_near", FrameID::CamTrafficLightNear),
    ("CamTrafficLightNear", FrameID::CamTrafficLightNear),
    ("cam_traffic_light_far", FrameID::CamTrafficLightFar),
    ("CamTrafficLightFar", FrameID::CamTrafficLightFar),
];
pub const TASKS: [(&str, EvaluationTask); 6] = [
    ("detection", EvaluationTask::Detection),
    ("Detection", EvaluationTask::Detection),
    ("tracking", EvaluationTask::Tracking),
    ("Tracking", EvaluationTask::Tracking),
    ("prediction", EvaluationTask::Prediction),
    ("Prediction", EvaluationTask::Prediction),
];

fn c04(cx: &mut Ctx) -> Res {
    let d = dataset(&mut cx.src, &DsOpts { scenes: 2, samples: 5, insts: 6, texts: false, big: true, ..DsOpts::default() });
    let st = Style::draw(&mut cx.src);
    let env = Env::draw(&mut cx.src);
    let fid = cx.src.pick(&FRAME_IDS).1.clone();
    let task = cx.src.pick(&TASKS).1.clone();
    let root = PathBuf::from(format!("{}/ds", cx.dir));
    write_ds(&d, &st, &root, "annotation");
    cx.tell(format!("{}; task {task:?}, frame id {fid:?}", short(&d)));
    cx.tell(env.text());
    cx.arm(env.sim(1, "ds/annotation"));
    let r = lib_ok("loading the dataset for evaluation", || load_dataset("annotation", &root, &task, &fid).map_err(|e| e.to_string()))?;
    no_open_files()?;
    let f: Vec<FrameGroundTruth> = match r {
        Ok(f) => f,
        Err(m) => return fail("refused", format!("an intact dataset was refused: {m}")),
    };
    cx.disarm();
    model::compare_frames(&f, &d, &fid)?;
    let objs = f.iter().map(|x| x.objects.len() as u64).sum::<u64>();
    cx.count("frames compared", f.len() as u64);
    cx.count("objects compared", objs);
    cx.st.nontrivial = objs > 0;
    let dump = gt_dump(&f).join("\n");
    let mut lines: Vec<&str> = dump.lines().collect();
    lines.sort();
    Ok(())
}

// ------------------------------------------------------------------ C05
fn derived(f: &[FrameGroundTruth], salt: u64) -> Vec<(usize, Vec<perception_eval::object::object3d::DynamicObject>)> {
    // detections as a function of the content of the frames, in the order the frames came
    f.iter()
        .enumerate()
        .map(|(i, g)| {
            let mut v = vec![];
            for o in &g.objects {
                let h = mix(hash_bytes(model::okey(o).as_bytes()) ^ salt);
                if h % 5 == 0 {
                    continue;
                }
                let mut e = o.clone();
                e.confidence = if salt % 3 == 0 { 0.5 } else { (h % 100_003) as f64 / 100_003.0 };
                e.position[0] += ((h >> 20) % 33) as f64 / 16.0 - 1.0;
                e.position[1] += ((h >> 30) % 33) as f64 / 16.0 - 1.0;
                v.push(e.clone());
                if h % 7 == 1 {
                    e.confidence *= 0.5;
                    e.position[0] += 1.0;
                    v.push(e);
                }
            }
            (i, v)
        })
        .collect()
}
fn c05(cx: &mut Ctx) -> Res {
    let w = world(cx, "ds", &DsOpts { ties: true, scenes: 2, samples: 5, insts: 5, texts: false, allow_empty: false, dangling_map_logs: true, odd: true, big: true, fine: true });
    let s = &mut cx.src;
    let salt = s.draw(1 << 30);
    let two_keys = s.chance(1, 6);
    if two_keys {
        // one dataset mapping with two entries: whichever is used must not depend on the process
        let d2 = dataset(s, &small_ds());
        let root2 = format!("{}/ds-b", cx.dir);
        write_ds(&d2, &Style::plain(), std::path::Path::new(&root2), "annotation");
        let y = std::fs::read_to_string(&w.scn_path).unwrap();
        let (head, tail) = y.split_once("  Conditions:").unwrap();
        let extra = format!("      {root2:?}:\n        Version: annotation\n        VehicleId: b\n        LaunchSensing: false\n        LocalMapPath: x\n");
        std::fs::write(&w.scn_path, format!("{head}{extra}  Conditions:{tail}")).unwrap();
        cx.tell("the scenario's dataset mapping has two entries");
    }
    let nproc = if cx.thorough { cx.src.range(2, 4) } else { cx.src.range(2, 3) };
    let mut envs = vec![];
    for _ in 0..nproc {
        envs.push((Env::draw(&mut cx.src), cx.src.draw(4)));
    }
    // another session some of the processes have been through
    let mut scn0 = scenario(&mut cx.src, &w.scn.ds_path, "annotation", &w.d);
    if cx.src.chance(1, 2) {
        scn0.task = "tracking".into();
    }
    let scn0_path = format!("{}/before.yaml", cx.dir);
    std::fs::write(&scn0_path, scn0.yaml(0)).unwrap();
    let mut first: Option<Value> = None;
    for (i, (e, before)) in envs.iter().enumerate() {
        cx.tell(format!("process {i}: {}; before: {before} other load(s)", e.text()));
        let sim = e.sim(1, "ds/annotation");
        let (w, dirw, s0) = (&w, cx.dir.clone(), &scn0_path);
        let end = cx.process(sim, move |_| {
            for k in 0..*before {
                // what the process did before
                let _ = lib_ok("loading", || NuScenes::load("annotation", format!("{dirw}/{}", if k == 0 { "ds" } else { "absent" })).is_ok())?;
                if k == 2 {
                    let c = match lib_ok("loading another scenario", || PerceptionEvaluationConfig::from(s0, &format!("{dirw}/before"), true).map_err(|e| e.to_string()))? {
                        Ok(c) => c,
                        Err(m) => return fail("refused", format!("a well-formed scenario was refused: {m}")),
                    };
                    let mut m = manager(&c)?;
                    let frames = m.frame_ground_truths.clone();
                    for (i, dets) in derived(&frames, salt ^ 1) {
                        add(&mut m, &dets, &frames[i])?;
                    }
                    let _ = lib_ok("scoring", || m.get_metrics_score().map(|s| s.to_string()).is_ok())?;
                }
            }
            let n = lib_ok("loading", || NuScenes::load("annotation", &w.scn.ds_path).map_err(|e| e.to_string()))?;
            let n = match n {
                Ok(n) => n,
                Err(m) => return fail("refused", format!("an intact dataset was refused: {m}")),
            };
            let lists = json!({
                "ego": n.ego_pose_iter().map(|x| x.token.to_string()).collect::<Vec<_>>(),
                "samples": n.sample_iter().map(|x| x.token.to_string()).collect::<Vec<_>>(),
                "data": n.sample_data_iter().map(|x| x.token.to_string()).collect::<Vec<_>>(),
                "scenes": n.scene_iter().map(|x| x.token.to_string()).collect::<Vec<_>>(),
                "per-sample": n.sample_iter().map(|x| (x.token.to_string(), x.sample_annotation_iter().map(|a| a.token.to_string()).collect::<Vec<_>>(), x.sample_data_iter().map(|a| a.token.to_string()).collect::<Vec<_>>())).collect::<Vec<_>>(),
            });
            let c = w.config()?;
            let mut m = manager(&c)?;
            let frames = m.frame_ground_truths.clone();
            for (i, dets) in derived(&frames, salt) {
                add(&mut m, &dets, &frames[i])?;
            }
            let rep = report(&m)?;
            let rep2 = report(&m)?;
            let mut answers = vec![];
            for (i, f) in frames.iter().take(20).enumerate() {
                let t = f.timestamp.timestamp_micros() + (mix(salt ^ i as u64) % 160_000) as i64 - 80_000;
                answers.push((t, lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(t)))?.map(|f| gt_dump(&[f]))));
            }
            let mut boxes = vec![];
            for r in n.sample_data_iter().take(20) {
                let sensor = mix(salt ^ boxes.len() as u64) % 2 == 0;
                let b = lib_ok("asking for boxes", || n.get_sample_data(&r.token, &sensor).map_err(|e| e.to_string()))?;
                boxes.push(b.map(|(p, b)| format!("{} {b:?}", p.display())));
            }
            Ok(json!({"answers": answers, "boxes": boxes, "lists": lists, "path": c.dataset_path.display().to_string(), "frames": gt_dump(&frames), "history": history_dump(&m), "report": rep, "again": rep2}))
        })?;
        let ProcEnd::Done(v) = end else { panic!("killed without a kill fault") };
        cx.count("processes compared", 1);
        match &first {
            None => first = Some(v),
            Some(f) => {
                for k in ["path", "frames", "lists", "history", "report", "again", "answers", "boxes"] {
                    if f[k] != v[k] {
                        let (a, b) = (f[k].to_string(), v[k].to_string());
                        let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                        let cut = |t: &str| t.chars().skip(at.saturating_sub(40)).take(120).collect::<String>();
                        return fail(&format!("differs-{k}"), format!("process 0 and process {i} give different {k}: ...{} | ...{}", cut(&a), cut(&b)));
                    }
                }
            }
        }
    }
    let v = first.unwrap();
    cx.mixin(v["report"].to_string().as_bytes());
    cx.st.nontrivial = v["history"].as_array().map(|a| !a.is_empty()).unwrap_or(false);
    Ok(())
}

// ------------------------------------------------------------------ C14
fn png(w: u32, h: u32, seed: u64) -> (Vec<u8>, image::DynamicImage) {
    use image::*;
    let at = |i: u64| mix(seed ^ i);
    let (b8, b16) = (|n: u32| (0..(w * h * n) as u64).map(|i| at(i) as u8).collect::<Vec<u8>>(), |n: u32| (0..(w * h * n) as u64).map(|i| at(i) as u16).collect::<Vec<u16>>());
    let img = match at(1 << 40) % 8 {
        0 => DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, b8(1)).unwrap()),
        1 => DynamicImage::ImageLumaA8(ImageBuffer::from_raw(w, h, b8(2)).unwrap()),
        2 => DynamicImage::ImageRgba8(ImageBuffer::from_raw(w, h, b8(4)).unwrap()),
        3 => DynamicImage::ImageLuma16(ImageBuffer::from_raw(w, h, b16(1)).unwrap()),
        4 => DynamicImage::ImageRgb16(ImageBuffer::from_raw(w, h, b16(3)).unwrap()),
        _ => DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, b8(3)).unwrap()),
    };
    let mut out = std::io::Cursor::new(vec![]);
    img.write_to(&mut out, ImageOutputFormat::Png).unwrap();
    (out.into_inner(), img)
}
fn jpeg(w: u32, h: u32, seed: u64) -> (Vec<u8>, image::DynamicImage) {
    use image::*;
    let n = if mix(seed ^ 1 << 40) % 4 == 0 { 1 } else { 3 };
    let px: Vec<u8> = (0..w * h * n).map(|i| (mix(seed ^ i as u64) & 255) as u8).collect();
    let img = if n == 1 { DynamicImage::ImageLuma8(ImageBuffer::from_raw(w, h, px).unwrap()) } else { DynamicImage::ImageRgb8(ImageBuffer::from_raw(w, h, px).unwrap()) };
    let mut out = std::io::Cursor::new(vec![]);
    img.write_to(&mut out, ImageOutputFormat::Jpeg(90)).unwrap();
    let b = out.into_inner();
    let shown = load_from_memory(&b).unwrap();
    (b, shown)
}
pub fn cloud(n: usize, seed: u64) -> Vec<u8> {
    let mut b = Vec::with_capacity(n * 20);
    for i in 0..n * 5 {
        let h = mix(seed ^ i as u64);
        let v = match h % 40 {
            0 => f32::NAN,
            1 => f32::INFINITY,
            2 => -0.0,
            3 => f32::from_bits(h as u32 >> 9),
            _ => (h >> 40) as f32 / 1024.0 - 8192.0,
        };
        b.extend_from_slice(&v.to_le_bytes());
    }
    b
}
fn same_cloud(m: &perception_eval::dataset::nuscenes::PointCloudMatrix, bytes: &[u8]) -> Res {
    ensure!(m.nrows() == bytes.len() / 20 && m.ncols() == 5, "points", "{}x{} matrix for {} bytes", m.nrows(), m.ncols(), bytes.len());
    for r in 0..m.nrows() {
        for c in 0..5 {
            let o = (r * 5 + c) * 4;
            let want = u32::from_le_bytes(bytes[o..o + 4].try_into().unwrap());
            ensure!(m[(r, c)].to_bits() == want, "points", "point {r} value {c} is {}, stored {}", m[(r, c)], f32::from_bits(want));
        }
    }
    Ok(())
}
fn c14(cx: &mut Ctx) -> Res {
    let s = &mut cx.src;
    let mut d = dataset(s, &DsOpts { scenes: 1, samples: 2, insts: 1, texts: false, allow_empty: false, ties: false, dangling_map_logs: false, odd: false, big: false, fine: true });
    let s = &mut cx.src;
    // one sensor record of our choosing
    let kind = s.weighted(&[6, 3, 2]); // lidar points, png image, jpeg image
    let sensor = d.sensors.iter().find(|x| x.modality == "lidar").unwrap().tok;
    let calib = if kind == 0 { d.calibs.iter().find(|c| c.sensor == sensor).unwrap().tok } else { s.pick(&d.calibs).tok };
    let ego = Ego { tok: 0xabc0, ts: 1_600_000_000_000_000, rot: [1.0, 0.0, 0.0, 0.0], tr: [0.0; 3] };
    let sample = d.samples[0].tok;
    let channel = d.sensors.iter().find(|x| x.tok == sensor).unwrap().channel.clone();
    let dirname = match kind {
        0 => match s.weighted(&[3, 2]) {
            0 => "lidar".to_string(),
            _ => channel,
        },
        _ => s.pick(&["images", "CAM_FRONT", "lidar"]).to_string(),
    };
    let fmt = match kind {
        0 => *s.pick(&["bin", "pcd"]),
        1 => "png",
        _ => *s.pick(&["jpg", "jpeg"]),
    };
    let ext = match fmt {
        "pcd" => "pcd.bin",
        x => x,
    };
    let deep = s.chance(1, 3);
    let file = format!("{}{dirname}/p0.{ext}", if deep { "data/x/" } else { "" });
    d.egos.push(ego);
    d.datas.push(Data { tok: 0x7777, fmt: fmt.into(), key: true, file: file.clone(), ts: 1_600_000_000_000_000, sample, ego: 0xabc0, calib, prev: None, next: None });
    let root = format!("{}/ds", cx.dir);
    let seed = s.draw(1 << 30);
    let n = match s.weighted(&[300, 100, 100, 100, 2]) {
        0 => s.draw(60) as usize,
        1 => 0,
        2 => 400 + s.draw(40) as usize,
        3 => s.draw(2500) as usize,
        // a dense lidar, several sweeps in one file
        _ => 30_000 + s.draw(120_000) as usize,
    };
    let side = if s.chance(1, 12) { 200 } else { 24 };
    let (mut bytes, pixels) = match kind {
        0 => (cloud(n, seed), None),
        1 => {
            let (w, h) = (1 + s.draw(side) as u32, 1 + s.draw(side) as u32);
            let (b, p) = png(w, h, seed);
            (b, Some(p))
        }
        _ if s.chance(2, 3) => {
            let (w, h) = (1 + s.draw(side) as u32, 1 + s.draw(side) as u32);
            let (b, p) = jpeg(w, h, seed);
            (b, Some(p))
        }
        _ => {
            let all: [&[u8]; 4] = [b"", b"\xff\xd8\xff\xe0\x00\x10JFIF", b"not an image", b"\xff\xd8"];
            (s.pick(&all).to_vec(), None)
        }
    };
    let len0 = bytes.len();
    // damage of the stored payload
    let damage = s.weighted(&[5, 3, 1]);
    // the payload of another record, perhaps with the same file name
    let other: Option<(String, Vec<u8>, Option<image::DynamicImage>)> = if (kind == 0 || pixels.is_some()) && s.chance(1, 3) {
        let at = if s.chance(1, 2) { format!("{}{dirname}/p1.{ext}", if deep { "data/x/" } else { "" }) } else { format!("other/{dirname}/p0.{ext}") };
        let len = if s.chance(1, 2) { n.min(2500) } else { s.draw(60) as usize };
        d.datas.push(Data { tok: 0x7778, file: at.clone(), ..d.datas.last().unwrap().clone() });
        Some(match &pixels {
            None => (at, cloud(len, seed ^ 0x55), None),
            Some(p) => {
                let (w, h) = if s.chance(1, 2) { (p.width(), p.height()) } else { (1 + s.draw(24) as u32, 2) };
                let (b, p) = if kind == 1 { png(w, h, seed ^ 0x55) } else { jpeg(w, h, seed ^ 0x55) };
                (at, b, Some(p))
            }
        })
    } else {
        None
    };
    let mut expect_err = kind == 2 && pixels.is_none();
    if !expect_err {
        match damage {
            1 => {
                let cut = if bytes.is_empty() { 0 } else { s.below(bytes.len()) };
                bytes.truncate(cut);
                expect_err = if kind == 0 { cut % 20 != 0 } else { true };
            }
            2 if kind == 0 => {
                let extra = 1 + s.below(19);
                bytes.extend(std::iter::repeat(7).take(extra));
                expect_err = true;
            }
            2 => {
                let all: [&[u8]; 3] = [b"", b"\x89PNG\r\n\x1a\n", b"GIF89a"];
                bytes = s.pick(&all).to_vec();
                expect_err = true;
            }
            _ => {}
        }
    }
    // a truncated PNG may decode when only trailing chunks are gone
    // and what is left of a JPEG may be shown
    let open_verdict = damage == 1 && (kind == 1 && len0 - bytes.len() <= 12 || kind == 2);
    let missing = s.chance(1, 12);
    let path = PathBuf::from(&root).join(&file);
    write_ds(&d, &Style::plain(), std::path::Path::new(&root), "annotation");
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    if !missing {
        std::fs::write(&path, &bytes).unwrap();
    }
    if let Some((at, b, _)) = &other {
        let p = PathBuf::from(&root).join(at);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
    let mut logs: Vec<(LogR, Option<Vec<u8>>)> = vec![];
    if s.chance(1, 3) {
        for l in &d.logs {
            let mut stored = None;
            if !l.logfile.is_empty() && !s.chance(1, 4) {
                let b: Vec<u8> = (0..s.draw(40)).map(|i| mix(seed ^ i) as u8).collect();
                let p = PathBuf::from(&root).join(&l.logfile);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                std::fs::write(p, &b).unwrap();
                stored = Some(b);
            }
            logs.push((l.clone(), stored));
        }
    }
    let mut faults = vec![];
    let mut sticky = false;
    if s.chance(1, 4) {
        let op = if s.chance(1, 3) { Op::Open } else { Op::Read };
        let nth = s.draw(3) as u32;
        let e = *s.pick(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ESTALE]);
        sticky = nth == 0;
        faults.push(Fault { path: format!("ds/{file}"), op, nth: if op == Op::Open { 0 } else { nth }, act: Act::Sticky(e) });
        sticky |= op == Op::Open;
    }
    let env = Env::draw(s);
    cx.tell(format!("payload {file} ({fmt}), {} of {len0} bytes stored{}, faults {faults:?}", bytes.len(), if missing { ", missing" } else { "" }));
    cx.tell(env.text());
    cx.arm(env.sim(1, "ds/annotation"));
    let nu = match load("annotation", &root)? {
        Ok(n) => n,
        Err(m) => return fail("refused", format!("an intact dataset was refused: {m}")),
    };
    let rec = nu.sample_data_iter().find(|x| model::tk(&x.token) == 0x7777).unwrap();
    sys::sim().faults.retain(|f| matches!(f.act, Act::Stall(_)));
    sys::sim().faults.extend(faults.clone());
    if kind != 0 {
        // the image decoder does not retry interrupted reads; images are only promised an error
        sys::sim().chunks.retain(|c| *c >= 0);
    }
    if bytes.len() > 100_000 {
        sys::sim().chunks.retain(|c| *c == 0 || *c > 400);
    }
    let reps = 1 + cx.src.below(2);
    // between two reads the file may be written anew
    let rewritten = cx.src.chance(1, 3) && faults.is_empty() && !missing && (kind == 0 || pixels.is_some());
    let mut pixels = pixels;
    let mut open_verdict = open_verdict;
    for rep in 0..reps {
        if rep == 1 && rewritten {
            let k = if cx.src.chance(1, 2) { n } else { cx.src.draw(60) as usize };
            if let Some(p) = &mut pixels {
                // often of the same extent
                let (w, h) = if cx.src.chance(1, 2) { (p.width(), p.height()) } else { (1 + k as u32 % 24, 3) };
                (bytes, *p) = if kind == 1 { png(w, h, seed ^ 0x99) } else { jpeg(w, h, seed ^ 0x99) };
                open_verdict = false;
            } else {
                bytes = cloud(k, seed ^ 0x99);
            }
            expect_err = false;
            std::fs::write(&path, &bytes).unwrap();
            cx.tell(format!("the payload is written anew with {} bytes", bytes.len()));
            cx.count("payloads written anew", 1);
        }
        let err_before = |k: &str| sys::sim().fired.iter().filter(|(n, _)| n.starts_with(k) && n.contains("errno") && !n.contains("EINTR")).map(|x| *x.1).sum::<u64>();
        let hit0 = err_before("Read") + err_before("Open");
        let raw = lib_ok("reading the payload", || rec.load_raw().map_err(|e| e.to_string()))?;
        let faulted = err_before("Read") + err_before("Open") > hit0;
        ensure!(sys::sim().open_tracked == 0, "fd-leak", "the payload file is still open");
        match raw {
            Ok(b) => {
                ensure!(!missing && !sticky, "accepted", "a missing or unreadable payload was returned");
                ensure!(b == bytes, "raw-bytes", "{} bytes returned, {} stored, first difference at {:?}", b.len(), bytes.len(), b.iter().zip(&bytes).position(|(x, y)| x != y));
            }
            Err(m) => ensure!(missing || faulted || sticky, "refused", "a readable payload was refused: {m}"),
        }
        let hit0 = err_before("Read") + err_before("Open");
        let got = lib_ok("loading the payload", || rec.load().map_err(|e| e.to_string()))?;
        let faulted = err_before("Read") + err_before("Open") > hit0;
        ensure!(sys::sim().open_tracked == 0, "fd-leak", "the payload file is still open");
        match got {
            Ok(LoadedSampleData::PointCloud(m)) => {
                ensure!(kind == 0 && !missing && !sticky, "accepted", "a point cloud was made of something else");
                ensure!(!expect_err, "accepted", "a payload of {} bytes, not a whole number of points, was loaded as {} points", bytes.len(), m.nrows());
                same_cloud(&m, &bytes)?;
                cx.count("points compared", m.nrows() as u64);
            }
            Ok(LoadedSampleData::Image(i)) => {
                ensure!(kind != 0 && !missing && !sticky, "accepted", "an image was made of something else");
                ensure!(!expect_err || open_verdict, "accepted", "a damaged image was decoded");
                ensure!(open_verdict || Some(&i) == pixels.as_ref(), "pixels", "the decoded {:?} image differs from the stored {:?} one", i.color(), pixels.as_ref().map(|p| p.color()));
                cx.count("images compared", 1);
            }
            Err(m) => {
                ensure!(missing || faulted || sticky || expect_err, "refused", "a readable payload was refused: {m}");
                cx.count("refusals", 1);
            }
        }
    }
    if let Some((at, b, p)) = &other {
        let rec = nu.sample_data_iter().find(|x| model::tk(&x.token) == 0x7778).unwrap();
        let raw = lib_ok("reading the payload", || rec.load_raw().map_err(|e| e.to_string()))?;
        ensure!(raw.as_ref() == Ok(b), "raw-bytes", "{at} is not returned as stored after another payload was read");
        match lib_ok("loading the payload", || rec.load().map_err(|e| e.to_string()))? {
            Ok(LoadedSampleData::PointCloud(m)) if p.is_none() => same_cloud(&m, b)?,
            Ok(LoadedSampleData::Image(i)) if p.is_some() => ensure!(Some(&i) == p.as_ref(), "pixels", "{at} is not shown as stored after another image was read"),
            _ => return fail("refused", format!("{at} is not loaded as what it is")),
        }
        cx.count("second payloads compared", 1);
    }
    let opened = lib_ok("opening the payload", || rec.open().map(|_| ()))?;
    if missing || (sticky && faults[0].op == Op::Open) {
        ensure!(opened.is_err(), "accepted", "a missing payload was opened");
    }
    sys::sim().faults.retain(|f| matches!(f.act, Act::Stall(_)));
    for (l, stored) in &logs {
        let rec = nu.log_iter().find(|x| model::tk(&x.token) == l.tok).unwrap();
        let got = lib_ok("opening a log file", || {
            rec.open().map(|f| {
                f.map(|mut f| {
                    let mut b = vec![];
                    let r = std::io::Read::read_to_end(&mut f, &mut b);
                    (r.is_ok(), b)
                })
            })
        })?;
        match (got, stored) {
            (Ok(None), _) => ensure!(l.logfile.is_empty(), "log-file", "the log names {:?}, nothing was opened", l.logfile),
            (Ok(Some((ok, b))), Some(want)) => ensure!(ok && b == *want, "log-file", "log file {:?} differs from what is stored", l.logfile),
            (Ok(Some(_)), None) => return fail("log-file", "a missing log file was opened"),
            (Err(e), Some(_)) => return fail("log-file", format!("a readable log file was refused: {e}")),
            (Err(_), None) => ensure!(!l.logfile.is_empty(), "log-file", "a log without a file failed to open"),
        }
        cx.count("log files", 1);
    }
    cx.disarm();
    cx.st.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C21
#[derive(Clone, Debug)]
enum Ask {
    Data(Tok, bool),
    Boxes(Tok),
    Box(Tok, Vec<(u64, [f64; 3], [f64; 4])>),
    Path(Tok),
    Absent(Tok),
}
fn unit(s: &mut Src) -> [f64; 4] {
    let mut q = [0.0; 4];
    loop {
        for x in q.iter_mut() {
            *x = s.signed(1000) as f64 / 1000.0;
        }
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 0.1 {
            return q.map(|x| x / n);
        }
        q[0] = 1.0;
        if s.draw(2) == 0 {
            return [1.0, 0.0, 0.0, 0.0];
        }
    }
}
type NBox = perception_eval::dataset::nuscenes::r#box::NuScenesBox;
fn box_is(b: &NBox, a: &Ann, d: &DS, pos: &[f64; 3], rot: &[f64; 4], tol: f64) -> Res {
    let i = d.insts.iter().find(|i| i.tok == a.inst).unwrap();
    let c = d.cats.iter().find(|c| c.tok == i.cat).unwrap();
    let dp = (0..3).map(|k| (b.position[k] - pos[k]).abs()).fold(0.0, f64::max);
    let dq = |s: f64| (0..4).map(|k| (b.orientation[k] - s * rot[k]).abs()).fold(0.0, f64::max);
    ensure!(dp <= tol, "box-position", "box of {}: position {:?}, expected {:?}", hx(a.tok), b.position, pos);
    ensure!(dq(1.0) <= 1e-6 || dq(-1.0) <= 1e-6, "box-orientation", "box of {}: orientation {:?}, expected {:?}", hx(a.tok), b.orientation, rot);
    ensure!(
        model::near(b.size[0], a.size[0]) && model::near(b.size[1], a.size[1]) && model::near(b.size[2], a.size[2]),
        "box-size",
        "box of {}: size {:?}, stored {:?}",
        hx(a.tok),
        b.size,
        a.size
    );
    ensure!(
        b.name == c.name && model::tk(&b.instance) == a.inst && b.num_lidar_pts == a.lidar as usize && model::tk(&b.token) == a.tok,
        "box-fields",
        "box of {}: {b:?}, stored {a:?} of category {:?}",
        hx(a.tok),
        c.name
    );
    Ok(())
}
/// The boxes are those of the annotations of the record's sample, each once.
fn boxes_are(got: &[NBox], x: &Data, d: &DS, frame: u64) -> Result<u64, Fail> {
    let e = d.egos.iter().find(|e| e.tok == x.ego).unwrap();
    let c = d.calibs.iter().find(|c| c.tok == x.calib).unwrap();
    let want: Vec<&Ann> = d.anns.iter().filter(|a| a.sample == x.sample).collect();
    ensure!(got.len() == want.len(), "box-count", "{} boxes for {} annotations", got.len(), want.len());
    for a in want {
        let Some(b) = got.iter().find(|b| model::tk(&b.token) == a.tok) else {
            return fail("box-missing", format!("no box of annotation {}", hx(a.tok)));
        };
        let (mut p, mut q) = (a.tr, a.rot);
        let mut into = |t: &[f64; 3], r: &[f64; 4]| {
            let inv = model::qconj(r);
            p = model::qrot(&inv, &[p[0] - t[0], p[1] - t[1], p[2] - t[2]]);
            q = model::qmul(&inv, &q);
        };
        if frame > 0 {
            into(&e.tr, &e.rot);
        }
        if frame > 1 {
            into(&c.tr, &c.rot);
        }
        box_is(b, a, d, &p, &q, 2e-6)?;
    }
    Ok(got.len() as u64)
}
fn ask(n: &NuScenes, d: &DS, root: &str, q: &Ask) -> Result<u64, Fail> {
    let say = |e: perception_eval::dataset::nuscenes::error::NuScenesError| e.to_string();
    let data = |t: &Tok| d.datas.iter().find(|x| x.tok == *t).unwrap();
    match q {
        Ask::Data(t, sensor) => match lib_ok("asking for a record's boxes", || n.get_sample_data(&lt(*t), sensor).map_err(say))? {
            Ok((path, boxes)) => {
                ensure!(path == std::path::Path::new(root).join(&data(t).file), "path", "payload path {path:?}");
                boxes_are(&boxes, data(t), d, 1 + *sensor as u64)
            }
            Err(e) => fail("refused", format!("the boxes of a loaded record were refused: {e}")),
        },
        Ask::Boxes(t) => match lib_ok("asking for a record's boxes", || n.get_boxes(&lt(*t)).map_err(say))? {
            Ok(boxes) => boxes_are(&boxes, data(t), d, 0),
            Err(e) => fail("refused", format!("the boxes of a loaded record were refused: {e}")),
        },
        Ask::Box(t, ops) => {
            let a = d.anns.iter().find(|x| x.tok == *t).unwrap();
            let mut b = match lib_ok("asking for a box", || n.get_box(&lt(*t)).map_err(say))? {
                Ok(b) => b,
                Err(e) => return fail("refused", format!("the box of a loaded annotation was refused: {e}")),
            };
            let (mut p, mut o) = (a.tr, a.rot);
            box_is(&b, a, d, &p, &o, 1e-9)?;
            for (k, v, r) in ops {
                let seen = lib_ok("moving a box", || match k {
                    0 => b.translate(v),
                    1 => b.translate_inv(v),
                    2 => b.rotate(r),
                    _ => b.rotate_inv(r),
                });
                seen?;
                match k {
                    0 => p = [p[0] + v[0], p[1] + v[1], p[2] + v[2]],
                    1 => p = [p[0] - v[0], p[1] - v[1], p[2] - v[2]],
                    _ => {
                        let r = if *k == 2 { *r } else { model::qconj(r) };
                        p = model::qrot(&r, &p);
                        o = model::qmul(&r, &o);
                    }
                }
                box_is(&b, a, d, &p, &o, 1e-5)?;
            }
            Ok(1)
        }
        Ask::Path(t) => match lib_ok("asking for a payload's path", || n.get_sample_data_path(&lt(*t)).map_err(say))? {
            Ok(p) => {
                ensure!(p == std::path::Path::new(root).join(&data(t).file), "path", "payload path {p:?}");
                Ok(0)
            }
            Err(e) => fail("refused", format!("the path of a loaded record was refused: {e}")),
        },
        Ask::Absent(t) => {
            let t = lt(*t);
            let bad = lib_ok("asking for an absent record", || {
                [n.get_sample_data(&t, &false).is_ok(), n.get_sample_data(&t, &true).is_ok(), n.get_boxes(&t).is_ok(), n.get_box(&t).is_ok(), n.get_sample_data_path(&t).is_ok()]
            })?;
            ensure!(bad == [false; 5], "absent", "an absent token was answered: {bad:?}");
            Ok(0)
        }
    }
}
fn c21(cx: &mut Ctx) -> Res {
    let d = dataset(&mut cx.src, &DsOpts { scenes: 2, samples: 4, insts: 5, texts: false, ..DsOpts::default() });
    let st = Style::draw(&mut cx.src);
    let root = format!("{}/ds", cx.dir);
    write_ds(&d, &st, std::path::Path::new(&root), "annotation");
    let s = &mut cx.src;
    let nthreads = 1 + s.weighted(&[3, 2, 1]);
    let mut asks: Vec<Vec<Ask>> = vec![];
    for _ in 0..nthreads {
        let mut v = vec![];
        for _ in 0..s.range(2, 8) {
            let k = s.weighted(&[4, 4, 2, 3, 1, 1]);
            v.push(match k {
                5 => Ask::Absent(0xabc0_0000_0000_0000_0000_0000_0000_0000 + s.draw(1000) as u128),
                3 if !d.anns.is_empty() => {
                    let t = s.pick(&d.anns).tok;
                    let ops = (0..s.range(0, 4))
                        .map(|_| {
                            let v = [0; 3].map(|_| s.signed(100_000) as f64 / 64.0);
                            (s.draw(4), v, unit(s))
                        })
                        .collect();
                    Ask::Box(t, ops)
                }
                _ if d.datas.is_empty() => continue,
                0 | 1 => Ask::Data(s.pick(&d.datas).tok, k == 1),
                4 => Ask::Path(s.pick(&d.datas).tok),
                _ => Ask::Boxes(s.pick(&d.datas).tok),
            });
        }
        asks.push(v);
    }
    let env = Env::draw(s);
    let pre = if nthreads > 1 { super::session::preempts(s, if cx.thorough { 100 } else { 40 }) } else { super::session::Switches::default() };
    cx.tell(format!("{}; {}; {nthreads} readers; {}", short(&d), env.text(), pre.text()));
    for (i, v) in asks.iter().enumerate() {
        cx.tell(format!("reader {i}: {v:?}"));
    }
    let (dr, rr, ar) = (&d, &root, &asks);
    let mut sim = env.sim(nthreads, "ds/annotation");
    pre.into(&mut sim);
    let end = cx.process(sim, move |_| {
        let n = match load("annotation", rr)? {
            Ok(n) => n,
            Err(m) => return fail("refused", format!("an intact dataset was refused: {m}")),
        };
        let nr = &n;
        let jobs: Vec<super::session::Job> = ar
            .iter()
            .map(|v| {
                Box::new(move || {
                    let mut boxes = 0;
                    for q in v {
                        boxes += ask(nr, dr, rr, q)?;
                    }
                    Ok(json!(boxes))
                }) as super::session::Job
            })
            .collect();
        let v = super::session::threads(jobs)?;
        // nothing the readers did to their boxes changed the dataset
        compare(&n, dr)?;
        Ok(v)
    })?;
    let ProcEnd::Done(v) = end else { return fail("killed", "killed without a kill in the plan") };
    let boxes: u64 = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).sum();
    cx.count("boxes compared", boxes);
    cx.mixin(v.to_string().as_bytes());
    cx.st.nontrivial = boxes > 0;
    Ok(())
}

// ------------------------------------------------------------------ C16
/// The tables as the crate's own record types.
pub struct Typed {
    pub attr: Vec<schema::Attribute>,
    pub calib: Vec<schema::CalibratedSensor>,
    pub cat: Vec<schema::Category>,
    pub ego: Vec<schema::EgoPose>,
    pub inst: Vec<schema::Instance>,
    pub log: Vec<schema::Log>,
    pub map: Vec<schema::Map>,
    pub sample: Vec<schema::Sample>,
    pub ann: Vec<schema::SampleAnnotation>,
    pub data: Vec<schema::SampleData>,
    pub scene: Vec<schema::Scene>,
    pub sensor: Vec<schema::Sensor>,
    pub vis: Vec<schema::Visibility>,
}
fn lt(t: Tok) -> schema::LongToken {
    schema::LongToken::try_from(hx(t).as_str()).unwrap()
}
fn en<T: serde::de::DeserializeOwned>(s: &str) -> T {
    serde_json::from_value(Value::String(s.into())).unwrap()
}
fn typed(d: &DS) -> Typed {
    let o = |t: &Option<Tok>| t.map(lt);
    Typed {
        attr: d.attrs.iter().map(|x| schema::Attribute { token: lt(x.tok), description: x.desc.clone(), name: x.name.clone() }).collect(),
        calib: d.calibs.iter().map(|x| schema::CalibratedSensor { token: lt(x.tok), sensor_token: lt(x.sensor), rotation: x.rot, camera_intrinsic: x.intr, translation: x.tr }).collect(),
        cat: d.cats.iter().map(|x| schema::Category { token: lt(x.tok), description: x.desc.clone(), name: x.name.clone() }).collect(),
        ego: d.egos.iter().map(|x| schema::EgoPose { token: lt(x.tok), timestamp: when(x.ts), rotation: x.rot, translation: x.tr }).collect(),
        inst: d.insts.iter().map(|x| schema::Instance { token: lt(x.tok), nbr_annotations: x.n as usize, category_token: lt(x.cat), first_annotation_token: lt(x.first), last_annotation_token: lt(x.last) }).collect(),
        log: d
            .logs
            .iter()
            .map(|x| schema::Log {
                token: lt(x.tok),
                date_captured: x.date.as_ref().and_then(|s| s.parse().ok()),
                location: x.location.clone(),
                vehicle: x.vehicle.clone(),
                logfile: if x.logfile.is_empty() { None } else { Some(x.logfile.clone().into()) },
            })
            .collect(),
        map: d
            .maps
            .iter()
            .map(|x| schema::Map { token: schema::ShortToken::try_from(hx(x.tok).as_str()).unwrap(), log_tokens: x.logs.iter().map(|t| lt(*t)).collect(), filename: x.filename.clone().into(), category: x.category.clone() })
            .collect(),
        sample: d.samples.iter().map(|x| schema::Sample { token: lt(x.tok), next: o(&x.next), prev: o(&x.prev), scene_token: lt(x.scene), timestamp: when(x.ts) }).collect(),
        ann: d
            .anns
            .iter()
            .map(|x| schema::SampleAnnotation {
                token: lt(x.tok),
                num_lidar_pts: x.lidar as usize,
                num_radar_pts: x.radar as usize,
                size: x.size,
                rotation: x.rot,
                translation: x.tr,
                sample_token: lt(x.sample),
                instance_token: lt(x.inst),
                attribute_tokens: x.attrs.iter().map(|t| lt(*t)).collect(),
                visibility_token: x.vis.clone(),
                prev: o(&x.prev),
                next: o(&x.next),
            })
            .collect(),
        data: d
            .datas
            .iter()
            .map(|x| schema::SampleData {
                token: lt(x.tok),
                fileformat: en(&x.fmt),
                is_key_frame: x.key,
                filename: x.file.clone().into(),
                timestamp: when(x.ts),
                sample_token: lt(x.sample),
                ego_pose_token: lt(x.ego),
                calibrated_sensor_token: lt(x.calib),
                prev: o(&x.prev),
                next: o(&x.next),
            })
            .collect(),
        scene: d
            .scenes
            .iter()
            .map(|x| schema::Scene { token: lt(x.tok), name: x.name.clone(), description: x.desc.clone(), log_token: lt(x.log), nbr_samples: x.n as usize, first_sample_token: lt(x.first), last_sample_token: lt(x.last) })
            .collect(),
        sensor: d.sensors.iter().map(|x| schema::Sensor { token: lt(x.tok), modality: en(&x.modality), channel: en(&x.channel) }).collect(),
        vis: d.vis.iter().map(|x| schema::Visibility { token: x.tok.clone(), level: en(&x.level), description: x.desc.clone() }).collect(),
    }
}
/// The tables of a loaded dataset, read back through the public listing.
fn typed_of(n: &NuScenes) -> Typed {
    Typed {
        attr: n.attribute_iter().map(|x| (*x).clone()).collect(),
        calib: n.calibrated_sensor_iter().map(|x| (*x).clone()).collect(),
        cat: n.category_iter().map(|x| (*x).clone()).collect(),
        ego: n.ego_pose_iter().map(|x| (*x).clone()).collect(),
        inst: n
            .instance_iter()
            .map(|x| schema::Instance {
                token: x.token.clone(),
                nbr_annotations: x.annotation_tokens.len(),
                category_token: x.category_token.clone(),
                first_annotation_token: x.annotation_tokens[0].clone(),
                last_annotation_token: x.annotation_tokens.last().unwrap().clone(),
            })
            .collect(),
        log: n.log_iter().map(|x| (*x).clone()).collect(),
        map: n.map_iter().map(|x| (*x).clone()).collect(),
        sample: n
            .sample_iter()
            .map(|x| schema::Sample { token: x.token.clone(), next: x.next.clone(), prev: x.prev.clone(), scene_token: x.scene_token.clone(), timestamp: x.timestamp })
            .collect(),
        ann: n.sample_annotation_iter().map(|x| (*x).clone()).collect(),
        data: n.sample_data_iter().map(|x| (*x).clone()).collect(),
        scene: n
            .scene_iter()
            .map(|x| schema::Scene {
                token: x.token.clone(),
                name: x.name.clone(),
                description: x.description.clone(),
                log_token: x.log_token.clone(),
                nbr_samples: x.sample_tokens.len(),
                first_sample_token: x.sample_tokens[0].clone(),
                last_sample_token: x.sample_tokens.last().unwrap().clone(),
            })
            .collect(),
        sensor: n.sensor_iter().map(|x| (*x).clone()).collect(),
        vis: n.visibility_iter().map(|x| (*x).clone()).collect(),
    }
}
/// The writer a user of the record types would write: serialise each table into its file.
fn write_typed(t: &Typed, meta: &str, pretty: bool) -> std::io::Result<()> {
    fn one<T: serde::Serialize>(meta: &str, n: &str, v: &Vec<T>, pretty: bool) -> std::io::Result<()> {
        let f = std::fs::File::create(format!("{meta}/{n}.json"))?;
        let mut w = std::io::BufWriter::with_capacity(512, f);
        if pretty {
            serde_json::to_writer_pretty(&mut w, v)?;
        } else {
            serde_json::to_writer(&mut w, v)?;
        }
        std::io::Write::flush(&mut w)
    }
    std::fs::create_dir_all(meta)?;
    one(meta, "attribute", &t.attr, pretty)?;
    one(meta, "calibrated_sensor", &t.calib, pretty)?;
    one(meta, "category", &t.cat, pretty)?;
    one(meta, "ego_pose", &t.ego, pretty)?;
    one(meta, "instance", &t.inst, pretty)?;
    one(meta, "log", &t.log, pretty)?;
    one(meta, "map", &t.map, pretty)?;
    one(meta, "sample", &t.sample, pretty)?;
    one(meta, "sample_annotation", &t.ann, pretty)?;
    one(meta, "sample_data", &t.data, pretty)?;
    one(meta, "scene", &t.scene, pretty)?;
    one(meta, "sensor", &t.sensor, pretty)?;
    one(meta, "visibility", &t.vis, pretty)
}
fn stored(meta: &str) -> BTreeMap<String, Vec<u8>> {
    TABLES.iter().filter_map(|t| std::fs::read(format!("{meta}/{t}.json")).ok().map(|b| (t.to_string(), b))).collect()
}
fn c16(cx: &mut Ctx) -> Res {
    let d = dataset(&mut cx.src, &DsOpts { scenes: 2, samples: 4, insts: 3, ..DsOpts::default() });
    let s = &mut cx.src;
    let from_loaded = s.chance(1, 3);
    let rewrite_in_place = s.chance(1, 2);
    let pretty = s.chance(1, 2);
    let src_root = format!("{}/src", cx.dir);
    let root = if from_loaded && rewrite_in_place { src_root.clone() } else { format!("{}/ds", cx.dir) };
    let st = Style::draw(s);
    if from_loaded {
        write_ds(&d, &st, std::path::Path::new(&src_root), "annotation");
    }
    let rel = root[cx.dir.len() + 1..].to_string();
    // write faults of successive attempts; the last attempt is fault free
    let attempts = s.weighted(&[3, 3, 1]);
    let mut plans: Vec<(Vec<Fault>, Vec<i64>)> = vec![];
    for _ in 0..attempts {
        let t = s.pick(&TABLES).to_string();
        let path = format!("{rel}/annotation/{t}.json");
        let f = match s.below(6) {
            0 => Fault { path, op: Op::Write, nth: s.draw(4) as u32, act: Act::Kill(s.draw(512) as usize) },
            1 => Fault { path, op: Op::Create, nth: 0, act: Act::Kill(0) },
            2 => Fault { path, op: Op::Write, nth: s.draw(3) as u32, act: Act::Sticky(*s.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT])) },
            3 => Fault { path, op: Op::Create, nth: 0, act: Act::Err(*s.pick(&[libc::EACCES, libc::EROFS, libc::EMFILE, libc::ENOSPC])) },
            4 => Fault { path, op: Op::Write, nth: s.draw(3) as u32, act: Act::Short(1 + s.draw(200) as usize) },
            _ => Fault { path, op: Op::Write, nth: s.draw(3) as u32, act: Act::Err(libc::ENOSPC) },
        };
        plans.push((vec![f], vec![]));
    }
    let mut wchunks = vec![];
    for _ in 0..s.weighted(&[2, 1, 1, 1]) {
        wchunks.push(match s.below(3) {
            0 => -1,
            1 => 1 + s.draw(64) as i64,
            _ => 0,
        });
    }
    plans.push((vec![], wchunks));
    let env = Env::draw(s);
    cx.tell(format!("{}; {} through the record types, {} faulty attempt(s)", short(&d), if from_loaded { "loaded and written back" } else { "written" }, attempts));
    let mut typed_of_loaded: Option<Typed> = None;
    if from_loaded {
        cx.arm(env.sim(1, "src/annotation"));
        match load("annotation", &src_root)? {
            Ok(n) => typed_of_loaded = Some(lib_ok("listing", || typed_of(&n))?),
            Err(m) => return fail("refused", format!("an intact dataset was refused: {m}")),
        }
        cx.disarm();
    }
    let t = typed_of_loaded.unwrap_or_else(|| typed(&d));
    let meta = format!("{root}/annotation");
    for (i, (faults, wc)) in plans.iter().enumerate() {
        if !faults.is_empty() {
            cx.tell(format!("attempt {i}: {:?}", faults[0]));
        }
        let mut sim = env.sim(1, "none");
        sim.faults = faults.clone();
        sim.wchunks = wc.clone();
        let (tr, mr) = (&t, &meta);
        let end = cx.process(sim, move |_| {
            let r = lib_ok("serialising the tables", || write_typed(tr, mr, pretty))?;
            Ok(json!(r.is_ok()))
        })?;
        let last = i + 1 == plans.len();
        let wrote = match end {
            ProcEnd::Done(v) => v == json!(true),
            ProcEnd::Killed => false,
        };
        ensure!(wrote || !last, "write-failed", "writing the tables without any fault failed");
        // what a reader sees now
        let have = stored(&meta);
        let sees = parse_tables(&have);
        cx.arm(env.sim(1, &format!("{rel}/annotation")));
        let r = load("annotation", &root)?;
        match r {
            Ok(n) => {
                if wrote {
                    compare(&n, &d)?;
                } else {
                    match &sees {
                        None => return fail("accepted", "a half-written dataset was loaded although some table is not complete"),
                        Some(w) => {
                            // tables of one writer attempt hold one dataset; older attempts wrote the same
                            if model::inconsistent(w).is_some() {
                                return fail("accepted", "an inconsistent half-written dataset was loaded");
                            }
                            compare(&n, w)?;
                        }
                    }
                }
            }
            Err(m) => ensure!(!wrote, "refused", "a completely written dataset was refused: {m}"),
        }
        cx.disarm();
        if wrote {
            cx.count("written and reloaded", 1);
        } else {
            cx.count("interrupted writes", 1);
        }
    }
    cx.st.nontrivial = !d.samples.is_empty();
    Ok(())
}
