//! Reference model: what the properties say, computed independently of the library.
use crate::ensure;
use crate::gen::*;
use crate::runner::{fail, Fail, Res};
use perception_eval::dataset::nuscenes::{schema, NuScenes};
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::label::Label;
use perception_eval::object::object3d::DynamicObject;
use std::collections::{BTreeMap, BTreeSet};

pub type V3 = [f64; 3];
pub type Q = [f64; 4];

// ------------------------------------------------------------------ geometry
pub fn qmul(a: &Q, b: &Q) -> Q {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn qconj(a: &Q) -> Q {
    [a[0], -a[1], -a[2], -a[3]]
}
/// rotates v by the unit quaternion q
pub fn qrot(q: &Q, v: &V3) -> V3 {
    let p = [0.0, v[0], v[1], v[2]];
    let r = qmul(&qmul(q, &p), &qconj(q));
    [r[1], r[2], r[3]]
}
pub fn yaw(q: &Q) -> f64 {
    (2.0 * (q[0] * q[3] + q[1] * q[2])).atan2(1.0 - 2.0 * (q[2] * q[2] + q[3] * q[3]))
}
pub fn dist3(a: &V3, b: &V3) -> f64 {
    ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2) + (a[2] - b[2]).powi(2)).sqrt()
}
pub fn corners(o: &DynamicObject) -> Vec<V3> {
    let (l, w) = (o.size[1] / 2.0, o.size[0] / 2.0);
    [[l, w, 0.0], [-l, w, 0.0], [-l, -w, 0.0], [l, -w, 0.0]]
        .iter()
        .map(|c| {
            let r = qrot(&o.orientation, c);
            [o.position[0] + r[0], o.position[1] + r[1], o.position[2] + r[2]]
        })
        .collect()
}
/// Admissible (left, right) choices of the two ego-nearest corners; several only for near ties.
fn nearest_sides(o: &DynamicObject) -> Vec<(V3, V3)> {
    const E: f64 = 1e-9;
    let cs = corners(o);
    let d: Vec<f64> = cs.iter().map(|c| c[0].hypot(c[1])).collect();
    let mut out = vec![];
    for i in 0..4 {
        for j in i + 1..4 {
            let worst = d[i].max(d[j]);
            // the pair is admissible when no other corner is clearly nearer than its farther member
            if (0..4).all(|k| k == i || k == j || d[k] >= worst - E) {
                let cr = cs[i][0] * cs[j][1] - cs[i][1] * cs[j][0];
                if cr < E {
                    out.push((cs[i], cs[j]));
                }
                if cr > -E {
                    out.push((cs[j], cs[i]));
                }
            }
        }
    }
    out
}
/// All plane distances the definition admits for this pair (one unless corners nearly tie).
pub fn plane_distances(e: &DynamicObject, g: &DynamicObject) -> Vec<f64> {
    let mut out = vec![];
    for (el, er) in nearest_sides(e) {
        for (gl, gr) in nearest_sides(g) {
            let l2 = (el[0] - gl[0]).powi(2) + (el[1] - gl[1]).powi(2);
            let r2 = (er[0] - gr[0]).powi(2) + (er[1] - gr[1]).powi(2);
            out.push(((l2 + r2) / 2.0).sqrt());
        }
    }
    out
}
fn finite(o: &DynamicObject) -> bool {
    o.position.iter().chain(o.orientation.iter()).chain(o.size.iter()).all(|x| x.is_finite() && x.abs() < 1e7)
}
fn exact(o: &DynamicObject) -> bool {
    o.orientation == [1.0, 0.0, 0.0, 0.0] && o.position.iter().chain(o.size.iter()).all(|x| (x * 64.0).fract() == 0.0 && x.abs() < 4096.0)
}
/// Some(decision) where the definition decides "plane distance < threshold" beyond rounding.
pub fn plane_tp(e: &DynamicObject, g: &DynamicObject, thr: f64) -> Option<bool> {
    if !finite(e) || !finite(g) {
        return None;
    }
    let ds = plane_distances(e, g);
    if ds.is_empty() {
        return None;
    }
    if ds.iter().all(|d| *d < thr - 1e-9) {
        return Some(true);
    }
    if ds.iter().all(|d| *d > thr + 1e-9) {
        return Some(false);
    }
    // exactly on the threshold: decided only where no rounding can occur
    let shift: V3 = [e.position[0] - g.position[0], e.position[1] - g.position[1], 0.0];
    let axis = shift[0] == 0.0 || shift[1] == 0.0;
    if exact(e) && exact(g) && axis && e.size == g.size && ds.iter().all(|d| *d == thr) && shift[0].abs() + shift[1].abs() == thr {
        return Some(false);
    }
    None
}
pub fn center_tp(e: &DynamicObject, g: &DynamicObject, thr: f64) -> Option<bool> {
    let d = dist3(&e.position, &g.position);
    if d.is_nan() {
        return Some(false);
    }
    if d < thr - 1e-9 {
        return Some(true);
    }
    if d > thr + 1e-9 {
        return Some(false);
    }
    let sh: Vec<f64> = (0..3).map(|i| (e.position[i] - g.position[i]).abs()).collect();
    if exact(e) && exact(g) && sh.iter().filter(|x| **x != 0.0).count() <= 1 && d == thr {
        return Some(false);
    }
    None
}

// ------------------------------------------------------------------ labels
pub fn label_of(name: &str) -> Label {
    match name.to_lowercase().as_str() {
        "car" | "vehicle.car" | "vehicle.construction" | "vehicle.emergency (ambulance & police)" | "vehicle.police" | "vehicle.fire" | "vehicle.ambulance" => Label::Car,
        "truck" | "vehicle.truck" | "trailer" | "vehicle.trailer" => Label::Truck,
        "bus" | "vehicle.bus" | "vehicle.bus (bendy & rigid)" | "vehicle.bus.rigid" | "vehicle.bus.bendy" => Label::Bus,
        "bicycle" | "vehicle.bicycle" => Label::Bicycle,
        "motorbike" | "vehicle.motorcycle" => Label::Motorbike,
        "animal" => Label::Animal,
        s if s == "pedestrian" || s.starts_with("pedestrian.") || s.starts_with("human.pedestrian.") => Label::Pedestrian,
        _ => Label::Unknown,
    }
}
pub fn lname(l: &Label) -> &'static str {
    match l {
        Label::Unknown => "Unknown",
        Label::Car => "Car",
        Label::Truck => "Truck",
        Label::Bus => "Bus",
        Label::Bicycle => "Bicycle",
        Label::Motorbike => "Motorbike",
        Label::Pedestrian => "Pedestrian",
        Label::Animal => "Animal",
    }
}

// ------------------------------------------------------------------ dataset rules
/// Why the dataset is inconsistent by the rules of C03, or None when it is consistent.
pub fn inconsistent(d: &DS) -> Option<String> {
    let set = |it: &mut dyn Iterator<Item = Tok>| -> BTreeSet<Tok> { it.collect() };
    let sensors = set(&mut d.sensors.iter().map(|x| x.tok));
    let anns: BTreeMap<Tok, &Ann> = d.anns.iter().map(|x| (x.tok, x)).collect();
    let samples: BTreeMap<Tok, &SampleR> = d.samples.iter().map(|x| (x.tok, x)).collect();
    let cats = set(&mut d.cats.iter().map(|x| x.tok));
    let logs = set(&mut d.logs.iter().map(|x| x.tok));
    let scenes = set(&mut d.scenes.iter().map(|x| x.tok));
    let insts = set(&mut d.insts.iter().map(|x| x.tok));
    let attrs = set(&mut d.attrs.iter().map(|x| x.tok));
    let egos = set(&mut d.egos.iter().map(|x| x.tok));
    let calibs = set(&mut d.calibs.iter().map(|x| x.tok));
    let datas = set(&mut d.datas.iter().map(|x| x.tok));
    let vis: BTreeSet<&String> = d.vis.iter().map(|v| &v.tok).collect();
    macro_rules! need {
        ($c:expr, $($a:tt)*) => { if !$c { return Some(format!($($a)*)); } };
    }
    for c in &d.calibs {
        need!(sensors.contains(&c.sensor), "calibrated sensor names a missing sensor");
    }
    for i in &d.insts {
        need!(cats.contains(&i.cat), "instance names a missing category");
        need!(anns.contains_key(&i.last), "instance names a missing last annotation");
        let (mut cur, mut prev, mut n) = (i.first, None, 0u64);
        loop {
            let Some(a) = anns.get(&cur) else { return Some("instance chain reaches a missing annotation".into()) };
            need!(a.prev == prev, "instance chain: previous link wrong");
            n += 1;
            prev = Some(cur);
            match a.next {
                Some(x) => cur = x,
                None => break,
            }
            need!(n <= d.anns.len() as u64, "instance chain does not end");
        }
        need!(cur == i.last, "instance's last annotation wrong");
        need!(n == i.n, "instance's annotation count wrong");
    }
    for s in &d.scenes {
        need!(logs.contains(&s.log), "scene names a missing log");
        need!(samples.contains_key(&s.last), "scene names a missing last sample");
        let (mut cur, mut prev, mut n) = (s.first, None, 0u64);
        loop {
            let Some(a) = samples.get(&cur) else { return Some("scene chain reaches a missing sample".into()) };
            need!(a.prev == prev, "scene chain: previous link wrong");
            n += 1;
            prev = Some(cur);
            match a.next {
                Some(x) => cur = x,
                None => break,
            }
            need!(n <= d.samples.len() as u64, "scene chain does not end");
        }
        need!(cur == s.last, "scene's last sample wrong");
        need!(n == s.n, "scene's sample count wrong");
    }
    for s in &d.samples {
        need!(scenes.contains(&s.scene), "sample names a missing scene");
        need!(s.prev.iter().chain(s.next.iter()).all(|t| samples.contains_key(t)), "sample names a missing neighbour");
    }
    for a in &d.anns {
        need!(samples.contains_key(&a.sample), "annotation names a missing sample");
        need!(insts.contains(&a.inst), "annotation names a missing instance");
        need!(a.attrs.iter().all(|t| attrs.contains(t)), "annotation names a missing attribute");
        need!(a.vis.iter().all(|t| vis.contains(t)), "annotation names a missing visibility");
        need!(a.prev.iter().chain(a.next.iter()).all(|t| anns.contains_key(t)), "annotation names a missing neighbour");
    }
    for x in &d.datas {
        need!(samples.contains_key(&x.sample), "sensor record names a missing sample");
        need!(egos.contains(&x.ego), "sensor record names a missing ego pose");
        need!(calibs.contains(&x.calib), "sensor record names a missing calibrated sensor");
        need!(x.prev.iter().chain(x.next.iter()).all(|t| datas.contains(t)), "sensor record names a missing neighbour");
    }
    None
}

/// Some record is not a member of the chain of the scene or instance it names (in a dataset
/// whose references are sound).
pub fn stray(d: &DS) -> bool {
    let samples: BTreeMap<Tok, &SampleR> = d.samples.iter().map(|x| (x.tok, x)).collect();
    let anns: BTreeMap<Tok, &Ann> = d.anns.iter().map(|x| (x.tok, x)).collect();
    let (mut in_scene, mut in_inst) = (BTreeMap::new(), BTreeMap::new());
    for s in &d.scenes {
        let mut cur = Some(s.first);
        while let Some(t) = cur {
            if in_scene.insert(t, s.tok).is_some() {
                return true;
            }
            cur = samples[&t].next;
        }
    }
    for i in &d.insts {
        let mut cur = Some(i.first);
        while let Some(t) = cur {
            if in_inst.insert(t, i.tok).is_some() {
                return true;
            }
            cur = anns[&t].next;
        }
    }
    d.samples.iter().any(|x| in_scene.get(&x.tok) != Some(&x.scene)) || d.anns.iter().any(|x| in_inst.get(&x.tok) != Some(&x.inst))
}

// ------------------------------------------------------------------ comparison of a loaded dataset
pub fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-15 * a.abs().max(b.abs()) * 2.0
}
fn near_all(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y))
}
pub fn tk(t: &impl std::fmt::Display) -> Tok {
    Tok::from_str_radix(&t.to_string(), 16).unwrap_or(0)
}
pub fn otk(t: &Option<schema::LongToken>) -> Option<Tok> {
    t.as_ref().map(tk)
}
pub fn us(t: &chrono::NaiveDateTime) -> i64 {
    t.timestamp_micros()
}
fn same_set<T: Ord + Clone + std::fmt::Debug>(what: &str, got: Vec<T>, want: Vec<T>) -> Res {
    let n = got.len();
    let (mut a, mut b) = (got, want);
    a.sort();
    b.sort();
    ensure!(a == b, "records", "{what}: {n} listed, {} stored; listed {:?} stored {:?}", b.len(), first(&a), first(&b));
    Ok(())
}
fn first<T: std::fmt::Debug>(v: &[T]) -> String {
    format!("{:?}", v.iter().take(6).collect::<Vec<_>>())
}
fn level(l: &schema::VisibilityLevel) -> usize {
    use schema::VisibilityLevel::*;
    match l {
        None => 0,
        Partial => 1,
        Most => 2,
        Full => 3,
    }
}
fn level_of(s: &str) -> usize {
    match s {
        "v0-40" | "none" => 0,
        "v40-60" | "partial" => 1,
        "v60-80" | "most" => 2,
        "v80-100" | "full" => 3,
        _ => 9,
    }
}
pub fn chan(c: &schema::Channel) -> String {
    match serde_json::to_value(c) {
        Ok(serde_json::Value::String(s)) => s,
        _ => format!("{c:?}"),
    }
}
fn fmt_norm(s: &str) -> &'static str {
    match s {
        "bin" | "pcd" => "bin",
        "jpeg" | "jpg" => "jpeg",
        "png" => "png",
        _ => "?",
    }
}

/// Every record exposed exactly once, with the stored values (C01).
pub fn compare_loaded(n: &NuScenes, d: &DS) -> Res {
    macro_rules! field {
        ($c:expr, $($a:tt)*) => { if !$c { return fail("record-value", format!($($a)*)); } };
    }
    same_set("attributes", n.attribute_iter().map(|x| tk(&x.token)).collect(), d.attrs.iter().map(|x| x.tok).collect())?;
    for x in n.attribute_iter() {
        let w = d.attrs.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        field!(x.name == w.name && x.description == w.desc, "attribute {} differs from what is stored", x.token);
    }
    same_set("categories", n.category_iter().map(|x| tk(&x.token)).collect(), d.cats.iter().map(|x| x.tok).collect())?;
    for x in n.category_iter() {
        let w = d.cats.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        field!(x.name == w.name && x.description == w.desc, "category {} differs from what is stored", x.token);
    }
    same_set("calibrated sensors", n.calibrated_sensor_iter().map(|x| tk(&x.token)).collect(), d.calibs.iter().map(|x| x.tok).collect())?;
    for x in n.calibrated_sensor_iter() {
        let w = d.calibs.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        let intr = match (&x.camera_intrinsic, &w.intr) {
            (None, None) => true,
            (Some(a), Some(b)) => (0..3).all(|i| near_all(&a[i], &b[i])),
            _ => false,
        };
        field!(tk(&x.sensor_token) == w.sensor && near_all(&x.rotation, &w.rot) && near_all(&x.translation, &w.tr) && intr, "calibrated sensor {} differs from what is stored", x.token);
    }
    same_set("ego poses", n.ego_pose_iter().map(|x| tk(&x.token)).collect(), d.egos.iter().map(|x| x.tok).collect())?;
    let mut last = i64::MIN;
    for x in n.ego_pose_iter() {
        let w = d.egos.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        field!(us(&x.timestamp) == w.ts, "ego pose {}: timestamp {} us, stored {} us", x.token, us(&x.timestamp), w.ts);
        field!(near_all(&x.rotation, &w.rot) && near_all(&x.translation, &w.tr), "ego pose {} differs from what is stored", x.token);
        ensure!(us(&x.timestamp) >= last, "order", "ego poses are not listed in time order");
        last = us(&x.timestamp);
    }
    same_set("logs", n.log_iter().map(|x| tk(&x.token)).collect(), d.logs.iter().map(|x| x.tok).collect())?;
    for x in n.log_iter() {
        let w = d.logs.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        let date = w.date.as_ref().and_then(|s| s.parse::<chrono::NaiveDate>().ok());
        let lf = x.logfile.as_ref().map(|p| p.display().to_string()).unwrap_or_default();
        field!(x.date_captured == date && x.location == w.location && x.vehicle == w.vehicle && lf == w.logfile, "log {} differs from what is stored", x.token);
    }
    same_set("maps", n.map_iter().map(|x| tk(&x.token)).collect(), d.maps.iter().map(|x| x.tok).collect())?;
    for x in n.map_iter() {
        let w = d.maps.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        let l: Vec<Tok> = x.log_tokens.iter().map(tk).collect();
        field!(l == w.logs && x.filename.display().to_string() == w.filename && x.category == w.category, "map {} differs from what is stored", x.token);
    }
    same_set("visibilities", n.visibility_iter().map(|x| x.token.clone()).collect(), d.vis.iter().map(|x| x.tok.clone()).collect())?;
    for x in n.visibility_iter() {
        let w = d.vis.iter().find(|w| w.tok == x.token).unwrap();
        field!(level(&x.level) == level_of(&w.level) && x.description == w.desc, "visibility {} differs from what is stored", x.token);
    }
    same_set("sensors", n.sensor_iter().map(|x| tk(&x.token)).collect(), d.sensors.iter().map(|x| x.tok).collect())?;
    for x in n.sensor_iter() {
        let w = d.sensors.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        let m = match x.modality {
            schema::Modality::Camera => "camera",
            schema::Modality::Lidar => "lidar",
            schema::Modality::Radar => "radar",
        };
        let c = if w.channel == "LIDAR_CONCAT" { "LIDAR_TOP" } else { &w.channel };
        field!(m == w.modality && chan(&x.channel) == c, "sensor {} differs from what is stored", x.token);
    }
    same_set("annotations", n.sample_annotation_iter().map(|x| tk(&x.token)).collect(), d.anns.iter().map(|x| x.tok).collect())?;
    let amap: BTreeMap<Tok, &Ann> = d.anns.iter().map(|a| (a.tok, a)).collect();
    for x in n.sample_annotation_iter() {
        let w = amap[&tk(&x.token)];
        let at: Vec<Tok> = x.attribute_tokens.iter().map(tk).collect();
        field!(x.num_lidar_pts as u64 == w.lidar && x.num_radar_pts as u64 == w.radar, "annotation {}: point counts {}/{}, stored {}/{}", x.token, x.num_lidar_pts, x.num_radar_pts, w.lidar, w.radar);
        field!(near_all(&x.size, &w.size) && near_all(&x.rotation, &w.rot) && near_all(&x.translation, &w.tr), "annotation {}: box differs from what is stored", x.token);
        field!(
            tk(&x.sample_token) == w.sample && tk(&x.instance_token) == w.inst && at == w.attrs && x.visibility_token == w.vis && otk(&x.prev) == w.prev && otk(&x.next) == w.next,
            "annotation {}: references differ from what is stored",
            x.token
        );
    }
    same_set("sensor records", n.sample_data_iter().map(|x| tk(&x.token)).collect(), d.datas.iter().map(|x| x.tok).collect())?;
    let mut last = i64::MIN;
    for x in n.sample_data_iter() {
        let w = d.datas.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        let f = match x.fileformat {
            schema::FileFormat::Bin => "bin",
            schema::FileFormat::Jpeg => "jpeg",
            schema::FileFormat::Png => "png",
        };
        field!(us(&x.timestamp) == w.ts, "sensor record {}: timestamp {} us, stored {} us", x.token, us(&x.timestamp), w.ts);
        field!(
            f == fmt_norm(&w.fmt) && x.is_key_frame == w.key && x.filename.display().to_string() == w.file && tk(&x.sample_token) == w.sample && tk(&x.ego_pose_token) == w.ego && tk(&x.calibrated_sensor_token) == w.calib && otk(&x.prev) == w.prev && otk(&x.next) == w.next,
            "sensor record {} differs from what is stored",
            x.token
        );
        ensure!(us(&x.timestamp) >= last, "order", "sensor records are not listed in time order");
        last = us(&x.timestamp);
    }
    same_set("samples", n.sample_iter().map(|x| tk(&x.token)).collect(), d.samples.iter().map(|x| x.tok).collect())?;
    let mut last = i64::MIN;
    let mut anns_of: BTreeMap<Tok, Vec<Tok>> = BTreeMap::new();
    d.anns.iter().for_each(|a| anns_of.entry(a.sample).or_default().push(a.tok));
    let mut datas_of: BTreeMap<Tok, Vec<Tok>> = BTreeMap::new();
    d.datas.iter().for_each(|a| datas_of.entry(a.sample).or_default().push(a.tok));
    for x in n.sample_iter() {
        let w = d.samples.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        field!(us(&x.timestamp) == w.ts, "sample {}: timestamp {} us, stored {} us", x.token, us(&x.timestamp), w.ts);
        field!(otk(&x.prev) == w.prev && otk(&x.next) == w.next && tk(&x.scene_token) == w.scene, "sample {}: references differ from what is stored", x.token);
        same_set(&format!("annotations of sample {}", x.token), x.sample_annotation_iter().map(|a| tk(&a.token)).collect(), anns_of.get(&w.tok).cloned().unwrap_or_default())?;
        same_set(&format!("sensor records of sample {}", x.token), x.sample_data_iter().map(|a| tk(&a.token)).collect(), datas_of.get(&w.tok).cloned().unwrap_or_default())?;
        ensure!(us(&x.timestamp) >= last, "order", "samples are not listed in time order");
        last = us(&x.timestamp);
    }
    same_set("scenes", n.scene_iter().map(|x| tk(&x.token)).collect(), d.scenes.iter().map(|x| x.tok).collect())?;
    let smap: BTreeMap<Tok, &SampleR> = d.samples.iter().map(|a| (a.tok, a)).collect();
    let mut last = i64::MIN;
    for x in n.scene_iter() {
        let w = d.scenes.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        field!(x.name == w.name && x.description == w.desc && tk(&x.log_token) == w.log, "scene {} differs from what is stored", x.token);
        let mut chain = vec![];
        let mut cur = Some(w.first);
        while let Some(c) = cur {
            chain.push(c);
            cur = smap[&c].next;
        }
        let got: Vec<Tok> = x.sample_iter().map(|s| tk(&s.token)).collect();
        field!(got == chain, "scene {}: samples are not the stored chain in order", x.token);
        let t = chain.iter().map(|c| smap[c].ts).min().unwrap();
        ensure!(t >= last, "order", "scenes are not listed in time order");
        last = t;
    }
    same_set("instances", n.instance_iter().map(|x| tk(&x.token)).collect(), d.insts.iter().map(|x| x.tok).collect())?;
    for x in n.instance_iter() {
        let w = d.insts.iter().find(|w| w.tok == tk(&x.token)).unwrap();
        let mut chain = vec![];
        let mut cur = Some(w.first);
        while let Some(c) = cur {
            chain.push(c);
            cur = amap[&c].next;
        }
        let got: Vec<Tok> = x.sample_annotation_iter().map(|s| tk(&s.token)).collect();
        field!(tk(&x.category_token) == w.cat && got == chain, "instance {}: category or annotation chain differs from what is stored", x.token);
    }
    Ok(())
}

/// Every navigation step returns the record the stored token names (C03).
pub fn navigate(n: &NuScenes, d: &DS) -> Res {
    macro_rules! nav {
        ($c:expr, $($a:tt)*) => { if !$c { return fail("navigation", format!($($a)*)); } };
    }
    let logs: BTreeSet<Tok> = d.logs.iter().map(|l| l.tok).collect();
    for x in n.calibrated_sensor_iter() {
        nav!(x.sensor().token == x.sensor_token, "calibrated sensor {} -> sensor", x.token);
    }
    for x in n.map_iter() {
        let got: Vec<Tok> = x.log_iter().map(|l| tk(&l.token)).collect();
        let want: Vec<Tok> = x.log_tokens.iter().map(tk).filter(|t| logs.contains(t)).collect();
        nav!(got == want, "map {} -> logs: {} of {} present logs", x.token, got.len(), want.len());
    }
    for x in n.sample_iter() {
        nav!(x.scene().token == x.scene_token, "sample {} -> scene", x.token);
        nav!(x.prev().map(|p| tk(&p.token)) == otk(&x.prev), "sample {} -> prev", x.token);
        nav!(x.next().map(|p| tk(&p.token)) == otk(&x.next), "sample {} -> next", x.token);
        nav!(x.sample_annotation_iter().all(|a| a.sample_token == x.token), "sample {} lists a foreign annotation", x.token);
        nav!(x.sample_data_iter().all(|a| a.sample_token == x.token), "sample {} lists a foreign sensor record", x.token);
    }
    for x in n.sample_annotation_iter() {
        nav!(x.sample().token == x.sample_token, "annotation {} -> sample", x.token);
        nav!(x.instance().token == x.instance_token, "annotation {} -> instance", x.token);
        nav!(x.prev().map(|p| tk(&p.token)) == otk(&x.prev), "annotation {} -> prev", x.token);
        nav!(x.next().map(|p| tk(&p.token)) == otk(&x.next), "annotation {} -> next", x.token);
        let a: Vec<Tok> = x.attribute_iter().map(|a| tk(&a.token)).collect();
        nav!(a == x.attribute_tokens.iter().map(tk).collect::<Vec<_>>(), "annotation {} -> attributes", x.token);
    }
    for x in n.sample_data_iter() {
        nav!(x.sample().token == x.sample_token, "sensor record {} -> sample", x.token);
        nav!(x.ego_pose().token == x.ego_pose_token, "sensor record {} -> ego pose", x.token);
        nav!(x.calibrated_sensor().token == x.calibrated_sensor_token, "sensor record {} -> calibrated sensor", x.token);
        nav!(x.prev().map(|p| tk(&p.token)) == otk(&x.prev), "sensor record {} -> prev", x.token);
        nav!(x.next().map(|p| tk(&p.token)) == otk(&x.next), "sensor record {} -> next", x.token);
    }
    for x in n.instance_iter() {
        nav!(x.category().token == x.category_token, "instance {} -> category", x.token);
        let list: Vec<_> = x.sample_annotation_iter().collect();
        let mut fwd = vec![];
        let mut cur = list.first().cloned();
        while let Some(c) = cur {
            fwd.push(c.token.clone());
            nav!(fwd.len() <= list.len(), "instance {}: following next does not end", x.token);
            cur = c.next();
        }
        let mut back = vec![];
        let mut cur = list.last().cloned();
        while let Some(c) = cur {
            back.push(c.token.clone());
            nav!(back.len() <= list.len(), "instance {}: following prev does not end", x.token);
            cur = c.prev();
        }
        back.reverse();
        nav!(fwd == back && fwd == x.annotation_tokens, "instance {}: forward and backward traversals differ", x.token);
    }
    for x in n.scene_iter() {
        nav!(x.log().token == x.log_token, "scene {} -> log", x.token);
        let list: Vec<_> = x.sample_iter().collect();
        let mut fwd = vec![];
        let mut cur = list.first().cloned();
        while let Some(c) = cur {
            fwd.push(c.token.clone());
            nav!(fwd.len() <= list.len(), "scene {}: following next does not end", x.token);
            cur = c.next();
        }
        let mut back = vec![];
        let mut cur = list.last().cloned();
        while let Some(c) = cur {
            back.push(c.token.clone());
            nav!(back.len() <= list.len(), "scene {}: following prev does not end", x.token);
            cur = c.prev();
        }
        back.reverse();
        nav!(fwd == back && fwd == x.sample_tokens, "scene {}: forward and backward traversals differ", x.token);
    }
    Ok(())
}

// ------------------------------------------------------------------ ground-truth frames (C04)
pub struct MObj {
    pub pos: V3,
    pub rot: Q,
    pub size: V3,
    pub pts: usize,
    pub uuid: String,
    pub label: Label,
}
pub struct MFrame {
    pub ts: i64,
    /// the objects in the vehicle frame of any one of the lidar records taken at the sample's time
    pub objs: Vec<Vec<MObj>>,
}
pub fn frames(d: &DS) -> Vec<MFrame> {
    let cat_name = |i: Tok| {
        let c = d.insts.iter().find(|x| x.tok == i).unwrap().cat;
        d.cats.iter().find(|x| x.tok == c).unwrap().name.clone()
    };
    let mut v: Vec<MFrame> = d
        .samples
        .iter()
        .map(|s| {
            let mut any = vec![];
            for l in d.datas.iter().filter(|x| x.sample == s.tok && x.ts == s.ts && modality(d, x.calib) == "lidar") {
                let mut objs = vec![];
                let e = d.egos.iter().find(|e| e.tok == l.ego).unwrap();
                for a in d.anns.iter().filter(|a| a.sample == s.tok) {
                    let inv = qconj(&e.rot);
                    objs.push(MObj {
                        pos: qrot(&inv, &[a.tr[0] - e.tr[0], a.tr[1] - e.tr[1], a.tr[2] - e.tr[2]]),
                        rot: qmul(&inv, &a.rot),
                        size: a.size,
                        pts: a.lidar as usize,
                        uuid: hx(a.inst),
                        label: label_of(&cat_name(a.inst)),
                    });
                }
                any.push(objs);
            }
            if any.is_empty() {
                any.push(vec![]);
            }
            MFrame { ts: s.ts, objs: any }
        })
        .collect();
    v.sort_by_key(|f| f.ts);
    v
}
pub fn compare_frames(got: &[FrameGroundTruth], d: &DS, frame_id: &perception_eval::frame_id::FrameID) -> Res {
    let want = frames(d);
    ensure!(got.len() == want.len(), "frames", "{} frames for {} samples", got.len(), want.len());
    let mut used = vec![false; want.len()];
    let mut last = i64::MIN;
    for g in got {
        let t = us(&g.timestamp);
        ensure!(t >= last, "frame-order", "frames are not in time order");
        last = t;
        let mut why = format!("no sample has the frame's time {t}");
        let mut hit = None;
        for (i, w) in want.iter().enumerate() {
            if !used[i] && w.ts == t {
                match frame_matches(g, w, frame_id) {
                    None => {
                        hit = Some(i);
                        break;
                    }
                    Some(m) => why = m,
                }
            }
        }
        match hit {
            Some(i) => used[i] = true,
            None => return fail("frame-objects", format!("frame at {t} us: {why}")),
        }
    }
    Ok(())
}
fn frame_matches(g: &FrameGroundTruth, w: &MFrame, fid: &perception_eval::frame_id::FrameID) -> Option<String> {
    let mut why = None;
    for objs in &w.objs {
        match objects_match(g, objs, w.ts, fid) {
            None => return None,
            Some(m) => why = Some(m),
        }
    }
    why
}
fn objects_match(g: &FrameGroundTruth, objs: &[MObj], ts: i64, fid: &perception_eval::frame_id::FrameID) -> Option<String> {
    if g.objects.len() != objs.len() {
        return Some(format!("{} objects, expected {}", g.objects.len(), objs.len()));
    }
    let mut used = vec![false; objs.len()];
    for o in &g.objects {
        let mut why = format!("no annotation of instance {:?}", o.uuid);
        let hit = objs.iter().enumerate().find(|(i, m)| {
            if used[*i] || o.uuid.as_deref() != Some(m.uuid.as_str()) {
                return false;
            }
            let dp = (0..3).map(|k| (o.position[k] - m.pos[k]).abs()).fold(0.0, f64::max);
            let dq = |s: f64| (0..4).map(|k| (o.orientation[k] - s * m.rot[k]).abs()).fold(0.0, f64::max);
            let ok_q = dq(1.0) < 1e-7 || dq(-1.0) < 1e-7;
            let checks = [
                (dp < 1e-6, format!("position {:?}, expected {:?}", o.position, m.pos)),
                (ok_q, format!("orientation {:?}, expected {:?}", o.orientation, m.rot)),
                (near_all(&o.size, &m.size), format!("size {:?}, expected {:?}", o.size, m.size)),
                (o.pointcloud_num == Some(m.pts), format!("points {:?}, expected {}", o.pointcloud_num, m.pts)),
                (o.label == m.label, format!("label {:?}, expected {:?}", o.label, m.label)),
                (o.confidence == 1.0, format!("confidence {}", o.confidence)),
                (o.frame_id == *fid, format!("frame id {:?}", o.frame_id)),
                (us(&o.timestamp) == ts, format!("object time {}", us(&o.timestamp))),
            ];
            for (ok, m) in checks {
                if !ok {
                    why = m;
                    return false;
                }
            }
            true
        });
        match hit {
            Some((i, _)) => used[i] = true,
            None => return Some(why),
        }
    }
    None
}

// ------------------------------------------------------------------ evaluation
/// Full identity of an object, all fields bit for bit.
pub fn okey(o: &DynamicObject) -> String {
    let b = |v: &[f64]| v.iter().map(|x| format!("{:x}", x.to_bits())).collect::<Vec<_>>().join(",");
    format!(
        "{}|{:?}|{}|{}|{}|{}|{:x}|{:?}|{:?}|{:?}",
        o.timestamp.timestamp_nanos_opt().unwrap_or(0),
        o.frame_id,
        b(&o.position),
        b(&o.orientation),
        b(&o.size),
        o.velocity.map(|v| b(&v)).unwrap_or_default(),
        o.confidence.to_bits(),
        o.label,
        o.pointcloud_num,
        o.uuid
    )
}

/// The parameters of one evaluation as the scenario states them.
#[derive(Clone, Debug)]
pub struct Params {
    pub labels: Vec<Label>,
    pub max_x: f64,
    pub max_y: f64,
    pub min_pts: Option<usize>,
    pub uuids: Option<Vec<String>>,
    pub cd: f64,
    pub pd: f64,
    pub fid: perception_eval::frame_id::FrameID,
}
impl Params {
    pub fn of(s: &Scn) -> Params {
        Params {
            labels: s.labels.iter().map(|l| label_of(l)).collect(),
            max_x: s.max_x,
            max_y: s.max_y,
            min_pts: s.min_pts.map(|x| x as usize),
            uuids: s.uuids.clone(),
            cd: s.cd,
            pd: s.pd,
            fid: crate::props::load::FRAME_IDS.iter().find(|x| x.0 == s.frame_id).unwrap().1.clone(),
        }
    }
    pub fn keeps(&self, o: &DynamicObject, gt: bool) -> bool {
        if !self.labels.contains(&o.label) || !(o.position[0].abs() < self.max_x) || !(o.position[1].abs() < self.max_y) {
            return false;
        }
        if gt {
            if let (Some(m), Some(n)) = (self.min_pts, o.pointcloud_num) {
                if n < m {
                    return false;
                }
            }
            if let Some(u) = &self.uuids {
                match &o.uuid {
                    Some(x) if u.contains(x) => {}
                    _ => return false,
                }
            }
        }
        true
    }
}

/// C09 for one recorded frame.
pub fn check_recorded(f: &perception_eval::result::frame::PerceptionFrameResult, p: &Params, dets: &[DynamicObject], gt: &FrameGroundTruth) -> Res {
    let want: Vec<String> = gt.objects.iter().filter(|o| p.keeps(o, true)).map(okey).collect();
    let got: Vec<String> = f.frame_ground_truth().objects.iter().map(okey).collect();
    ensure!(f.frame_ground_truth().timestamp == gt.timestamp, "gt-time", "recorded frame carries another time");
    ensure!(got == want, "gt-filter", "recorded ground truth has {} objects, expected {} (or other objects/order)", got.len(), want.len());
    let mut w: Vec<String> = dets.iter().filter(|o| p.keeps(o, false)).map(okey).collect();
    let mut g: Vec<String> = f.results().iter().map(|r| okey(&r.estimated_object)).collect();
    w.sort();
    g.sort();
    ensure!(g == w, "results", "{} results for {} admissible detections", g.len(), w.len());
    // one-to-one on ground truth
    let mut left = got.clone();
    for r in f.results() {
        if let Some(x) = &r.ground_truth_object {
            let k = okey(x);
            match left.iter().position(|y| *y == k) {
                Some(i) => {
                    left.swap_remove(i);
                }
                None => return fail("one-to-one", "a ground-truth object is paired twice or is not part of the frame"),
            }
            ensure!(x.label == r.estimated_object.label, "label-pair", "paired objects have different labels");
        }
    }
    // closest-first: no pair of objects is closer to each other than both are to their partners
    let objs = &f.frame_ground_truth().objects;
    let mut partner: Vec<f64> = vec![f64::INFINITY; objs.len()];
    let mut free: Vec<bool> = vec![true; objs.len()];
    for r in f.results() {
        if let Some(x) = &r.ground_truth_object {
            let d = dist3(&r.estimated_object.position, &x.position);
            let k = okey(x);
            if let Some(i) = (0..objs.len()).find(|&i| free[i] && okey(&objs[i]) == k) {
                free[i] = false;
                partner[i] = d;
            }
        }
    }
    for r in f.results() {
        let e = &r.estimated_object;
        let own = r.ground_truth_object.as_ref().map(|x| dist3(&e.position, &x.position)).unwrap_or(f64::INFINITY);
        for (i, o) in objs.iter().enumerate() {
            if o.label != e.label {
                continue;
            }
            let d = dist3(&e.position, &o.position);
            if d.is_finite() && d < own - 1e-9 && d < partner[i] - 1e-9 {
                return fail("closest-first", format!("detection at {:?} and ground truth at {:?} are {d} apart, closer than their partners ({own}, {})", e.position, o.position, partner[i]));
            }
        }
    }
    Ok(())
}

/// C10 for one recorded frame.
pub fn check_partition(f: &perception_eval::result::frame::PerceptionFrameResult, p: &Params) -> Result<u64, Fail> {
    type R = perception_eval::result::object::PerceptionResult;
    let rk = |r: &R| format!("{}=>{}", okey(&r.estimated_object), r.ground_truth_object.as_ref().map(okey).unwrap_or_default());
    let mut all: Vec<String> = f.results().iter().map(rk).collect();
    let tp: Vec<String> = f.tp_results().iter().map(rk).collect();
    let fp: Vec<String> = f.fp_results().iter().map(rk).collect();
    ensure!(tp.len() + fp.len() == all.len(), "partition", "TP {} + FP {} is not the number of results {}", tp.len(), fp.len(), all.len());
    for k in tp.iter().chain(fp.iter()) {
        match all.iter().position(|x| x == k) {
            Some(i) => {
                all.swap_remove(i);
            }
            None => return fail("partition", "a TP or FP is not one of the results, or is counted twice"),
        }
    }
    let mut decided = 0;
    for (list, is_tp) in [(f.tp_results(), true), (f.fp_results(), false)] {
        for r in list {
            let want = match &r.ground_truth_object {
                None => Some(false),
                Some(g) => plane_tp(&r.estimated_object, g, p.pd),
            };
            if let Some(w) = want {
                decided += 1;
                ensure!(
                    w == is_tp,
                    "tp-rule",
                    "a result is listed as {} but its plane distance {:?} against threshold {} says otherwise",
                    if is_tp { "TP" } else { "FP" },
                    r.ground_truth_object.as_ref().map(|g| plane_distances(&r.estimated_object, g)),
                    p.pd
                );
            }
        }
    }
    let mut gts: Vec<String> = f.frame_ground_truth().objects.iter().map(okey).collect();
    ensure!(
        tp.len() + f.fn_objects().len() == gts.len(),
        "fn-count",
        "TP {} + FN {} is not the number of ground-truth objects {}",
        tp.len(),
        f.fn_objects().len(),
        gts.len()
    );
    for k in f.tp_results().iter().filter_map(|r| r.ground_truth_object.as_ref()).map(okey).chain(f.fn_objects().iter().map(okey)) {
        match gts.iter().position(|x| *x == k) {
            Some(i) => {
                gts.swap_remove(i);
            }
            None => return fail("fn-claim", "a ground-truth object is both found and missed, or listed twice"),
        }
    }
    Ok(decided)
}

/// AP by definition; None when ties or rounding leave the value open.
pub fn ap(results: &[(f64, Option<f64>)], num_gt: usize) -> Option<f64> {
    // (confidence, Some(weight) if true positive)
    if results.is_empty() && num_gt == 0 {
        return Some(f64::NAN);
    }
    if results.is_empty() || num_gt == 0 {
        return Some(0.0);
    }
    let mut v = results.to_vec();
    v.sort_by(|a, b| b.0.total_cmp(&a.0));
    for w in v.windows(2) {
        if w[0].0 == w[1].0 && w[0].1 != w[1].1 {
            return None;
        }
    }
    let mut cum = 0.0;
    let mut pr: Vec<(f64, f64)> = vec![];
    for (i, (_, t)) in v.iter().enumerate() {
        cum += t.unwrap_or(0.0);
        pr.push((cum / (i as f64 + 1.0), cum / num_gt as f64));
    }
    let mut area = 0.0;
    let mut r0 = 0.0;
    for i in 0..pr.len() {
        let env = pr[i..].iter().map(|x| x.0).fold(0.0, f64::max);
        area += (pr[i].1 - r0) * env;
        r0 = pr[i].1;
    }
    Some(area)
}
pub fn heading_weight(e: &DynamicObject, g: &DynamicObject) -> f64 {
    let pi = std::f64::consts::PI;
    let mut d = (yaw(&e.orientation) - yaw(&g.orientation)).abs();
    if d > pi {
        d = 2.0 * pi - d;
    }
    (1.0 - d / pi).clamp(0.0, 1.0)
}

#[derive(Debug, Clone)]
pub struct Section {
    pub mode: String,
    pub means: BTreeMap<String, f64>,
    pub labels: Vec<(String, f64)>,
    pub rows: BTreeMap<String, Vec<f64>>,
}
/// Reads the printed report.
pub fn parse_report(text: &str) -> Result<Vec<Section>, Fail> {
    let bad = |m: &str| Fail { kind: "report-format".into(), msg: format!("{m}: {text:?}") };
    let mut out: Vec<Section> = vec![];
    for line in text.lines() {
        let l = line.trim();
        if l.is_empty() {
            continue;
        }
        if l.starts_with('[') && l.ends_with(']') {
            out.push(Section { mode: l[1..l.len() - 1].into(), means: BTreeMap::new(), labels: vec![], rows: BTreeMap::new() });
            continue;
        }
        let s = out.last_mut().ok_or_else(|| bad("text before the first section"))?;
        if l.starts_with('m') {
            let w: Vec<&str> = l.split_whitespace().collect();
            for c in w.chunks(2) {
                if c.len() == 2 {
                    let k = c[0].trim_start_matches('m').trim_end_matches(':').to_string();
                    s.means.insert(k, c[1].parse().map_err(|_| bad("mean is not a number"))?);
                }
            }
        } else if l.starts_with('|') {
            let cells: Vec<&str> = l.split('|').map(|c| c.trim()).filter(|c| !c.is_empty()).collect();
            if cells.is_empty() {
                return Err(bad("empty row"));
            }
            if cells[0] == "Label" {
                for c in &cells[1..] {
                    let (n, r) = c.split_once('(').ok_or_else(|| bad("label cell"))?;
                    s.labels.push((n.trim().into(), r.trim_end_matches(')').trim().parse().map_err(|_| bad("threshold"))?));
                }
            } else {
                let v: Result<Vec<f64>, _> = cells[1..].iter().map(|c| c.parse::<f64>()).collect();
                s.rows.insert(cells[0].into(), v.map_err(|_| bad("value"))?);
            }
        }
    }
    Ok(out)
}

fn agree(printed: f64, v: f64) -> bool {
    (printed.is_nan() && v.is_nan()) || (printed - v).abs() <= 0.000_501 + 1e-9
}

/// C11: the printed report against the definition over the recorded history.
pub fn check_report(text: &str, history: &[perception_eval::result::frame::PerceptionFrameResult], p: &Params) -> Result<(u64, u64), Fail> {
    let secs = parse_report(text)?;
    ensure!(secs.len() == 2, "report-sections", "{} sections", secs.len());
    let (mut decided, mut open) = (0, 0);
    for mode in ["CenterDistance", "PlaneDistance"] {
        let Some(s) = secs.iter().find(|s| s.mode == mode) else { return fail("report-sections", format!("no section {mode}")) };
        let thr = if mode == "CenterDistance" { p.cd } else { p.pd };
        let names: Vec<&str> = p.labels.iter().map(lname).collect();
        let got: Vec<&str> = s.labels.iter().map(|x| x.0.as_str()).collect();
        ensure!(got == names, "report-labels", "{mode}: labels {got:?}, expected {names:?}");
        ensure!(s.labels.iter().all(|x| agree(x.1, thr)), "report-threshold", "{mode}: thresholds {:?}, expected {thr}", s.labels);
        for metric in ["AP", "APH"] {
            let empty = vec![];
            let row = match s.rows.get(metric) {
                Some(r) => r,
                None if names.is_empty() => &empty,
                None => return fail("report-rows", format!("{mode}: no {metric} row")),
            };
            ensure!(row.len() == names.len(), "report-rows", "{mode} {metric}: {} values for {} labels", row.len(), names.len());
            let mut vals: Vec<Option<f64>> = vec![];
            for (i, lab) in p.labels.iter().enumerate() {
                let mut rs: Vec<(f64, Option<f64>)> = vec![];
                let mut num = 0;
                let mut ok = true;
                for f in history {
                    num += f.frame_ground_truth().objects.iter().filter(|o| o.label == *lab).count();
                    for r in f.results().iter().filter(|r| r.estimated_object.label == *lab) {
                        let e = &r.estimated_object;
                        let tp = match &r.ground_truth_object {
                            None => Some(None),
                            Some(g) => {
                                let d = if mode == "CenterDistance" { center_tp(e, g, thr) } else { plane_tp(e, g, thr) };
                                d.map(|t| if t { Some(if metric == "AP" { 1.0 } else { heading_weight(e, g) }) } else { None })
                            }
                        };
                        match tp {
                            Some(t) if !t.map(f64::is_nan).unwrap_or(false) && !e.confidence.is_nan() => rs.push((e.confidence, t)),
                            _ => ok = false,
                        }
                    }
                }
                let v = if ok { ap(&rs, num) } else { None };
                match v {
                    Some(v) => {
                        decided += 1;
                        ensure!(agree(row[i], v), "ap-value", "{mode} {metric} of {}: reported {}, definition gives {v:.6} ({} results, {num} ground truths)", names[i], row[i], rs.len());
                    }
                    None => open += 1,
                }
                vals.push(v);
            }
            if !vals.is_empty() && vals.iter().all(|v| v.is_some()) {
                let m = vals.iter().map(|v| v.unwrap()).sum::<f64>() / vals.len() as f64;
                let got = s.means.get(metric).copied();
                ensure!(got.map(|g| agree(g, m)).unwrap_or(false), "mean-value", "{mode} m{metric}: reported {got:?}, definition gives {m:.6}");
            }
        }
    }
    Ok((decided, open))
}
