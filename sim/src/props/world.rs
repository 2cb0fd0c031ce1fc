//! What a run draws about the world around the library: read splitting, interruptions,
//! stalls, entropy, clock, buffer placement; and objects and messages.
use crate::choice::{mix, Src};
use crate::gen::*;
use crate::model::{self, label_of, Params};
use crate::runner::{fail, lib_ok, Ctx, Fail};
use crate::sys::{Act, Fault, Op, Sim};
use chrono::NaiveDateTime;
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::FrameGroundTruth;
use perception_eval::label::Label;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::object::object3d::DynamicObject;

pub const VARS: [(&str, &str); 14] = [
    ("TZ", "XXX-9"),
    ("TZ", "EST5EDT,M3.2.0,M11.1.0"),
    ("TZ", "YYY3:30"),
    ("TZ", ":/absent"),
    ("LANG", "tr_TR.UTF-8"),
    ("LC_ALL", "de_DE.UTF-8"),
    ("COLUMNS", "3"),
    ("TERM", "dumb"),
    ("NO_COLOR", "1"),
    ("RUST_LOG", "trace"),
    ("RUST_BACKTRACE", "full"),
    ("HOME", "/absent"),
    ("TMPDIR", "/absent"),
    ("CI", "true"),
];
#[derive(Clone, Debug)]
pub struct Env {
    pub chunks: Vec<i64>,
    pub hash_seed: u64,
    pub clock_ns: u64,
    pub misalign: bool,
    pub stalls: Vec<(String, u32, u64)>,
    /// environment variables
    pub vars: Vec<(&'static str, &'static str)>,
}
impl Env {
    pub fn calm() -> Env {
        Env { chunks: vec![], hash_seed: 1, clock_ns: 1_700_000_000_000_000_000, misalign: false, stalls: vec![], vars: vec![] }
    }
    pub fn draw(s: &mut Src) -> Env {
        let mut chunks = vec![];
        if s.chance(3, 4) {
            for _ in 0..s.range(1, 8) {
                chunks.push(match s.weighted(&[3, 3, 3, 2, 2, 3]) {
                    0 => 0,
                    1 => 1 + s.draw(8000) as i64,
                    2 => 100 + s.draw(400) as i64,
                    3 => 1 + s.draw(64) as i64,
                    4 => *s.pick(&[8192i64, 8191, 4096, 1024, 512]),
                    _ => -1,
                });
            }
        }
        let mut stalls = vec![];
        for _ in 0..s.weighted(&[4, 2, 1]) {
            let t = s.pick(&TABLES);
            stalls.push((format!("*{t}"), s.draw(3) as u32, s.draw(30_000_000_000)));
        }
        Env {
            chunks,
            hash_seed: s.draw(1 << 48),
            clock_ns: *s.pick(&[1_700_000_000_000_000_000u64, 1, 951_782_399_999_999_999, 4_102_444_799_999_999_999]),
            misalign: s.chance(1, 2),
            stalls,
            vars: if s.chance(1, 3) { (0..s.range(1, 3)).map(|_| *s.pick(&VARS)).collect() } else { vec![] },
        }
    }
    /// meta: table directory relative to the scratch directory of the run
    pub fn sim(&self, ntasks: usize, meta: &str) -> Sim {
        let mut m = Sim::new(ntasks);
        m.chunks = self.chunks.clone();
        m.hash_seed = self.hash_seed;
        m.clock_ns = self.clock_ns;
        m.clock_start = self.clock_ns;
        m.misalign = self.misalign;
        m.vars = self.vars.clone();
        for (t, n, ns) in &self.stalls {
            m.faults.push(Fault { path: format!("{meta}/{}.json", &t[1..]), op: Op::Read, nth: *n, act: Act::Stall(*ns) });
        }
        m
    }
    pub fn text(&self) -> String {
        format!("read limits {:?}, entropy {:x}, clock {} ns, misaligned buffers {}, stalls {:?}, variables {:?}", self.chunks, self.hash_seed, self.clock_ns, self.misalign, self.stalls, self.vars)
    }
}

pub fn short(d: &DS) -> String {
    format!(
        "dataset: {} scenes, {} samples, {} instances, {} annotations, {} sensor records, {} ego poses",
        d.scenes.len(),
        d.samples.len(),
        d.insts.len(),
        d.anns.len(),
        d.datas.len(),
        d.egos.len()
    )
}

pub fn when(us: i64) -> NaiveDateTime {
    NaiveDateTime::from_timestamp_micros(us).unwrap()
}

// ------------------------------------------------------------------ evaluation worlds
/// A dataset, a scenario naming it, and both written below `dir`.
pub struct World {
    pub d: DS,
    pub scn: Scn,
    pub p: Params,
    pub scn_path: String,
    pub result_dir: String,
}
pub fn small_ds() -> DsOpts {
    DsOpts { scenes: 2, samples: 4, insts: 3, allow_empty: false, dangling_map_logs: true, ties: true, texts: false, odd: true, big: false, fine: false }
}
const POOL: [&str; 12] =
    ["car", "bicycle", "pedestrian", "motorbike", "truck", "bus", "animal", "unknown", "vehicle.car", "trailer", "human.pedestrian.adult", "Pedestrian"];
pub fn scenario(s: &mut Src, ds_path: &str, version: &str, d: &DS) -> Scn {
    let mut scn = Scn::simple(ds_path, version);
    if s.chance(3, 4) {
        let n = s.range(1, 4);
        scn.labels = (0..n).map(|_| s.pick(&POOL).to_string()).collect();
        if !s.chance(1, 5) {
            // distinct labels
            let mut seen: Vec<Label> = vec![];
            scn.labels.retain(|l| {
                let x = label_of(l);
                if seen.contains(&x) {
                    false
                } else {
                    seen.push(x);
                    true
                }
            });
        }
    }
    scn.max_x = *s.pick(&[100.0, 50.0, 102.5, 20.0, 1000.0]);
    scn.max_y = *s.pick(&[100.0, 50.0, 64.25, 1000.0, 20.0]);
    scn.min_pts = *s.pick(&[Some(0), None, Some(1), Some(5), Some(40)]);
    if s.chance(1, 4) {
        scn.frame_id = s.pick(&super::load::FRAME_IDS).0.to_string();
    }
    if s.chance(1, 40) {
        scn.uuids = Some(vec![]);
    } else if s.chance(1, 4) {
        let mut u: Vec<String> = d.insts.iter().take(2).map(|i| hx(i.tok)).collect();
        u.push("u1".into());
        u.push("u3".into());
        scn.uuids = Some(u);
    }
    scn.cd = *s.pick(&[1.0, 0.5, 2.0, 0.25, 4.0]);
    scn.pd = *s.pick(&[2.0, 1.0, 0.5, 3.0, 8.0]);
    scn
}
pub fn world(cx: &mut Ctx, name: &str, o: &DsOpts) -> World {
    let s = &mut cx.src;
    let d = dataset(s, o);
    let root = format!("{}/{name}", cx.dir);
    let style = Style { extras: false, float_ts: false, ..Style::draw(s) };
    write_ds(&d, &style, std::path::Path::new(&root), "annotation");
    let scn = scenario(s, &root, "annotation", &d);
    let form = s.draw(32);
    let scn_path = format!("{}/{name}.yaml", cx.dir);
    std::fs::write(&scn_path, scn.yaml(form)).unwrap();
    let p = Params::of(&scn);
    cx.tell(format!("{name}: {}; frame id {}, target labels {:?}, limits {}x{}, points {:?}, uuids {:?}, thresholds {} / {}", short(&d), scn.frame_id, scn.labels, scn.max_x, scn.max_y, scn.min_pts, scn.uuids.as_ref().map(|u| u.len()), scn.cd, scn.pd));
    World { d, scn, p, scn_path, result_dir: format!("{}/{name}-result", cx.dir) }
}
impl World {
    pub fn config(&self) -> Result<PerceptionEvaluationConfig, Fail> {
        match lib_ok("loading the scenario", || PerceptionEvaluationConfig::from(&self.scn_path, &self.result_dir, false))? {
            Ok(c) => Ok(c),
            Err(e) => fail("config-refused", format!("a well-formed scenario was refused: {e}")),
        }
    }
}
pub fn manager(c: &PerceptionEvaluationConfig) -> Result<PerceptionEvaluationManager<'_>, Fail> {
    match lib_ok("creating the evaluation", || PerceptionEvaluationManager::from(c))? {
        Ok(m) => Ok(m),
        Err(e) => fail("dataset-refused", format!("an intact dataset was refused: {e}")),
    }
}
pub fn add(m: &mut PerceptionEvaluationManager, dets: &[DynamicObject], gt: &FrameGroundTruth) -> Result<(), Fail> {
    let before = m.frame_results.len();
    match lib_ok("recording a message", || m.add_frame_result(dets, gt))? {
        Ok(()) => {}
        Err(e) => return fail("add-refused", format!("recording a message was refused: {e}")),
    }
    if m.frame_results.len() != before + 1 {
        return fail("history-length", format!("recording one message took the history from {before} to {} frames", m.frame_results.len()));
    }
    Ok(())
}
pub fn report(m: &PerceptionEvaluationManager) -> Result<String, Fail> {
    match lib_ok("scoring", || m.get_metrics_score().map(|s| s.to_string()))? {
        Ok(t) => Ok(t),
        Err(e) => fail("score-refused", format!("scoring was refused: {e}")),
    }
}

// ------------------------------------------------------------------ objects and messages
/// Distinct confidences in an arbitrary order.
pub struct Conf {
    n: u64,
    salt: u64,
}
impl Conf {
    pub fn new(s: &mut Src) -> Conf {
        Conf { n: 0, salt: s.draw(1 << 32) }
    }
    pub fn next(&mut self) -> f64 {
        self.n += 1;
        // now and then the ends of the scale
        if self.salt % 4 == 0 && self.n % 10_000 <= 2 && self.n <= 2 {
            return (self.n - 1) as f64;
        }
        // high part pseudo-random, low part unique: distinct by construction
        let hi = mix(self.salt ^ self.n) % 1000;
        (hi * 10_000 + self.n % 10_000) as f64 / 10_000_000.0
    }
}
pub struct ObjGen {
    pub conf: Conf,
    pub labels: Vec<Label>,
    pub p: Params,
    pub ties: bool,
    /// now and then a long stream or crowded frames
    pub scale: bool,
    crowd: bool,
}
const ALL: [Label; 8] = [Label::Car, Label::Pedestrian, Label::Bicycle, Label::Motorbike, Label::Truck, Label::Bus, Label::Animal, Label::Unknown];
impl ObjGen {
    pub fn new(s: &mut Src, p: &Params) -> ObjGen {
        let mut labels = p.labels.clone();
        labels.push(s.pick(&ALL).clone());
        ObjGen { conf: Conf::new(s), labels, p: p.clone(), ties: false, scale: true, crowd: false }
    }
    fn size(s: &mut Src) -> [f64; 3] {
        match s.weighted(&[3, 2, 1]) {
            0 => [2.0, 4.0, 1.5],
            1 => [0.5 + s.draw(24) as f64 / 8.0, 0.5 + s.draw(48) as f64 / 8.0, 0.5 + s.draw(16) as f64 / 8.0],
            _ => [1.0, 1.0, 1.0],
        }
    }
    pub fn gt(&mut self, s: &mut Src, ts: i64, near: &[DynamicObject]) -> DynamicObject {
        let (mx, my) = (self.p.max_x, self.p.max_y);
        let mut label = s.pick(&self.labels).clone();
        let position = match s.weighted(&[6, if near.is_empty() { 0 } else { 5 }, 1, 1, 1]) {
            0 => [s.dyadic(18, 8), s.dyadic(18, 8), s.dyadic(2, 8)],
            1 => {
                let b = s.pick(near);
                if s.chance(3, 4) {
                    label = b.label.clone();
                }
                [b.position[0] + s.dyadic(3, 8), b.position[1] + s.dyadic(3, 8), b.position[2] + if s.chance(1, 3) { s.dyadic(1, 8) } else { 0.0 }]
            }
            2 => [if s.chance(1, 2) { mx } else { -mx }, s.dyadic(10, 8), 0.0],
            3 => [s.dyadic(10, 8), if s.chance(1, 2) { my } else { -my }, 0.0],
            _ => [s.dyadic(120, 8), s.dyadic(120, 8), 0.0],
        };
        DynamicObject {
            timestamp: when(ts),
            frame_id: self.p.fid.clone(),
            position,
            orientation: rotation(s),
            size: Self::size(s),
            velocity: if s.chance(1, 8) { Some([s.dyadic(20, 4), s.dyadic(20, 4), 0.0]) } else { None },
            confidence: 1.0,
            label,
            pointcloud_num: match s.weighted(&[4, 2, 1, 1]) {
                0 => Some(s.draw(200) as usize),
                1 => self.p.min_pts.or(Some(0)),
                2 => self.p.min_pts.map(|m| m.saturating_sub(1)).or(Some(0)),
                _ => None,
            },
            uuid: match s.weighted(&[4, 1, 1]) {
                0 => Some(format!("u{}", s.draw(5))),
                1 => self.p.uuids.as_ref().and_then(|u| u.first().cloned()).or(Some("u0".into())),
                _ => None,
            },
        }
    }
    pub fn frame(&mut self, s: &mut Src, ts: i64) -> FrameGroundTruth {
        let mut objects: Vec<DynamicObject> = vec![];
        let n = if self.crowd { 12 + s.below(80) } else { s.weighted(&[2, 3, 4, 4, 3, 2, 1, 1]) };
        for _ in 0..n {
            let mut o = self.gt(s, ts, &objects);
            if !objects.is_empty() && s.chance(1, 12) {
                // the same pose twice, other attributes differing
                let b = s.pick(&objects).clone();
                o.position = b.position;
                o.orientation = b.orientation;
                o.label = b.label.clone();
                match s.weighted(&[4, 1, 2]) {
                    0 => {}
                    1 => o = b,
                    // a single attribute differing
                    _ => {
                        let fresh = std::mem::replace(&mut o, b);
                        match s.below(4) {
                            0 => {
                                o.velocity = match o.velocity {
                                    None => Some([s.dyadic(20, 4), s.dyadic(20, 4), 0.0]),
                                    Some(_) if s.chance(1, 2) => None,
                                    Some(v) => Some([v[0] + 0.25, v[1], v[2]]),
                                }
                            }
                            1 => o.size = fresh.size,
                            2 => o.pointcloud_num = fresh.pointcloud_num,
                            _ => o.uuid = fresh.uuid,
                        }
                    }
                }
            }
            objects.push(o);
        }
        FrameGroundTruth { timestamp: when(ts), objects }
    }
    fn base(&mut self, s: &mut Src, ts: i64) -> DynamicObject {
        let mut o = self.gt(s, ts, &[]);
        o.pointcloud_num = if s.chance(1, 4) { Some(0) } else { None };
        o.uuid = None;
        o
    }
    /// one detection, usually of one of the frame's objects
    pub fn det(&mut self, s: &mut Src, f: &FrameGroundTruth, ts: i64) -> DynamicObject {
        let mut o = if f.objects.is_empty() || s.chance(1, 6) { self.base(s, ts) } else { s.pick(&f.objects).clone() };
        o.confidence = if self.ties { 0.25 * (1 + s.draw(3)) as f64 } else { self.conf.next() };
        o.timestamp = when(ts);
        if s.chance(1, 2) {
            o.uuid = None;
        }
        if s.chance(1, 3) {
            o.pointcloud_num = None;
        }
        match s.weighted(&[3, 4, 2, 2, 1, 2]) {
            0 => {}
            1 => {
                o.position[0] += s.dyadic(1, 8);
                o.position[1] += s.dyadic(1, 8);
            }
            2 => {
                // exactly the centre-distance or plane-distance threshold away along an axis
                let t = if s.chance(1, 2) { self.p.cd } else { self.p.pd };
                let sign = if s.chance(1, 2) { 1.0 } else { -1.0 };
                let ax = s.below(3);
                o.position[ax] += sign * t;
            }
            3 => {
                o.position[0] += s.dyadic(4, 8);
                o.position[1] += s.dyadic(4, 8);
                o.position[2] += s.dyadic(2, 8);
            }
            4 => o.position[2] += s.dyadic(3, 8),
            _ => {
                // just inside / outside the thresholds
                let t = if s.chance(1, 2) { self.p.cd } else { self.p.pd };
                let e = *s.pick(&[0.015625, -0.015625, 0.125, -0.125]);
                let ax = s.below(2);
                o.position[ax] += t + e;
            }
        }
        if s.chance(1, 4) {
            o.orientation = rotation(s);
        }
        if s.chance(1, 6) {
            o.size = Self::size(s);
        }
        match s.draw(12) {
            // whatever frame and speed the publisher states
            0 => o.frame_id = s.pick(&super::load::FRAME_IDS).1.clone(),
            1 => o.velocity = Some([s.dyadic(20, 4), s.dyadic(20, 4), 0.0]),
            _ => {}
        }
        if s.chance(1, 6) {
            o.label = s.pick(&self.labels).clone();
        }
        if s.chance(1, 8) {
            o.velocity = Some([s.dyadic(20, 8), s.dyadic(20, 8), 0.0]);
        }
        o
    }
    pub fn dets(&mut self, s: &mut Src, f: &FrameGroundTruth, ts: i64) -> Vec<DynamicObject> {
        let n = if self.crowd { 12 + s.below(80) } else { s.weighted(&[2, 3, 4, 4, 3, 2, 1, 1]) };
        (0..n).map(|_| self.det(s, f, ts)).collect()
    }
}

#[derive(Clone)]
pub struct Message {
    pub id: usize,
    pub sent: i64,    // publisher's stamp, us
    pub arrives: i64, // true time of arrival, us
    pub dets: Vec<DynamicObject>,
    pub gt: FrameGroundTruth,
}

/// A publisher with a drifting, possibly jumping clock sending through a network that loses,
/// duplicates, delays and reorders; returns what arrives, in order of arrival.
pub fn stream(cx: &mut Ctx, g: &mut ObjGen, frames: &[FrameGroundTruth], n: i64) -> Vec<Message> {
    let base = frames.first().map(|f| f.timestamp.timestamp_micros()).unwrap_or(1_600_000_000_000_000);
    let s = &mut cx.src;
    let drift = s.signed(500); // ppm
    let mut n = n;
    if g.scale {
        match s.weighted(&[240, 1, 2, 1]) {
            1 => n = 30 + s.draw(130) as i64,
            2 => {
                g.crowd = true;
                n = n.min(3);
            }
            3 => {
                // hundreds of results, of few labels
                g.crowd = true;
                g.labels.truncate(1 + s.below(2));
                n = 6 + s.draw(8) as i64;
            }
            _ => {}
        }
    }
    let (loss, dup, delay) = (s.draw(4), s.draw(4), s.draw(3));
    let mut now = base;
    let mut skew = 0i64;
    let mut out: Vec<Message> = vec![];
    let (mut lost, mut dups, mut jumps, mut late) = (0u64, 0u64, 0u64, 0u64);
    for id in 0..n as usize {
        now += 100_000 + s.draw(20_000) as i64;
        skew += 100_000 * drift / 1_000_000;
        if s.chance(1, 12) {
            skew += s.signed(400_000);
            jumps += 1;
        }
        let sent = now + skew;
        let gt = match s.weighted(&[5, if frames.is_empty() { 0 } else { 3 }]) {
            0 => g.frame(s, now),
            _ => s.pick(frames).clone(),
        };
        let dets = g.dets(s, &gt, sent);
        if loss > 0 && s.chance(loss, 16) {
            lost += 1;
            continue;
        }
        let copies = if dup > 0 && s.chance(dup, 16) { 2 } else { 1 };
        dups += copies - 1;
        for _ in 0..copies {
            let lag = if delay == 0 { 0 } else { s.draw(1 + 300_000 * delay) as i64 };
            out.push(Message { id, sent, arrives: now + lag, dets: dets.clone(), gt: gt.clone() });
        }
    }
    let crowd = std::mem::replace(&mut g.crowd, false);
    if g.scale && n > 29 {
        cx.count("long streams", 1);
    }
    cx.count("crowded streams", crowd as u64);
    let order: Vec<usize> = out.iter().map(|m| m.id).collect();
    out.sort_by_key(|m| m.arrives);
    late += out.iter().map(|m| m.id).zip(order).filter(|(a, b)| a != b).count() as u64;
    for (k, v) in [("net:lost", lost), ("net:duplicated", dups), ("net:reordered", late), ("clock:jump", jumps)] {
        if v > 0 {
            *cx.st.faults.entry(k.into()).or_default() += v;
        }
    }
    cx.st.sim_ns += ((now - base).max(0) as u64) * 1000;
    cx.tell(format!("stream: {} of {n} messages arrive ({lost} lost, {dups} duplicated, {late} out of order), clock drift {drift} ppm with {jumps} jumps", out.len()));
    out
}

pub fn describe(m: &Message) -> String {
    let o = |x: &DynamicObject| format!("{}@{:?} q{:?} s{:?} c{}", model::lname(&x.label), x.position, x.orientation, x.size, x.confidence);
    format!("message {}: detections [{}]; ground truth [{}]", m.id, m.dets.iter().map(o).collect::<Vec<_>>().join("; "), m.gt.objects.iter().map(o).collect::<Vec<_>>().join("; "))
}

/// Everything observable of one recorded frame.
pub fn frame_dump(f: &perception_eval::result::frame::PerceptionFrameResult) -> String {
    type R = perception_eval::result::object::PerceptionResult;
    let rk = |r: &R| format!("{}=>{}", model::okey(&r.estimated_object), r.ground_truth_object.as_ref().map(model::okey).unwrap_or_default());
    let l = |v: &[R]| v.iter().map(rk).collect::<Vec<_>>().join(" ; ");
    format!(
        "{}\ngt {}\nresults {}\ntp {}\nfp {}\nfn {}",
        f.frame_ground_truth().timestamp,
        f.frame_ground_truth().objects.iter().map(model::okey).collect::<Vec<_>>().join(" ; "),
        l(f.results()),
        l(f.tp_results()),
        l(f.fp_results()),
        f.fn_objects().iter().map(model::okey).collect::<Vec<_>>().join(" ; ")
    )
}
pub fn history_dump(m: &PerceptionEvaluationManager) -> Vec<String> {
    m.frame_results.iter().map(frame_dump).collect()
}
pub fn gt_dump(v: &[FrameGroundTruth]) -> Vec<String> {
    v.iter().map(|f| format!("{} {}", f.timestamp.timestamp_micros(), f.objects.iter().map(model::okey).collect::<Vec<_>>().join(" ; "))).collect()
}
