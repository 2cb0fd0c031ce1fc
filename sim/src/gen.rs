//! Generators: datasets, scenario files, objects. Everything is drawn from the choice source.
use crate::choice::{mix, Src};
use serde_json::Value;
use std::collections::BTreeMap;
use std::path::Path;

pub type Tok = u128;
pub fn hx(t: Tok) -> String {
    format!("{t:032x}")
}

#[derive(Clone, Debug, PartialEq)]
pub struct Named {
    pub tok: Tok,
    pub name: String,
    pub desc: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Calib {
    pub tok: Tok,
    pub sensor: Tok,
    pub rot: [f64; 4],
    pub intr: Option<[[f64; 3]; 3]>,
    pub tr: [f64; 3],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ego {
    pub tok: Tok,
    pub ts: i64,
    pub rot: [f64; 4],
    pub tr: [f64; 3],
}
#[derive(Clone, Debug, PartialEq)]
pub struct Inst {
    pub tok: Tok,
    pub n: u64,
    pub cat: Tok,
    pub first: Tok,
    pub last: Tok,
}
#[derive(Clone, Debug, PartialEq)]
pub struct LogR {
    pub tok: Tok,
    pub date: Option<String>,
    pub location: String,
    pub vehicle: String,
    pub logfile: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MapR {
    pub tok: Tok,
    pub logs: Vec<Tok>,
    pub filename: String,
    pub category: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SampleR {
    pub tok: Tok,
    pub next: Option<Tok>,
    pub prev: Option<Tok>,
    pub scene: Tok,
    pub ts: i64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ann {
    pub tok: Tok,
    pub lidar: u64,
    pub radar: u64,
    pub size: [f64; 3],
    pub rot: [f64; 4],
    pub tr: [f64; 3],
    pub sample: Tok,
    pub inst: Tok,
    pub attrs: Vec<Tok>,
    pub vis: Option<String>,
    pub prev: Option<Tok>,
    pub next: Option<Tok>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Data {
    pub tok: Tok,
    pub fmt: String,
    pub key: bool,
    pub file: String,
    pub ts: i64,
    pub sample: Tok,
    pub ego: Tok,
    pub calib: Tok,
    pub prev: Option<Tok>,
    pub next: Option<Tok>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SceneR {
    pub tok: Tok,
    pub name: String,
    pub desc: String,
    pub log: Tok,
    pub n: u64,
    pub first: Tok,
    pub last: Tok,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sens {
    pub tok: Tok,
    pub modality: String,
    pub channel: String,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Vis {
    pub tok: String,
    pub level: String,
    pub desc: String,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct DS {
    pub attrs: Vec<Named>,
    pub calibs: Vec<Calib>,
    pub cats: Vec<Named>,
    pub egos: Vec<Ego>,
    pub insts: Vec<Inst>,
    pub logs: Vec<LogR>,
    pub maps: Vec<MapR>,
    pub samples: Vec<SampleR>,
    pub anns: Vec<Ann>,
    pub datas: Vec<Data>,
    pub scenes: Vec<SceneR>,
    pub sensors: Vec<Sens>,
    pub vis: Vec<Vis>,
}

pub const TABLES: [&str; 13] = [
    "attribute", "calibrated_sensor", "category", "ego_pose", "instance", "log", "map", "sample", "sample_annotation",
    "sample_data", "scene", "sensor", "visibility",
];
pub const CHANNELS: [(&str, &str); 16] = [
    ("CAM_FRONT", "camera"),
    ("LIDAR_TOP", "lidar"),
    ("LIDAR_CONCAT", "lidar"),
    ("CAM_BACK", "camera"),
    ("CAM_BACK_LEFT", "camera"),
    ("CAM_BACK_RIGHT", "camera"),
    ("CAM_FRONT_LEFT", "camera"),
    ("CAM_FRONT_RIGHT", "camera"),
    ("CAM_FRONT_ZOOMED", "camera"),
    ("RADAR_FRONT", "radar"),
    ("RADAR_FRONT_LEFT", "radar"),
    ("RADAR_FRONT_RIGHT", "radar"),
    ("RADAR_BACK_LEFT", "radar"),
    ("RADAR_BACK_RIGHT", "radar"),
    ("CAM_TRAFFIC_LIGHT_NEAR", "camera"),
    ("CAM_TRAFFIC_LIGHT_FAR", "camera"),
];
pub const VIS_LEVELS: [&str; 8] = ["v80-100", "v0-40", "v40-60", "v60-80", "none", "partial", "most", "full"];
pub const CATEGORY_NAMES: [&str; 22] = [
    "car", "vehicle.car", "pedestrian", "human.pedestrian.adult", "vehicle.truck", "trailer", "bus", "vehicle.bus.rigid",
    "bicycle", "vehicle.bicycle", "motorbike", "vehicle.motorcycle", "animal", "movable_object.trafficcone", "unknown",
    "human.pedestrian.wheelchair", "vehicle.construction", "vehicle.emergency (ambulance & police)",
    "vehicle.bus (bendy & rigid)", "static_object.bicycle_rack", "flying.saucer", "vehicle.police",
];

/// The same drive n times over, one after the other: everything but the shared tables grows n-fold.
pub fn replicate(d: &DS, n: u64) -> DS {
    let mut out = DS { egos: vec![], insts: vec![], samples: vec![], anns: vec![], datas: vec![], scenes: vec![], ..d.clone() };
    for i in 0..n {
        let t = |x: Tok| if i == 0 { x } else { x ^ ((mix(i) as Tok) << 64 | mix(i ^ 0x77) as Tok) };
        let o = |x: &Option<Tok>| x.map(t);
        let dt = i as i64 * 1_000_000_000;
        out.egos.extend(d.egos.iter().map(|e| Ego { tok: t(e.tok), ts: e.ts + dt, ..e.clone() }));
        out.insts.extend(d.insts.iter().map(|x| Inst { tok: t(x.tok), first: t(x.first), last: t(x.last), ..x.clone() }));
        out.samples.extend(d.samples.iter().map(|x| SampleR { tok: t(x.tok), next: o(&x.next), prev: o(&x.prev), scene: t(x.scene), ts: x.ts + dt }));
        out.anns.extend(d.anns.iter().map(|x| Ann { tok: t(x.tok), sample: t(x.sample), inst: t(x.inst), next: o(&x.next), prev: o(&x.prev), ..x.clone() }));
        out.datas.extend(d.datas.iter().map(|x| Data { tok: t(x.tok), sample: t(x.sample), ego: t(x.ego), ts: x.ts + dt, next: o(&x.next), prev: o(&x.prev), ..x.clone() }));
        out.scenes.extend(d.scenes.iter().map(|x| SceneR { tok: t(x.tok), first: t(x.first), last: t(x.last), ..x.clone() }));
    }
    out
}

/// One drive of one scene continued n times: its scene, its instances and their chains grow n-fold.
pub fn stretch(d: &DS, n: u64) -> DS {
    assert!(d.scenes.len() <= 1);
    let mut out = replicate(d, n);
    out.insts.truncate(d.insts.len());
    out.scenes.truncate(d.scenes.len());
    let at = |k: usize, i: usize, len: usize| k * len + i;
    let (ns, na) = (d.samples.len(), d.anns.len());
    for k in 0..n as usize {
        for i in 0..ns {
            let j = at(k, i, ns);
            out.samples[j].scene = d.samples[i].scene;
            if d.samples[i].prev.is_none() && k > 0 {
                let l = d.samples.iter().position(|x| x.next.is_none()).unwrap();
                let p = at(k - 1, l, ns);
                out.samples[j].prev = Some(out.samples[p].tok);
                out.samples[p].next = Some(out.samples[j].tok);
            }
        }
        for i in 0..na {
            let j = at(k, i, na);
            out.anns[j].inst = d.anns[i].inst;
            if d.anns[i].prev.is_none() && k > 0 {
                let l = d.anns.iter().position(|x| x.inst == d.anns[i].inst && x.next.is_none()).unwrap();
                let p = at(k - 1, l, na);
                out.anns[j].prev = Some(out.anns[p].tok);
                out.anns[p].next = Some(out.anns[j].tok);
            }
        }
    }
    for x in &mut out.scenes {
        x.n *= n;
        x.last = out.samples.iter().find(|y| y.next.is_none()).unwrap().tok;
    }
    for x in &mut out.insts {
        x.n *= n;
        x.last = out.anns.iter().find(|y| y.inst == x.tok && y.next.is_none()).unwrap().tok;
    }
    out
}

/// Token factory: distinct, ordering unrelated to creation order.
pub struct Toks {
    salt: u64,
    n: u64,
}
impl Toks {
    pub fn new(salt: u64) -> Toks {
        Toks { salt, n: 0 }
    }
    pub fn next(&mut self) -> Tok {
        self.n += 1;
        let h = mix(self.salt ^ mix(self.n));
        ((h as u128) << 64) | (mix(h) as u128 & !0xffff) | self.n as u128 & 0xffff
    }
}

pub fn text(s: &mut Src) -> String {
    const T: [&str; 12] =
        ["", "x", "Parked truck, turn left", "caf\u{e9}", "a\"quoted\"", "back\\slash", "tab\tnl\n", "\u{1f697} emoji", "{\"a\":[1]}", "]", "日本", "0"];
    match s.weighted(&[8, 3, 1]) {
        0 => format!("t{}", s.draw(100)),
        1 => s.pick(&T).to_string(),
        _ => {
            let n = 200 * (1 + s.below(45));
            "long text, ".repeat(n / 11)
        }
    }
}

pub fn rotation(s: &mut Src) -> [f64; 4] {
    let h = std::f64::consts::FRAC_1_SQRT_2;
    match s.weighted(&[4, 2, 1, 1, 4, 4]) {
        0 => [1.0, 0.0, 0.0, 0.0],
        1 => [0.0, 0.0, 0.0, 1.0],
        2 => [h, 0.0, 0.0, h],
        3 => [h, 0.0, 0.0, -h],
        4 => {
            let a = s.signed(314) as f64 / 200.0;
            [a.cos(), 0.0, 0.0, a.sin()]
        }
        _ => {
            let v = [1 + s.signed(20), s.signed(20), s.signed(20), s.signed(20)];
            let mut q = [v[0] as f64, v[1] as f64, v[2] as f64, v[3] as f64];
            let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
            if n == 0.0 {
                return [1.0, 0.0, 0.0, 0.0];
            }
            q.iter_mut().for_each(|x| *x /= n);
            q
        }
    }
}
pub fn vec3(s: &mut Src, m: i64) -> [f64; 3] {
    [s.dyadic(m, 8), s.dyadic(m, 8), s.dyadic(4, 8)]
}

#[derive(Clone)]
pub struct DsOpts {
    pub scenes: u64,
    pub samples: u64,
    pub insts: u64,
    pub allow_empty: bool,
    pub dangling_map_logs: bool,
    pub ties: bool,
    pub texts: bool,
    /// several lidar records at a sample's time, instances seen twice in a sample or with gaps
    pub odd: bool,
    /// now and then a long drive with many objects
    pub big: bool,
    /// numbers that need all of their digits, and far from the map's origin; boxes without extent
    pub fine: bool,
}
impl Default for DsOpts {
    fn default() -> Self {
        DsOpts { scenes: 3, samples: 5, insts: 5, allow_empty: true, dangling_map_logs: true, ties: true, texts: true, odd: true, big: false, fine: true }
    }
}

pub fn dataset(s: &mut Src, o: &DsOpts) -> DS {
    let mut d = DS::default();
    let mut t = Toks::new(s.draw(1 << 40));
    let txt = |s: &mut Src| if o.texts { text(s) } else { format!("t{}", s.draw(100)) };
    for _ in 0..s.range(0, 3) {
        d.attrs.push(Named { tok: t.next(), name: txt(s), desc: txt(s) });
    }
    let nv = s.range(1, 4);
    for i in 0..nv {
        let tok = match s.weighted(&[6, 6, 1, 1, 1]) {
            0 => i.to_string(),
            1 => format!("v{i}"),
            2 => format!(" {i}"),
            3 => format!("{i} \u{e9}\t"),
            _ => format!("V{i}-{i:032X}"),
        };
        d.vis.push(Vis { tok, level: s.pick(&VIS_LEVELS).to_string(), desc: txt(s) });
    }
    for _ in 0..s.range(1, 4) {
        let mut name = s.pick(&CATEGORY_NAMES).to_string();
        if s.chance(1, 4) {
            name = name.to_uppercase();
        }
        d.cats.push(Named { tok: t.next(), name, desc: txt(s) });
    }
    for _ in 0..s.range(1, 2) {
        let date = if s.chance(1, 4) { None } else { Some(format!("{}-{:02}-{:02}", 2018 + s.draw(8), 1 + s.draw(12), 1 + s.draw(28))) };
        d.logs.push(LogR { tok: t.next(), date, location: txt(s), vehicle: txt(s), logfile: if s.chance(1, 3) { String::new() } else { format!("logs/l{}.log", d.logs.len()) } });
    }
    for i in 0..s.range(0, 2) {
        let mut logs: Vec<Tok> = vec![];
        for l in &d.logs {
            if s.chance(1, 2) {
                logs.push(l.tok);
            }
        }
        if o.dangling_map_logs && s.chance(1, 3) {
            let at = s.below(logs.len() + 1);
            logs.insert(at, t.next());
        }
        d.maps.push(MapR { tok: t.next(), logs, filename: format!("maps/m{i}.png"), category: txt(s) });
    }
    // sensors: a lidar first, then some others
    let mut chosen: Vec<usize> = vec![1 + s.below(2)];
    for c in 0..CHANNELS.len() {
        if c != chosen[0] && s.chance(1, 8) {
            chosen.push(c);
        }
    }
    for c in &chosen {
        d.sensors.push(Sens { tok: t.next(), modality: CHANNELS[*c].1.into(), channel: CHANNELS[*c].0.into() });
    }
    let sens = d.sensors.clone();
    for sn in &sens {
        for _ in 0..s.range(1, 2) {
            let intr = if sn.modality == "camera" && s.chance(2, 3) {
                if s.chance(1, 3) {
                    // any matrix at all
                    let mut m = [[0.0; 3]; 3];
                    for r in m.iter_mut() {
                        for x in r.iter_mut() {
                            *x = s.dyadic(4, 8);
                        }
                    }
                    Some(m)
                } else {
                    Some([[s.dyadic(2000, 4), 0.0, s.dyadic(900, 4)], [0.0, s.dyadic(2000, 4), s.dyadic(900, 4)], [0.0, 0.0, 1.0]])
                }
            } else {
                None
            };
            d.calibs.push(Calib { tok: t.next(), sensor: sn.tok, rot: rotation(s), intr, tr: vec3(s, 4) });
        }
    }
    let nscenes = if o.allow_empty && s.chance(1, 40) { 0 } else { s.range(1, o.scenes as i64) };
    // recorded on the road, or by a simulator whose clock starts near zero
    let base = match s.weighted(&[30, 6, 2, 1]) {
        0 => 1_532_402_927_000_000 + s.signed(400_000_000) * 1_000_000 + s.draw(1_000_000) as i64,
        1 => 180_000_000 + s.draw(4_000_000_000) as i64,
        // a clock set back behind its origin
        2 => -(s.draw(100_000_000) as i64),
        // a clock far ahead, beyond what a double counts in microseconds
        _ => (1 << 53) + 500_000_000 + s.draw(1 << 55) as i64,
    };
    let big = o.big && s.chance(1, 150);
    let mut fileno = 0;
    for sc in 0..nscenes {
        let scene = t.next();
        let n = if big { s.range(20, 90) } else { s.range(1, o.samples as i64) };
        let off = match s.weighted(&[3, 1, if o.ties { 1 } else { 0 }]) {
            0 => sc * 60_000_000 + s.draw(5_000_000) as i64,
            1 => -(sc * 60_000_000),
            _ => 0,
        };
        let mut toks: Vec<Tok> = (0..n).map(|_| t.next()).collect();
        if s.chance(1, 3) {
            s.shuffle(&mut toks);
        }
        let mut ts = base + off;
        let mut tss = vec![];
        for i in 0..n as usize {
            d.samples.push(SampleR { tok: toks[i], next: toks.get(i + 1).copied(), prev: if i > 0 { Some(toks[i - 1]) } else { None }, scene, ts });
            tss.push(ts);
            ts += match s.weighted(&[4, 2, 1, if o.ties { 1 } else { 0 }]) {
                0 => 500_000,
                1 => 100_000 - 50 + s.draw(100) as i64,
                2 => 1 + s.draw(2_000) as i64,
                _ => 0,
            };
        }
        d.scenes.push(SceneR {
            tok: scene,
            name: txt(s),
            desc: txt(s),
            log: s.pick(&d.logs).tok,
            n: n as u64,
            first: toks[0],
            last: toks[n as usize - 1],
        });
        // sensor records
        let mut last_of: BTreeMap<Tok, usize> = BTreeMap::new();
        for i in 0..n as usize {
            let mut plan: Vec<(Tok, i64, bool)> = vec![];
            let lidar_calibs: Vec<Tok> = d.calibs.iter().filter(|c| modality(&d, c.tok) == "lidar").map(|c| c.tok).collect();
            let others: Vec<Tok> = d.calibs.iter().map(|c| c.tok).collect();
            if !s.chance(1, 8) {
                plan.push((*s.pick(&lidar_calibs), tss[i], !s.chance(1, 6)));
            }
            for _ in 0..s.weighted(&[3, 2, 1]) {
                let c = *s.pick(&others);
                let mut ts = tss[i] + s.signed(60_000);
                if modality(&d, c) == "lidar" {
                    if o.odd && s.chance(1, 6) {
                        // another lidar fired at the very same time
                        ts = tss[i];
                    } else if ts == tss[i] {
                        ts += 1;
                    }
                } else if s.chance(1, 4) {
                    ts = tss[i];
                }
                plan.push((c, ts, s.chance(1, 2)));
            }
            for (c, ts, key) in plan {
                let ego = if !d.egos.is_empty() && s.chance(1, 5) {
                    s.pick(&d.egos).tok
                } else {
                    let e = Ego { tok: t.next(), ts: ts + s.signed(20), rot: rotation(s), tr: vec3(s, 1500) };
                    d.egos.push(e);
                    d.egos.last().unwrap().tok
                };
                let m = modality(&d, c);
                let fmt = match m.as_str() {
                    "camera" => *s.pick(&["jpg", "jpeg", "png"]),
                    _ => *s.pick(&["pcd", "bin"]),
                };
                fileno += 1;
                let tok = t.next();
                let prev = last_of.get(&c).map(|&i| d.datas[i].tok);
                if let Some(&i) = last_of.get(&c) {
                    d.datas[i].next = Some(tok);
                }
                last_of.insert(c, d.datas.len());
                d.datas.push(Data { tok, fmt: fmt.into(), key, file: format!("data/{}/{fileno}.{fmt}", m), ts, sample: toks[i], ego, calib: c, prev, next: None });
            }
        }
        // instances with annotation chains
        for _ in 0..if big { s.range(5, 25) } else { s.range(0, o.insts as i64) } {
            let inst = t.next();
            // the samples its annotations belong to: consecutive ones, or with gaps and repetitions
            let at_samples: Vec<usize> = if o.odd && s.chance(1, 6) {
                (0..1 + s.below(n as usize + 2)).map(|_| s.below(n as usize)).collect()
            } else {
                let start = s.below(n as usize);
                (start..start + 1 + s.below(n as usize - start)).collect()
            };
            let len = at_samples.len();
            let at: Vec<Tok> = (0..len).map(|_| t.next()).collect();
            let cat = s.pick(&d.cats).tok;
            let mut size = [1.0 + s.draw(24) as f64 / 8.0, 1.0 + s.draw(48) as f64 / 8.0, 0.5 + s.draw(24) as f64 / 8.0];
            let q0 = rotation(s);
            let mut tr0 = vec3(s, 1500);
            if o.fine {
                let far = if s.chance(1, 6) { 89_000.0 } else { 0.0 };
                let plain = s.chance(1, 2);
                let mut digits = |v: &mut f64, far: f64| *v += far + s.draw(1 << 40) as f64 / (1u64 << 44) as f64;
                if !plain {
                    tr0.iter_mut().for_each(|v| digits(v, far));
                    size.iter_mut().for_each(|v| digits(v, 0.0));
                }
                if s.chance(1, 12) {
                    size[s.below(3)] = 0.0;
                }
            }
            for k in 0..len {
                let mut attrs = vec![];
                for a in &d.attrs {
                    if s.chance(1, 3) {
                        attrs.push(a.tok);
                    }
                }
                if attrs.len() > 1 && s.chance(1, 3) {
                    attrs.reverse();
                }
                let vis = if s.chance(1, 3) { None } else { Some(s.pick(&d.vis).tok.clone()) };
                d.anns.push(Ann {
                    tok: at[k],
                    lidar: match s.weighted(&[4, 15, 1]) {
                        0 => 0,
                        1 => s.draw(200),
                        _ => 1 << s.draw(33),
                    },
                    radar: s.draw(10),
                    size,
                    rot: if s.chance(1, 3) { rotation(s) } else { q0 },
                    tr: [tr0[0] + k as f64 * 0.5, tr0[1] + s.dyadic(2, 8), tr0[2]],
                    sample: toks[at_samples[k]],
                    inst,
                    attrs,
                    vis,
                    prev: if k > 0 { Some(at[k - 1]) } else { None },
                    next: at.get(k + 1).copied(),
                });
            }
            d.insts.push(Inst { tok: inst, n: len as u64, cat, first: at[0], last: at[len - 1] });
        }
    }
    d
}

pub fn modality(d: &DS, calib: Tok) -> String {
    let s = d.calibs.iter().find(|c| c.tok == calib).unwrap().sensor;
    d.sensors.iter().find(|x| x.tok == s).unwrap().modality.clone()
}

// ------------------------------------------------------------------ JSON text
#[derive(Clone, Debug)]
pub struct Style {
    pub salt: u64,
    pub shuffle_records: bool,
    pub shuffle_fields: bool,
    pub layout: usize, // 0 pretty, 1 compact, 2 CRLF + tabs, 3 lots of blanks
    pub extras: bool,
    pub float_ts: bool,
}
impl Style {
    pub fn plain() -> Style {
        Style { salt: 0, shuffle_records: false, shuffle_fields: false, layout: 0, extras: false, float_ts: false }
    }
    pub fn draw(s: &mut Src) -> Style {
        Style {
            salt: s.draw(1 << 32),
            shuffle_records: s.chance(2, 3),
            shuffle_fields: s.chance(1, 2),
            layout: s.below(4),
            extras: s.chance(1, 3),
            float_ts: s.chance(1, 8),
        }
    }
}
fn js(x: &str) -> String {
    serde_json::to_string(x).unwrap()
}
fn jf(x: f64) -> String {
    if x.fract() == 0.0 && x.abs() < 1e15 && (x.to_bits() & 1) == 0 && x != 0.0 {
        format!("{x:.1}")
    } else {
        serde_json::to_string(&x).unwrap()
    }
}
fn ja<const N: usize>(x: &[f64; N]) -> String {
    format!("[{}]", x.iter().map(|v| jf(*v)).collect::<Vec<_>>().join(", "))
}
fn jt(t: &Tok) -> String {
    js(&hx(*t))
}
fn jo(t: &Option<Tok>) -> String {
    t.map(|t| jt(&t)).unwrap_or_else(|| "\"\"".into())
}

pub type Rec = Vec<(&'static str, String)>;

pub fn records(d: &DS, float_ts: bool) -> Vec<(&'static str, Vec<Rec>)> {
    let ts = |t: i64| if float_ts && t.abs() < 1 << 53 { format!("{t}.0") } else { t.to_string() };
    let toks = |v: &Vec<Tok>| format!("[{}]", v.iter().map(jt).collect::<Vec<_>>().join(","));
    let named = |v: &Vec<Named>| -> Vec<Rec> { v.iter().map(|a| vec![("token", jt(&a.tok)), ("name", js(&a.name)), ("description", js(&a.desc))]).collect() };
    vec![
        ("attribute", named(&d.attrs)),
        (
            "calibrated_sensor",
            d.calibs
                .iter()
                .map(|c| {
                    let intr = match &c.intr {
                        None => "[]".to_string(),
                        Some(m) => format!("[{}]", m.iter().map(ja).collect::<Vec<_>>().join(",")),
                    };
                    vec![("token", jt(&c.tok)), ("sensor_token", jt(&c.sensor)), ("rotation", ja(&c.rot)), ("camera_intrinsic", intr), ("translation", ja(&c.tr))]
                })
                .collect(),
        ),
        ("category", named(&d.cats)),
        ("ego_pose", d.egos.iter().map(|e| vec![("token", jt(&e.tok)), ("timestamp", ts(e.ts)), ("rotation", ja(&e.rot)), ("translation", ja(&e.tr))]).collect()),
        (
            "instance",
            d.insts
                .iter()
                .map(|i| {
                    vec![("token", jt(&i.tok)), ("nbr_annotations", i.n.to_string()), ("category_token", jt(&i.cat)), ("first_annotation_token", jt(&i.first)), ("last_annotation_token", jt(&i.last))]
                })
                .collect(),
        ),
        (
            "log",
            d.logs
                .iter()
                .map(|l| {
                    vec![
                        ("token", jt(&l.tok)),
                        ("date_captured", l.date.as_ref().map(|x| js(x)).unwrap_or_else(|| "null".into())),
                        ("location", js(&l.location)),
                        ("vehicle", js(&l.vehicle)),
                        ("logfile", js(&l.logfile)),
                    ]
                })
                .collect(),
        ),
        ("map", d.maps.iter().map(|m| vec![("token", jt(&m.tok)), ("log_tokens", toks(&m.logs)), ("filename", js(&m.filename)), ("category", js(&m.category))]).collect()),
        ("sample", d.samples.iter().map(|x| vec![("token", jt(&x.tok)), ("next", jo(&x.next)), ("prev", jo(&x.prev)), ("scene_token", jt(&x.scene)), ("timestamp", ts(x.ts))]).collect()),
        (
            "sample_annotation",
            d.anns
                .iter()
                .map(|a| {
                    vec![
                        ("token", jt(&a.tok)),
                        ("num_lidar_pts", a.lidar.to_string()),
                        ("num_radar_pts", a.radar.to_string()),
                        ("size", ja(&a.size)),
                        ("rotation", ja(&a.rot)),
                        ("translation", ja(&a.tr)),
                        ("sample_token", jt(&a.sample)),
                        ("instance_token", jt(&a.inst)),
                        ("attribute_tokens", toks(&a.attrs)),
                        ("visibility_token", js(a.vis.as_deref().unwrap_or(""))),
                        ("prev", jo(&a.prev)),
                        ("next", jo(&a.next)),
                    ]
                })
                .collect(),
        ),
        (
            "sample_data",
            d.datas
                .iter()
                .map(|x| {
                    vec![
                        ("token", jt(&x.tok)),
                        ("fileformat", js(&x.fmt)),
                        ("is_key_frame", x.key.to_string()),
                        ("filename", js(&x.file)),
                        ("timestamp", ts(x.ts)),
                        ("sample_token", jt(&x.sample)),
                        ("ego_pose_token", jt(&x.ego)),
                        ("calibrated_sensor_token", jt(&x.calib)),
                        ("prev", jo(&x.prev)),
                        ("next", jo(&x.next)),
                    ]
                })
                .collect(),
        ),
        (
            "scene",
            d.scenes
                .iter()
                .map(|x| {
                    vec![
                        ("token", jt(&x.tok)),
                        ("name", js(&x.name)),
                        ("description", js(&x.desc)),
                        ("log_token", jt(&x.log)),
                        ("nbr_samples", x.n.to_string()),
                        ("first_sample_token", jt(&x.first)),
                        ("last_sample_token", jt(&x.last)),
                    ]
                })
                .collect(),
        ),
        ("sensor", d.sensors.iter().map(|x| vec![("token", jt(&x.tok)), ("modality", js(&x.modality)), ("channel", js(&x.channel))]).collect()),
        ("visibility", d.vis.iter().map(|x| vec![("token", js(&x.tok)), ("level", js(&x.level)), ("description", js(&x.desc))]).collect()),
    ]
}

/// (table name, file text) for all thirteen tables
pub fn render(d: &DS, st: &Style) -> Vec<(String, String)> {
    let mut salt = st.salt;
    let mut rnd = |n: usize| {
        salt = salt.wrapping_add(1);
        (mix(salt) % n.max(1) as u64) as usize
    };
    let mut shuffle_ix = |n: usize, on: bool| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        if on {
            for i in (1..n).rev() {
                v.swap(i, rnd(i + 1));
            }
        }
        v
    };
    records(d, st.float_ts)
        .into_iter()
        .map(|(name, recs)| {
            let (sep, ind, col, end) = match st.layout {
                0 => ("\n", "  ", ": ", "\n"),
                1 => ("", "", ":", ""),
                2 => ("\r\n", "\t", " :\t", "\r\n"),
                _ => ("\n\n   ", "        ", "  :  ", "   \n\n"),
            };
            let order = shuffle_ix(recs.len(), st.shuffle_records);
            let mut out = vec![];
            for i in order {
                let mut fields: Rec = recs[i].clone();
                if st.extras {
                    fields.push(("zz_extra", "{\"a\": [1, 2.5, null, \"x\\u00e9\"], \"token\": \"no\"}".into()));
                    fields.push(("height", "0".into()));
                }
                let fo = shuffle_ix(fields.len(), st.shuffle_fields);
                let body: Vec<String> = fo.iter().map(|&k| format!("{ind}{ind}\"{}\"{col}{}", fields[k].0, fields[k].1)).collect();
                out.push(format!("{ind}{{{sep}{}{sep}{ind}}}", body.join(&format!(",{sep}"))));
            }
            (name.to_string(), format!("[{sep}{}{sep}]{end}", out.join(&format!(",{sep}"))))
        })
        .collect()
}

pub fn write_tables(dir: &Path, version: &str, tables: &[(String, String)]) {
    let m = dir.join(version);
    std::fs::create_dir_all(&m).unwrap();
    for (n, t) in tables {
        std::fs::write(m.join(format!("{n}.json")), t).unwrap();
    }
}
pub fn write_ds(d: &DS, st: &Style, dir: &Path, version: &str) -> Vec<(String, String)> {
    let t = render(d, st);
    write_tables(dir, version, &t);
    t
}

// ------------------------------------------------------------------ independent parse of stored bytes
/// Reads stored table text with a generic JSON parser; None when it is not a well-formed table.
pub fn parse_tables(tables: &BTreeMap<String, Vec<u8>>) -> Option<DS> {
    let get = |n: &str| -> Option<Vec<Value>> {
        let v: Value = serde_json::from_slice(tables.get(n)?).ok()?;
        Some(v.as_array()?.clone())
    };
    fn tok(v: &Value) -> Option<Tok> {
        let s = v.as_str()?;
        if s.len() != 32 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
            return None;
        }
        Tok::from_str_radix(s, 16).ok()
    }
    fn opt(v: &Value) -> Option<Option<Tok>> {
        if v.as_str()?.is_empty() {
            Some(None)
        } else {
            tok(v).map(Some)
        }
    }
    fn st(v: &Value) -> Option<String> {
        v.as_str().map(String::from)
    }
    fn arr<const N: usize>(v: &Value) -> Option<[f64; N]> {
        let a = v.as_array()?;
        let x: Vec<f64> = a.iter().map(|v| v.as_f64()).collect::<Option<_>>()?;
        x.try_into().ok()
    }
    fn toks(v: &Value) -> Option<Vec<Tok>> {
        v.as_array()?.iter().map(tok).collect()
    }
    fn ts(v: &Value) -> Option<i64> {
        v.as_i64().or_else(|| v.as_f64().map(|f| f.round() as i64))
    }
    let mut d = DS::default();
    let named = |n: &str| -> Option<Vec<Named>> {
        get(n)?.iter().map(|r| Some(Named { tok: tok(&r["token"])?, name: st(&r["name"])?, desc: st(&r["description"])? })).collect()
    };
    d.attrs = named("attribute")?;
    d.cats = named("category")?;
    for r in get("calibrated_sensor")? {
        let i = r["camera_intrinsic"].as_array()?;
        let intr = match i.len() {
            0 => None,
            3 => Some([arr(&i[0])?, arr(&i[1])?, arr(&i[2])?]),
            _ => return None,
        };
        d.calibs.push(Calib { tok: tok(&r["token"])?, sensor: tok(&r["sensor_token"])?, rot: arr(&r["rotation"])?, intr, tr: arr(&r["translation"])? });
    }
    for r in get("ego_pose")? {
        d.egos.push(Ego { tok: tok(&r["token"])?, ts: ts(&r["timestamp"])?, rot: arr(&r["rotation"])?, tr: arr(&r["translation"])? });
    }
    for r in get("instance")? {
        d.insts.push(Inst {
            tok: tok(&r["token"])?,
            n: r["nbr_annotations"].as_u64()?,
            cat: tok(&r["category_token"])?,
            first: tok(&r["first_annotation_token"])?,
            last: tok(&r["last_annotation_token"])?,
        });
    }
    for r in get("log")? {
        d.logs.push(LogR { tok: tok(&r["token"])?, date: st(&r["date_captured"]), location: st(&r["location"])?, vehicle: st(&r["vehicle"])?, logfile: st(&r["logfile"])? });
    }
    for r in get("map")? {
        d.maps.push(MapR { tok: tok(&r["token"])?, logs: toks(&r["log_tokens"])?, filename: st(&r["filename"])?, category: st(&r["category"])? });
    }
    for r in get("sample")? {
        d.samples.push(SampleR { tok: tok(&r["token"])?, next: opt(&r["next"])?, prev: opt(&r["prev"])?, scene: tok(&r["scene_token"])?, ts: ts(&r["timestamp"])? });
    }
    for r in get("sample_annotation")? {
        let v = st(&r["visibility_token"])?;
        d.anns.push(Ann {
            tok: tok(&r["token"])?,
            lidar: r["num_lidar_pts"].as_u64()?,
            radar: r["num_radar_pts"].as_u64()?,
            size: arr(&r["size"])?,
            rot: arr(&r["rotation"])?,
            tr: arr(&r["translation"])?,
            sample: tok(&r["sample_token"])?,
            inst: tok(&r["instance_token"])?,
            attrs: toks(&r["attribute_tokens"])?,
            vis: if v.is_empty() { None } else { Some(v) },
            prev: opt(&r["prev"])?,
            next: opt(&r["next"])?,
        });
    }
    for r in get("sample_data")? {
        d.datas.push(Data {
            tok: tok(&r["token"])?,
            fmt: st(&r["fileformat"])?,
            key: r["is_key_frame"].as_bool()?,
            file: st(&r["filename"])?,
            ts: ts(&r["timestamp"])?,
            sample: tok(&r["sample_token"])?,
            ego: tok(&r["ego_pose_token"])?,
            calib: tok(&r["calibrated_sensor_token"])?,
            prev: opt(&r["prev"])?,
            next: opt(&r["next"])?,
        });
    }
    for r in get("scene")? {
        d.scenes.push(SceneR {
            tok: tok(&r["token"])?,
            name: st(&r["name"])?,
            desc: st(&r["description"])?,
            log: tok(&r["log_token"])?,
            n: r["nbr_samples"].as_u64()?,
            first: tok(&r["first_sample_token"])?,
            last: tok(&r["last_sample_token"])?,
        });
    }
    for r in get("sensor")? {
        d.sensors.push(Sens { tok: tok(&r["token"])?, modality: st(&r["modality"])?, channel: st(&r["channel"])? });
    }
    for r in get("visibility")? {
        d.vis.push(Vis { tok: st(&r["token"])?, level: st(&r["level"])?, desc: st(&r["description"])? });
    }
    Some(d)
}

// ------------------------------------------------------------------ scenario files
#[derive(Clone, Debug)]
pub struct Scn {
    pub task: String,
    pub frame_id: String,
    pub ds_path: String,
    pub version: String,
    pub labels: Vec<String>,
    pub max_x: f64,
    pub max_y: f64,
    pub min_pts: Option<u64>,
    pub uuids: Option<Vec<String>>,
    pub cd: f64,
    pub pd: f64,
    pub iou2: f64,
    pub iou3: f64,
}
impl Scn {
    pub fn simple(ds_path: &str, version: &str) -> Scn {
        Scn {
            task: "detection".into(),
            frame_id: "base_link".into(),
            ds_path: ds_path.into(),
            version: version.into(),
            labels: vec!["car".into(), "bicycle".into(), "pedestrian".into(), "motorbike".into()],
            max_x: 100.0,
            max_y: 100.0,
            min_pts: Some(0),
            uuids: None,
            cd: 1.0,
            pd: 2.0,
            iou2: 0.5,
            iou3: 0.5,
        }
    }
    /// YAML in one of several equivalent spellings.
    pub fn yaml(&self, form: u64) -> String {
        let num = |x: f64| if form & 1 == 1 && x.fract() == 0.0 { format!("{}", x as i64) } else { format!("{x:?}") };
        let q = |s: &str| if form & 2 == 2 { format!("'{}'", s.replace('\'', "''")) } else { js(s) };
        let list = |v: &[String], ind: &str| -> String {
            if form & 4 == 4 || v.is_empty() {
                format!(" [{}]", v.iter().map(|x| q(x)).collect::<Vec<_>>().join(", "))
            } else {
                v.iter().map(|x| format!("\n{ind}- {}", q(x))).collect::<String>()
            }
        };
        let minp = match self.min_pts {
            Some(n) => format!("      min_point_number: {n}\n"),
            None if form & 8 == 8 => String::new(),
            None => "      min_point_number: null\n".into(),
        };
        let uu = match &self.uuids {
            Some(v) => format!("      target_uuids:{}\n", list(v, "        ")),
            None if form & 8 == 8 => String::new(),
            None => "      target_uuids: ~\n".into(),
        };
        let comment = if form & 16 == 16 { "# a comment: [not, yaml\n" } else { "" };
        format!(
            "{comment}ScenarioFormatVersion: 3.0.0\nScenarioName: {}\nScenarioDescription: {}\nSensorModel: sample_sensor_kit\nVehicleModel: sample_vehicle\nEvaluation:\n  UseCaseName: perception\n  UseCaseFormatVersion: 0.4.0\n  Datasets:\n    - {}:\n        Version: {}\n        VehicleId: default # x\n        LaunchSensing: false\n        LocalMapPath: $HOME/map\n  Conditions:\n    PassRate: 99.0\n  PerceptionEvaluationConfig:\n    evaluation_config_dict:\n      evaluation_task: {}\n      frame_id: {}\n      target_labels:{}\n      max_x_position: {}\n      max_y_position: {}\n{minp}{uu}      center_distance_threshold: {}\n      plane_distance_threshold: {}\n      iou_2d_threshold: {}\n      iou_3d_threshold: {}\n",
            q("sample: evaluation"),
            q("caf\u{e9} #1"),
            q(&self.ds_path),
            q(&self.version),
            self.task,
            self.frame_id,
            list(&self.labels, "        "),
            num(self.max_x),
            num(self.max_y),
            num(self.cd),
            num(self.pd),
            num(self.iou2),
            num(self.iou3),
        )
    }
}
