//! C25: the work of a step is bounded by its own input.
use super::world::*;
use crate::ensure;
use crate::gen::*;
use crate::runner::{fail, lib_ok, Ctx, Fail, ProcEnd, Prop, Res};
use crate::sys;
use perception_eval::dataset::nuscenes::NuScenes;
use serde_json::{json, Value};
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C25",
        run: c25,
        quick: 1600,
        thorough: 40000,
        rule: "a run is non-trivial when work was measured at two sizes at least fourfold apart; distinct = distinct digest of all seam events",
        real: "dataset loading, lookups, box queries, navigation, matching and scoring, their work counted in basic blocks, memory accesses, allocations and I/O calls of the library",
        stub: "kernel file I/O results, clock, entropy, buffer placement; the stream of messages",
    }]
}

fn spent<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<(T, u64), Fail> {
    let a = sys::work();
    let r = f()?;
    Ok((r, (sys::work() - a) / 8))
}

fn c25(cx: &mut Ctx) -> Res {
    let mut w = world(cx, "ds0", &DsOpts { scenes: 1, samples: 3, insts: 3, ..small_ds() });
    let mut g = ObjGen::new(&mut cx.src, &w.p);
    g.scale = false;
    let base = w.d.samples.first().map(|s| s.ts).unwrap_or(1_600_000_000_000_000);
    let f: Vec<_> = (0..2).map(|k| g.frame(&mut cx.src, base + k * 100_000)).collect();
    let msgs = stream(cx, &mut g, &f, 3);
    let s = &mut cx.src;
    let (k, grow) = if s.chance(1, 40) { (30, 5) } else { (*s.pick(&[3u64, 5, 8]), *s.pick(&[4u64, 6, 8])) };
    let rounds = *s.pick(&[8usize, 15, 24]);
    let long = s.chance(1, 2);
    let style = Style { extras: false, float_ts: false, ..Style::draw(s) };
    let env = Env::draw(s);
    cx.tell(format!("{k} and {} {}, {rounds} and {} rounds of {} messages; {}", k * grow, if long { "times the length of the drive" } else { "drives" }, rounds * grow as usize, msgs.len(), env.text()));
    // the same drive k times and k * grow times over
    let mut ends = vec![];
    for (i, n) in [k, k * grow].into_iter().enumerate() {
        let root = format!("{}/ds{}", cx.dir, i + 1);
        let d = if long { stretch(&w.d, n) } else { replicate(&w.d, n) };
        write_ds(&d, &style, Path::new(&root), "annotation");
        w.scn.ds_path = root.clone();
        std::fs::write(&w.scn_path, w.scn.yaml(0)).unwrap();
        let mut sim = env.sim(1, &format!("ds{}/annotation", i + 1));
        sim.budget *= 20;
        let (w, msgs) = (&w, &msgs);
        let end = cx.process(sim, move |_| measure(w, &root, msgs, if i == 0 { rounds } else { rounds * grow as usize }))?;
        match end {
            ProcEnd::Done(v) => ends.push(v),
            ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
        }
    }
    let (a, b) = (&ends[0], &ends[1]);
    let n = grow as f64;
    // what may grow with the dataset or the history, and how
    for (what, most) in [
        ("loading the dataset", 1.5 * n),
        ("creating the evaluation", 1.5 * n),
        ("one pass over all records", 2.0 * n),
        ("a lookup", 2.0 * n),
        ("boxes of one record", 2.0),
        ("annotations of one sample", 2.0),
        ("recording a message", 2.0),
        ("a score", 2.0 * n),
    ] {
        let (x, y) = (a[what].as_u64().unwrap(), b[what].as_u64().unwrap());
        ensure!(y as f64 <= most * x as f64 + 4000.0, "work", "{what}: {x} units of work, {y} when everything is {grow} times as long (at most {most:.1} times as much is expected)");
    }
    cx.count("measurements", 16);
    cx.mixin(b.to_string().as_bytes());
    cx.st.nontrivial = true;
    Ok(())
}

fn measure(w: &World, root: &str, msgs: &[Message], rounds: usize) -> Result<Value, Fail> {
    sys::count_work();
    let c = w.config()?;
    let (nu, load) = spent(|| lib_ok("loading the dataset", || NuScenes::load(&w.scn.version, root).map_err(|e| e.to_string()))?.map_err(|e| Fail { kind: "dataset-refused".into(), msg: format!("an intact dataset was refused: {e}") }))?;
    let (_, pass) = spent(|| {
        lib_ok("going through the records", || {
            let mut n = 0;
            for s in nu.sample_iter() {
                n += s.sample_annotation_iter().map(|a| a.instance().category().name.len() + a.sample().scene().name.len()).sum::<usize>();
                n += s.sample_data_iter().map(|d| d.calibrated_sensor().sensor().token.to_string().len() + d.ego_pose().token.to_string().len()).sum::<usize>();
                n += s.next().map_or(0, |x| x.sample_data_iter().count());
            }
            n + nu.sample_annotation_iter().count() + nu.instance_iter().count() + nu.scene_iter().count() + nu.ego_pose_iter().count()
        })
    })?;
    let (mut boxes, mut anns) = (0, 0);
    for d in &w.d.datas {
        let t = serde_json::from_value(json!(hx(d.tok))).unwrap();
        let (_, x) = spent(|| lib_ok("asking for boxes", || nu.get_sample_data(&t, &true).is_ok() as usize + nu.get_boxes(&t).is_ok() as usize))?;
        boxes = boxes.max(x);
    }
    for sm in &w.d.samples {
        let Some(x) = nu.sample_iter().find(|x| crate::model::tk(&x.token) == sm.tok) else { return fail("absent", "a sample is not listed") };
        let (_, x) = spent(|| lib_ok("asking for annotations", || x.sample_annotation_iter().count() + x.sample_data_iter().count()))?;
        anns = anns.max(x);
    }
    let (mut m, make) = spent(|| manager(&c))?;
    let (mut record, mut look) = (u64::MAX, 0);
    let (mut soon, mut late) = (0, u64::MAX);
    for r in 0..rounds {
        let (mut all, mut looks) = (0, 0);
        for msg in msgs {
            let (_, x) = spent(|| add(&mut m, &msg.dets, &msg.gt))?;
            all += x;
            let (_, x) = spent(|| lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(msg.sent.max(0))).is_some()))?;
            look = look.max(x);
            looks += x;
        }
        // the buffers of the history grow now and then: the cheapest of the last rounds counts
        if r + 4 >= rounds {
            record = record.min(all);
            late = late.min(looks);
        }
        if r < 4 {
            soon = soon.max(looks);
        }
    }
    ensure!(late <= 2 * soon + 1000, "work", "looking up {} frames took {soon} units of work at first, {late} after {rounds} rounds", msgs.len());
    let (_, score) = spent(|| report(&m))?;
    Ok(json!({"loading the dataset": load, "creating the evaluation": make, "one pass over all records": pass, "a lookup": look, "boxes of one record": boxes, "annotations of one sample": anns, "recording a message": record, "a score": score}))
}
