//! C06, C09, C10, C11, C12, C15: evaluation sessions fed by a simulated lossy, duplicating,
//! delaying and reordering network with drifting and jumping clocks.
use super::world::*;
use crate::ensure;
use crate::model::{self, lname, okey, Params};
use crate::runner::{fail, lib, lib_ok, Ctx, ProcEnd, Prop, Res};
use crate::sys::{Act, Fault, Op};
use perception_eval::config::PerceptionEvaluationConfig;
use perception_eval::dataset::{get_current_frame, FrameGroundTruth};
use perception_eval::evaluation_task::EvaluationTask;
use perception_eval::label::Label;
use perception_eval::manager::PerceptionEvaluationManager;
use perception_eval::object::object3d::DynamicObject;
use serde_json::json;

const REAL: &str = "scenario and dataset loading, lookup, filtering, matching, history, scoring and report printing of perception-eval, log4rs, serde";
const STUB: &str = "kernel file I/O results, entropy, clocks and allocator placement (simulated at the libc seam); publisher, network and their clocks (simulated)";

type M<'a> = PerceptionEvaluationManager<'a>;

// ------------------------------------------------------------------ C06
fn ms(us: i64) -> i64 {
    us.div_euclid(1000)
}
fn nearest(times: &[i64], t: i64) -> Option<usize> {
    let mut best: Option<(i64, usize)> = None;
    for (i, f) in times.iter().enumerate() {
        let d = (ms(*f) - ms(t)).abs();
        if best.map(|b| d < b.0).unwrap_or(true) {
            best = Some((d, i));
        }
    }
    best.filter(|b| b.0 < 75).map(|b| b.1)
}
fn judge(got: Option<FrameGroundTruth>, frames: &[FrameGroundTruth], times: &[i64], t: i64, what: &str) -> Res {
    let want = nearest(times, t);
    let near = |i: Option<usize>| i.map(|i| format!("frame {i} at {} us", times[i])).unwrap_or("nothing".into());
    match (got, want) {
        (None, None) => Ok(()),
        (Some(g), Some(i)) => {
            let same = g.timestamp == frames[i].timestamp && g.objects.iter().map(okey).eq(frames[i].objects.iter().map(okey));
            let j = (0..frames.len()).find(|&j| g.timestamp == frames[j].timestamp && g.objects.iter().map(okey).eq(frames[j].objects.iter().map(okey)));
            ensure!(same, "lookup", "{what} of {t} us returned {}, expected {}", near(j), near(Some(i)));
            Ok(())
        }
        (Some(g), None) => fail("lookup", format!("{what} of {t} us returned a frame at {} us although none is within 75 ms", g.timestamp.timestamp_micros())),
        (None, Some(i)) => fail("lookup", format!("{what} of {t} us returned nothing, expected {}", near(Some(i)))),
    }
}
fn c06(cx: &mut Ctx) -> Res {
    let w = world(cx, "ds", &small_ds());
    let env = Env::draw(&mut cx.src);
    cx.tell(env.text());
    let n = if cx.thorough { 60 } else { 24 };
    // frame lists of our own: equal times, sub-millisecond gaps, gaps around twice the limit
    let mut lists: Vec<Vec<FrameGroundTruth>> = vec![];
    for _ in 0..2 {
        let s = &mut cx.src;
        let mut t = 1_000_000 + s.draw(2_000_000_000_000_000) as i64;
        if s.chance(1, 10) {
            // a clock that was never set, or set back behind its origin
            let back = *s.pick(&[1_000_000, 1_000_000_000_000_000]);
            t = 200_000 - s.draw(back) as i64;
        }
        let mut g = ObjGen::new(s, &w.p);
        let k = if s.chance(1, 150) { 20 + s.below(300) } else { s.weighted(&[1, 2, 2, 3, 3, 3, 3]) };
        let mut v = vec![];
        for i in 0..k {
            let mut o = g.gt(s, t, &[]);
            o.uuid = Some(format!("frame{i}"));
            v.push(FrameGroundTruth { timestamp: when(t), objects: vec![o] });
            t += *s.pick(&[100_000, 0, 1, 500, 999, 1000, 1001, 74_000, 75_000, 149_000, 150_000, 151_000, 20_000, 50_000]);
        }
        if s.chance(1, 3) {
            // listed in another order
            s.shuffle(&mut v);
        }
        lists.push(v);
    }
    let sim = env.sim(1, "ds/annotation");
    cx.arm(sim);
    let c = w.config()?;
    let mut m = manager(&c)?;
    let loaded = m.frame_ground_truths.clone();
    let loaded_dump = gt_dump(&loaded);
    lists.push(loaded);
    let mut jumps = 0;
    let mut clock: i64 = 0;
    let base = |v: &[FrameGroundTruth]| v.first().map(|f| f.timestamp.timestamp_micros()).unwrap_or(1_000_000);
    for k in 0..n {
        let li = cx.src.below(3);
        let frames = &lists[li];
        let times: Vec<i64> = frames.iter().map(|f| f.timestamp.timestamp_micros()).collect();
        let s = &mut cx.src;
        let t = match s.weighted(&[5, 3, 1]) {
            0 if !times.is_empty() => {
                let f = *s.pick(&times);
                let d = *s.pick(&[
                    0, 1, 499, 500, 999, 1000, 1001, 37_000, 50_000, 73_999, 74_000, 74_001, 74_499, 74_500, 74_999, 75_000, 75_001, 75_499, 75_500, 75_999, 76_000, 76_001, 100_000,
                    150_000,
                ]);
                let d = d + s.weighted(&[5, 1]) as i64 * s.draw(1000) as i64;
                // now and then away by a power of two, where a narrow difference would wrap
                let d = if s.chance(1, 16) { *s.pick(&[(1i64 << 32) * 1000, 1 << 32, 1 << 31, (1 << 31) * 1000, (1 << 16) * 1000, (1 << 32) * 1_000_000]) + s.signed(80_000) } else { d };
                if s.chance(1, 2) {
                    f + d
                } else {
                    f - d
                }
            }
            2 => {
                jumps += 1;
                *s.pick(&[1i64, 1_000_000, 4_000_000_000_000_000, 2_000_000_000_000_000, 0, -1, -1_000_000, -2_000_000_000_000_000])
            }
            _ => {
                // a publisher whose clock drifts, jumps and is read late or out of order
                clock += 10_000 + s.draw(140_000) as i64;
                if s.chance(1, 8) {
                    clock += s.signed(400_000);
                    jumps += 1;
                }
                base(frames) + clock % 600_000 + s.signed(30_000)
            }
        };
        let ts = when(t);
        let before = history_dump(&m);
        let got = if li == 2 { lib_ok("looking up a frame", || m.get_frame_ground_truth(&ts))? } else { lib_ok("looking up a frame", || get_current_frame(frames, &ts))? };
        if let Some(g) = &got {
            cx.mixin(&g.timestamp.timestamp_micros().to_le_bytes());
        }
        cx.mixin(&t.to_le_bytes());
        let found = got.clone();
        judge(got, frames, &times, t, if li == 2 { "get_frame_ground_truth" } else { "get_current_frame" })?;
        cx.count("lookups", 1);
        cx.count(if found.is_some() { "lookups answered with a frame" } else { "lookups answered with nothing" }, 1);
        ensure!(gt_dump(&m.frame_ground_truths) == loaded_dump, "lookup-mutates", "looking up {t} us changed the loaded frames");
        ensure!(history_dump(&m) == before, "lookup-mutates", "looking up {t} us changed the recorded results");
        if li == 2 && cx.src.chance(1, 3) {
            if let Some(mut g) = found {
                add(&mut m, &g.objects.clone(), &g)?;
                // what the caller does to its copy is its own business
                g.objects.clear();
            }
        }
        let _ = k;
    }
    cx.st.nontrivial = true;
    if jumps > 0 {
        *cx.st.faults.entry("clock:jump".into()).or_default() += jumps;
    }
    Ok(())
}

// ------------------------------------------------------------------ C09, C10, C11
#[derive(PartialEq, Clone, Copy)]
enum Focus {
    Match,
    Partition,
    Score,
}
fn evaluation(cx: &mut Ctx, focus: Focus) -> Res {
    let w = world(cx, "ds", &small_ds());
    let env = Env::draw(&mut cx.src);
    cx.tell(env.text());
    let mut g = ObjGen::new(&mut cx.src, &w.p);
    g.ties = cx.src.chance(1, 6);
    let n = cx.src.range(1, if cx.thorough { 14 } else { 7 });
    let sim = env.sim(1, "ds/annotation");
    cx.arm(sim);
    let c = w.config()?;
    let mut m = manager(&c)?;
    let frames = m.frame_ground_truths.clone();
    let msgs = stream(cx, &mut g, &frames, n);
    if focus == Focus::Score && cx.src.chance(1, 4) {
        score(cx, &m, &w.p)?;
    }
    let mut told: Vec<String> = vec![];
    for msg in &msgs {
        let mut gt = msg.gt.clone();
        let mut dets = msg.dets.clone();
        match cx.src.weighted(&[4, 2, 1, 1]) {
            0 => {}
            1 => {
                // the client looks its ground truth up by the message's stamp
                match lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(msg.sent.max(0))))? {
                    Some(f) => gt = f,
                    None => {
                        cx.count("messages without ground truth dropped", 1);
                        continue;
                    }
                }
            }
            2 => {
                // perfect detection of everything admissible
                dets = gt.objects.clone();
                for d in dets.iter_mut() {
                    d.confidence = g.conf.next();
                }
            }
            _ => {
                if cx.src.chance(1, 2) {
                    dets.clear()
                } else {
                    gt.objects.clear()
                }
            }
        }
        if cx.story.len() < 60 {
            let d = describe(&Message { dets: dets.clone(), gt: gt.clone(), ..msg.clone() });
            cx.tell(d);
        }
        if focus == Focus::Match && !dets.is_empty() && cx.src.chance(1, 10) {
            // a detection without a usable position is inside no limit
            let mut d = cx.src.pick(&dets).clone();
            let ax = cx.src.below(2);
            d.position[ax] = *cx.src.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
            d.confidence = g.conf.next();
            cx.tell(format!("another detection at {:?}", d.position));
            let at = cx.src.below(dets.len() + 1);
            dets.insert(at, d);
            cx.count("detections without a usable position", 1);
        }
        // other things a session does in between
        match cx.src.weighted(&[5, 1, 1]) {
            1 => drop(lib(|| m.get_metrics_score().map(|s| s.to_string()).is_ok())),
            2 => drop(lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(msg.arrives.max(0))))?),
            _ => {}
        }
        add(&mut m, &dets, &gt)?;
        let last = m.frame_results.last().unwrap();
        cx.mixin(frame_dump(last).as_bytes());
        match focus {
            Focus::Match => {
                model::check_recorded(last, &w.p, &dets, &gt)?;
                let now = history_dump(&m);
                if let Some(i) = told.iter().zip(now.iter()).position(|(a, b)| a != b) {
                    return fail("history-changed", format!("recording a message changed frame {i}"));
                }
                told = now;
                cx.count("frames checked", 1);
                cx.count("results checked", last.results().len() as u64);
                cx.count("pairs checked", last.results().iter().filter(|r| r.ground_truth_object.is_some()).count() as u64);
            }
            Focus::Partition => {
                let d = model::check_partition(last, &w.p)?;
                cx.count("frames checked", 1);
                cx.count("true/false positive decisions checked", d);
                cx.count("true positives", last.tp_results().len() as u64);
                cx.count("false positives", last.fp_results().len() as u64);
                cx.count("false negatives", last.fn_objects().len() as u64);
            }
            Focus::Score => {
                if cx.src.chance(1, 2) {
                    score(cx, &m, &w.p)?;
                }
            }
        }
    }
    match focus {
        // earlier frames still partition after everything else happened
        Focus::Partition => {
            for f in &m.frame_results {
                model::check_partition(f, &w.p)?;
            }
        }
        Focus::Score => score(cx, &m, &w.p)?,
        _ => {}
    }
    cx.st.nontrivial = !m.frame_results.is_empty();
    Ok(())
}
fn score(cx: &mut Ctx, m: &M, p: &Params) -> Res {
    let t = report(m)?;
    cx.mixin(t.as_bytes());
    let (d, o) = model::check_report(&t, &m.frame_results, p)?;
    cx.count("report values checked", d);
    cx.count("report values left open (ties or rounding)", o);
    Ok(())
}
fn c09(cx: &mut Ctx) -> Res {
    evaluation(cx, Focus::Match)
}
fn c10(cx: &mut Ctx) -> Res {
    evaluation(cx, Focus::Partition)
}
fn c11(cx: &mut Ctx) -> Res {
    evaluation(cx, Focus::Score)
}

// ------------------------------------------------------------------ C12
fn refused(m: &M, c2: &PerceptionEvaluationConfig) -> Res {
    let before = history_dump(m);
    let other = PerceptionEvaluationManager { config: c2, frame_ground_truths: m.frame_ground_truths.clone(), frame_results: m.frame_results.clone() };
    let r = lib_ok("scoring another task", || other.get_metrics_score().map(|s| s.to_string()).map_err(|e| e.to_string()))?;
    ensure!(r.is_err(), "task-accepted", "a score was given for task {:?}", c2.evaluation_task);
    ensure!(history_dump(&other) == before && history_dump(m) == before, "refusal-mutates", "refusing a score for {:?} changed the history", c2.evaluation_task);
    Ok(())
}
fn c12(cx: &mut Ctx) -> Res {
    let w = world(cx, "ds", &small_ds());
    let env = Env::draw(&mut cx.src);
    cx.tell(env.text());
    let mut g = ObjGen::new(&mut cx.src, &w.p);
    let n = cx.src.range(2, if cx.thorough { 12 } else { 6 });
    // the frames the publisher reacts to come from the dataset itself
    let base = w.d.samples.first().map(|s| s.ts).unwrap_or(1_600_000_000_000_000);
    let seedf: Vec<FrameGroundTruth> = (0..2).map(|i| g.frame(&mut cx.src, base + i * 100_000)).collect();
    let msgs = stream(cx, &mut g, &seedf, n);
    let mut perm: Vec<usize> = (0..msgs.len()).collect();
    cx.src.shuffle(&mut perm);
    // what happens between messages
    let acts: Vec<usize> = msgs.iter().map(|_| cx.src.weighted(&[3, 2, 2, 2, 2, 1, 3])).collect();
    let twin = cx.src.draw(4);
    let cut = cx.src.below(msgs.len().max(1) + 1);
    let die_at = cx.src.draw(6) as u32;
    let (e2, e3) = (Env::draw(&mut cx.src), Env::draw(&mut cx.src));
    let task = if cx.src.chance(1, 2) { EvaluationTask::Tracking } else { EvaluationTask::Prediction };
    // evaluations one after another, each dropped before the next, equally long
    let serial: Vec<Vec<usize>> = if !msgs.is_empty() && cx.src.chance(1, 4) {
        let len = cx.src.range(1, 3);
        (0..3).map(|_| (0..len).map(|_| cx.src.below(msgs.len())).collect()).collect()
    } else {
        vec![]
    };

    // 1. one long-lived process, with requests and disturbances in between
    let sim = env.sim(1, "ds/annotation");
    let (msgs1, acts1, w1, serial1) = (&msgs, &acts, &w, &serial);
    let first = match cx.process(sim, move |cx| {
        let c = w1.config()?;
        let mut c2 = c.clone();
        c2.evaluation_task = task;
        let mut m = manager(&c)?;
        let mut past: Vec<(Vec<usize>, String)> = vec![];
        for ix in serial1 {
            let mut k = manager(&c)?;
            for j in ix {
                add(&mut k, &msgs1[*j].dets, &msgs1[*j].gt)?;
            }
            past.push((ix.clone(), report(&k)?));
            cx.count("evaluations one after another", 1);
        }
        let mut kept: Option<(M, String, Vec<String>)> = None;
        // evaluations that went their own way: which messages each recorded, what it reported
        let mut roads: Vec<(Vec<usize>, String)> = vec![];
        let mut fork: Option<usize> = None;
        for (i, msg) in msgs1.iter().enumerate() {
            match acts1[i] {
                1 => {
                    let a = report(&m)?;
                    let h = history_dump(&m);
                    let b = report(&m)?;
                    let z = report(&m.clone())?;
                    ensure!(a == b, "rescore", "two requests in a row give different reports");
                    ensure!(a == z, "clone-score", "a clone gives another report than its original");
                    ensure!(history_dump(&m) == h, "score-mutates", "scoring changed the history");
                    cx.count("repeated requests", 1);
                }
                2 => {
                    // a clone goes its own way
                    let before = report(&m)?;
                    let mut k = lib_ok("cloning", || m.clone())?;
                    add(&mut k, &msg.dets, &msg.gt)?;
                    add(&mut k, &msg.dets, &msg.gt)?;
                    k.frame_results[0] = k.frame_results.last().unwrap().clone();
                    k.frame_ground_truths.clear();
                    ensure!(report(&m)? == before, "clone-leaks", "recording into a clone changed the original's report");
                    cx.count("clones diverged", 1);
                }
                3 => {
                    if kept.is_none() {
                        kept = Some((m.clone(), report(&m)?, history_dump(&m)));
                    }
                }
                4 => {
                    refused(&m, &c2)?;
                    cx.count("refused scores", 1);
                }
                5 => {
                    // failing operations and lookups
                    let mut bad = c.clone();
                    bad.dataset_path = "/nonexistent".into();
                    ensure!(lib_ok("loading a missing dataset", || PerceptionEvaluationManager::from(&bad).is_err())?, "no-error", "a missing dataset loaded");
                    lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(msg.sent.max(0))))?;
                    lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(1)))?;
                }
                6 => fork = Some(i),
                _ => {}
            }
            add(&mut m, &msg.dets, &msg.gt)?;
            if fork == Some(i) && roads.len() < 4 {
                // as many frames as the original, other content; cloned, or new from the same or an equal configuration
                let c3 = c.clone();
                let mine: Vec<usize> = (0..=i).collect();
                let theirs: Vec<usize> = mine.iter().map(|j| if twin == 3 && *j < i { *j } else { msgs1.len() - 1 - j }).collect();
                let mut k = match twin {
                    0 => {
                        let mut k = lib_ok("cloning", || m.clone())?;
                        k.frame_results.clear();
                        k
                    }
                    1 => manager(&c3)?,
                    _ => manager(&c)?,
                };
                for j in &theirs {
                    add(&mut k, &msgs1[*j].dets, &msgs1[*j].gt)?;
                }
                let (a, b) = (report(&m)?, report(&k)?);
                ensure!(report(&m)? == a, "rescore", "scoring another evaluation changed the report");
                roads.push((mine, a));
                roads.push((theirs, b));
                cx.count("evaluations side by side", 1);
            }
        }
        if let Some((k, r, h)) = &kept {
            ensure!(report(k)? == *r && history_dump(k) == *h, "clone-follows", "a clone changed when the original recorded more");
            cx.count("clones kept", 1);
        }
        refused(&m, &c2)?;
        let a = report(&m)?;
        ensure!(a == report(&m)?, "rescore", "two requests in a row give different reports");
        let values = model::parse_report(&a)?;
        cx.mixin(a.as_bytes());
        roads.extend(past);
        Ok(json!({"report": a, "frames": m.frame_results.len(), "sections": values.len(), "roads": roads}))
    })? {
        ProcEnd::Done(v) => v,
        ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
    };
    // 2. a process that records a part and dies, possibly in the middle of a log write
    let mut sim = e2.sim(1, "ds/annotation");
    sim.faults.push(Fault { path: "ds-result/log/output.log".into(), op: Op::Write, nth: die_at, act: Act::Kill(die_at as usize) });
    let (msgs2, w2) = (&msgs, &w);
    cx.process(sim, move |_| {
        let c = w2.config()?;
        let mut m = manager(&c)?;
        for msg in msgs2.iter().take(cut) {
            add(&mut m, &msg.dets, &msg.gt)?;
            lib_ok("looking up a frame", || m.get_frame_ground_truth(&when(1)))?;
        }
        Ok(json!(0))
    })?;
    // 3. the restarted process records everything again, in another order
    let sim = e3.sim(1, "ds/annotation");
    let (msgs3, perm3, w3) = (&msgs, &perm, &w);
    let again = match cx.process(sim, move |_| {
        let c = w3.config()?;
        let mut m = manager(&c)?;
        for i in perm3.iter() {
            add(&mut m, &msgs3[*i].dets, &msgs3[*i].gt)?;
        }
        Ok(json!({"report": report(&m)?, "frames": m.frame_results.len()}))
    })? {
        ProcEnd::Done(v) => v,
        ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
    };
    ensure!(first["frames"] == again["frames"], "restart-history", "{} frames before, {} after re-recording", first["frames"], again["frames"]);
    ensure!(
        first["report"] == again["report"],
        "order-report",
        "recording the same messages in another order after a restart gives another report:\n{}\nthen\n{}",
        first["report"].as_str().unwrap(),
        again["report"].as_str().unwrap()
    );
    cx.count("permuted re-recordings", 1);
    // 4. each evaluation that went its own way, alone in a process
    for r in first["roads"].as_array().unwrap() {
        let ix: Vec<usize> = r[0].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
        let (w4, msgs4, ix4) = (&w, &msgs, &ix);
        let alone = match cx.process(Env::calm().sim(1, "none"), move |_| {
            let c = w4.config()?;
            let mut m = manager(&c)?;
            for i in ix4 {
                add(&mut m, &msgs4[*i].dets, &msgs4[*i].gt)?;
            }
            Ok(json!(report(&m)?))
        })? {
            ProcEnd::Done(v) => v,
            ProcEnd::Killed => return fail("killed", "killed without a kill in the plan"),
        };
        ensure!(
            r[1] == alone,
            "side-by-side",
            "an evaluation that recorded messages {ix:?} beside or after another one reports\n{}\nalone it reports\n{}",
            r[1].as_str().unwrap(),
            alone.as_str().unwrap()
        );
    }
    cx.mixin(first["report"].as_str().unwrap().as_bytes());
    cx.st.nontrivial = !msgs.is_empty();
    Ok(())
}

// ------------------------------------------------------------------ C15
const BAD: [f64; 14] = [
    f64::NAN,
    f64::INFINITY,
    f64::NEG_INFINITY,
    0.0,
    -0.0,
    1e308,
    -1e308,
    1e200,
    5e-324,
    -1.0,
    1e18,
    -1e18,
    9007199254740993.0,
    -3.5,
];
fn corrupt(cx: &mut Ctx, d: &mut DynamicObject) {
    let s = &mut cx.src;
    for _ in 0..s.range(1, 3) {
        let b = *s.pick(&BAD);
        let field = match s.weighted(&[4, 3, 3, 2, 1, 2]) {
            0 => {
                let i = s.below(3);
                d.position[i] = b;
                "position"
            }
            1 => {
                let i = s.below(4);
                d.orientation[i] = b;
                "orientation"
            }
            2 => {
                let i = s.below(3);
                d.size[i] = b;
                "size"
            }
            3 => {
                d.confidence = b;
                "confidence"
            }
            4 => {
                d.velocity = Some([b, *s.pick(&BAD), 0.0]);
                "velocity"
            }
            _ => {
                // the whole vector is lost
                match s.below(4) {
                    0 => d.orientation = [b; 4],
                    1 => d.size = [b; 3],
                    2 => d.position[2] = f64::NAN,
                    _ => d.position = [b; 3],
                }
                "vector"
            }
        };
        *cx.st.faults.entry(format!("corrupt:{field}")).or_default() += 1;
    }
    if cx.src.chance(1, 8) {
        d.pointcloud_num = Some(usize::MAX);
    }
}
fn others(f: &perception_eval::result::frame::PerceptionFrameResult, bad: &[Label]) -> Vec<String> {
    let mut out = vec![];
    let ok = |l: &Label| !bad.contains(l);
    for (k, v) in [("result", f.results()), ("tp", f.tp_results()), ("fp", f.fp_results())] {
        for r in v.iter().filter(|r| ok(&r.estimated_object.label)) {
            out.push(format!("{k} {}=>{}", okey(&r.estimated_object), r.ground_truth_object.as_ref().map(okey).unwrap_or_default()));
        }
    }
    for o in f.fn_objects().iter().filter(|o| ok(&o.label)) {
        out.push(format!("fn {}", okey(o)));
    }
    for o in &f.frame_ground_truth().objects {
        out.push(format!("gt {}", okey(o)));
    }
    out.sort();
    out
}
fn c15(cx: &mut Ctx) -> Res {
    let w = world(cx, "ds", &small_ds());
    let env = Env::draw(&mut cx.src);
    cx.tell(env.text());
    let mut g = ObjGen::new(&mut cx.src, &w.p);
    let n = cx.src.range(1, if cx.thorough { 10 } else { 5 });
    let sim = env.sim(1, "ds/annotation");
    cx.arm(sim);
    let c = w.config()?;
    let mut clean = manager(&c)?;
    let mut dirty = clean.clone();
    let frames = clean.frame_ground_truths.clone();
    let msgs = stream(cx, &mut g, &frames, n);
    let mut spoiled: Vec<Label> = vec![];
    for msg in &msgs {
        // corrupted copies of real detections travel in the same message
        let mut dets = msg.dets.clone();
        let mut bad: Vec<Label> = vec![];
        let k = cx.src.weighted(&[2, 3, 2, 1]);
        for _ in 0..k {
            let mut d = if !msg.gt.objects.is_empty() && cx.src.chance(2, 3) { cx.src.pick(&msg.gt.objects).clone() } else { g.det(&mut cx.src, &msg.gt, msg.sent) };
            d.confidence = g.conf.next();
            corrupt(cx, &mut d);
            cx.tell(format!("corrupted detection in message {}: {} at {:?} q{:?} size {:?} confidence {}", msg.id, lname(&d.label), d.position, d.orientation, d.size, d.confidence));
            bad.push(d.label.clone());
            let at = cx.src.below(dets.len() + 1);
            dets.insert(at, d);
        }
        let mut known: Vec<f64> = vec![];
        for d in dets.iter() {
            known.push(d.confidence);
        }
        add(&mut clean, &msg.dets, &msg.gt)?;
        add(&mut dirty, &dets, &msg.gt)?;
        cx.tell(describe(msg));
        let (a, b) = (clean.frame_results.last().unwrap(), dirty.frame_results.last().unwrap());
        let (x, y) = (others(a, &bad), others(b, &bad));
        if x != y {
            let d = x.iter().find(|v| !y.contains(v)).or_else(|| y.iter().find(|v| !x.contains(v))).cloned().unwrap_or_default();
            return fail("contamination", format!("corrupted detections of {:?} changed another label's outcome in message {}: {d}", bad.iter().map(lname).collect::<Vec<_>>(), msg.id));
        }
        for r in b.tp_results() {
            ensure!(
                r.estimated_object.position.iter().all(|v| !v.is_nan()),
                "nan-tp",
                "a detection at {:?} is listed as true positive",
                r.estimated_object.position
            );
        }
        for r in b.results() {
            if r.estimated_object.position.iter().any(|v| v.is_nan()) {
                cx.count("admitted detections with undefined position", 1);
            }
        }
        spoiled.extend(bad);
        if cx.src.chance(1, 3) {
            drop(report(&dirty)?);
        }
        cx.count("messages with corrupted detections", (k > 0) as u64);
    }
    // earlier and later messages without corruption are recorded identically
    for (i, (a, b)) in clean.frame_results.iter().zip(dirty.frame_results.iter()).enumerate() {
        ensure!(others(a, &spoiled) == others(b, &spoiled), "contamination", "frame {i} differs for labels that carried no corruption");
    }
    let (rc, rd) = (report(&clean)?, report(&dirty)?);
    cx.mixin(rd.as_bytes());
    let (sc, sd) = (model::parse_report(&rc)?, model::parse_report(&rd)?);
    for (a, b) in sc.iter().zip(sd.iter()) {
        ensure!(a.mode == b.mode && a.labels == b.labels, "contamination", "the report's sections differ");
        for (k, va) in &a.rows {
            let Some(vb) = b.rows.get(k) else { return fail("contamination", format!("{} {k}: row missing", a.mode)) };
            for (i, l) in w.p.labels.iter().enumerate() {
                if spoiled.contains(l) {
                    continue;
                }
                let same = va.get(i).map(|x| x.to_bits()) == vb.get(i).map(|x| x.to_bits());
                ensure!(same, "contamination", "{} {k} of {}: {:?} without, {:?} with corrupted detections of other labels", a.mode, lname(l), va.get(i), vb.get(i));
                cx.count("report values compared", 1);
            }
        }
    }
    // corrupted detections may also meet the library outside an evaluation
    if let Some(r) = dirty.frame_results.iter().flat_map(|f| f.results()).next() {
        let o = r.estimated_object.clone();
        let _ = lib(|| o.to_string());
    }
    cx.st.nontrivial = !msgs.is_empty();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            run: c06,
            quick: 60000,
            thorough: 1680000,
            rule: "a run loads a dataset and looks up times presented by a drifting, jumping clock against loaded and generated frame lists; distinct by the digest of presented times, answers and seam events",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C09",
            run: c09,
            quick: 70000,
            thorough: 1960000,
            rule: "a run records at least one message; distinct by the digest of every recorded frame and seam event",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C10",
            run: c10,
            quick: 70000,
            thorough: 1960000,
            rule: "a run records at least one message; distinct by the digest of every recorded frame and seam event",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C11",
            run: c11,
            quick: 70000,
            thorough: 1960000,
            rule: "a run records at least one message and scores; distinct by the digest of recorded frames, reports and seam events",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C12",
            run: c12,
            quick: 25000,
            thorough: 700000,
            rule: "a run records the same messages in a disturbed process and, after a crash, in another order in a restarted one; distinct by the digest of reports and seam events",
            real: REAL,
            stub: STUB,
        },
        Prop {
            id: "C15",
            run: c15,
            quick: 60000,
            thorough: 1680000,
            rule: "a run records messages with and without corrupted detections; distinct by the digest of reports and seam events",
            real: REAL,
            stub: STUB,
        },
    ]
}
