//! R05 stored optical data: complete or absent, reusable, and never a cause of wrong results.
use super::par::*;
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use crate::rt::{fk, op};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R05",
        gen: gen_r05,
        check: check_r05,
        quick: 600,
        thorough: 40000,
        rule: "each case: a building that stores its optical data in a file, and one of: faults and crashes (with or without loss of unsynchronised data) while the file is produced followed by further runs; read faults while it is reused; several simulations sharing the path under a seeded schedule; a damaged or foreign file. Non-trivial when a fault fired, the file was damaged, or threads were switched",
        real: &["bin/simple.rs main, simple::run_simulation", "light::SolarModel, OpticalInfo and the ray tracer", "serde_json, std file I/O"],
        stub: &["operating-system file calls (fault-injecting pass-through; synchronisation is modelled)", "scheduler, clock, entropy (the same bytes at every request)", "reference loop without stored data (oracle)"],
        assumptions: &["a file whose data was not synchronised may lose any suffix of it in a power loss; renames are atomic and ordered", "stored data of another building with the same number of surfaces and windows cannot be told apart"],
    }]
}

fn gen_r05(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let mut b = base_case_opt(r, if tier == Tier::Quick { 4 } else { 12 }, Opt { solar: true, max_walls: 3, max_spaces: 2, ..Opt::default() });
    b["n"] = json!(*r.pick(&[1, 1, 2, 3]));
    b["w"]["kind"] = json!(r.r(1, 4));
    b["b"]["solar"] = json!({"pts": r.r(1, 3), "div": r.r(1, 4), "path": "optical.json"});
    b["people"] = json!(r.p(30));
    b["spl"] = json!(r.p(30));
    let mode = *r.pick(&[0, 0, 0, 0, 0, 1, 2, 2, 3]);
    b["mode"] = json!(mode);
    match mode {
        0 => {
            let mut fs = vec![];
            for _ in 0..r.r(1, 3) {
                let k = *r.pick(&[fk::CRASH_BEFORE, fk::CRASH_AFTER, fk::CRASH_TORN, fk::SHORT, fk::EINTR, fk::ERRNO, fk::DISKCAP, fk::ERRNO]);
                let o = match k {
                    fk::SHORT | fk::EINTR | fk::DISKCAP | fk::CRASH_TORN => op::WRITE,
                    fk::ERRNO => *r.pick(&[op::WRITE, op::WRITE, op::OPEN_W, op::FSYNC, op::RENAME]),
                    _ => *r.pick(&[op::WRITE, op::WRITE, op::OPEN_W, op::FSYNC, op::RENAME, op::CLOSE]),
                };
                let arg = if k == fk::ERRNO { *r.pick(&[5, 28, 122]) } else { r.r(0, 9999) };
                // half of the faults aim at the beginning, where the stored data is produced
                fs.push(json!([k, o, r.r(0, 9999), arg, r.p(50)]));
            }
            b["faults"] = json!(fs);
            b["power"] = json!(r.p(50));
            b["cseed"] = json!(seed32(r));
        }
        1 => {
            let mut fs = vec![];
            for _ in 0..r.r(1, 3) {
                let k = *r.pick(&[fk::SHORT, fk::EINTR, fk::ERRNO]);
                let o = if k == fk::ERRNO { *r.pick(&[op::READ, op::OPEN_R]) } else { op::READ };
                fs.push(json!([k, o, r.r(0, 9999), if k == fk::ERRNO { *r.pick(&[5, 13]) } else { r.r(1, 9999) }, false]));
            }
            b["faults"] = json!(fs);
        }
        2 => {
            b["sched"] = gen_sched(r);
            b["twins"] = json!(r.r(2, 3));
            b["late"] = json!([r.r(0, 9999), r.r(0, 9999)]);
        }
        _ => {
            b["damage"] = json!(r.r(0, 5));
            b["at"] = json!(r.r(0, 9999));
        }
    }
    b
}

/// Halves every number that is not an integer.
fn scale(v: &mut Value) {
    match v {
        Value::Number(x) if x.is_f64() => *v = json!(x.as_f64().unwrap_or(0.) * 0.5),
        Value::Array(a) => a.iter_mut().for_each(scale),
        Value::Object(m) => m.values_mut().for_each(scale),
        _ => {}
    }
}
fn argv(c: &Value) -> Vec<&'static str> {
    let mut a = vec!["-i", if c["spl"].as_bool().unwrap_or(false) { "model.spl" } else { "model.json" }, "-w", "w.sw", "-o", "out.csv", "-n"];
    a.push(match i(&c["n"]) {
        2 => "2",
        3 => "3",
        _ => "1",
    });
    if c["people"].as_bool().unwrap_or(false) {
        a.extend(["-c", "people"]);
    }
    a
}

fn check_r05(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let mut c = c.clone();
    if i(&c["w"]["n"]) < 2 {
        c["w"]["n"] = json!(2);
    }
    if !c["b"]["solar"].is_object() {
        c["b"]["solar"] = json!({"pts": 1, "div": 1, "path": "optical.json"});
    }
    let c = &c;
    let n = i(&c["n"]).clamp(1, 3) as usize;
    let d = ctx.scratch();
    let mut plain = c.clone();
    plain["b"]["solar"].as_object_mut().unwrap().remove("path");
    let bl = build(&plain["b"]);
    let args = json!({"model": bl.model, "n": n, "control": if c["people"].as_bool().unwrap_or(false) {"people"} else {"void"}, "w": c["w"]});
    let Some(refr) = refrun(ctx, &mut o, args, c, &d)? else { return Ok(o) };
    put_inputs(c, &d);
    let av = argv(c);
    let good = |o: &mut CaseOut, tag: &str, what: &str, run: &RunOut, text: &str| -> bool {
        if let Some(s) = run.stuck() {
            o.v(format!("{tag}-{s}"), format!("{what}: {}", run.note));
            return false;
        }
        if run.exit != Some(0) {
            o.v(format!("{tag}-failed"), format!("{what} ended with {}: {}", run.exit_desc(), run.err_text()));
            return false;
        }
        let k = o.violations.len();
        compare_table(o, tag, text, &refr, &bl.model, n, span(&c["w"]), None);
        o.violations.len() == k
    };
    let mode = i(&c["mode"]);
    o.signature = format!("m{mode} w{} ", arr(&c["b"]["walls"]).len());
    // 1. undisturbed: compute and store, then reuse
    let cold = ctx.cli("simple", &av, cfg(c), &d)?;
    if !good(&mut o, "cache-cold", "the run that stores the optical data", &cold, &d.text("out.csv")) {
        return Ok(o);
    }
    let Some(stored) = d.read("optical.json") else {
        o.v("cache-not-stored", "no optical data was stored");
        return Ok(o);
    };
    let warm = ctx.cli("simple", &av, cfg(c), &d)?;
    if !good(&mut o, "cache-warm", "the run that reuses the stored optical data", &warm, &d.text("out.csv")) {
        return Ok(o);
    }
    if d.read("optical.json").as_deref() != Some(&stored[..]) {
        o.v("cache-rewritten", "reusing the stored optical data changed the file");
        return Ok(o);
    }
    if warm.count(op::OPEN_R, "optical.json") == 0 {
        o.v("cache-unused", "the stored optical data was not read");
        return Ok(o);
    }
    let e = ctx.scratch();
    put_inputs(c, &e);
    let planned = |fs: &Value, base: &RunOut, lab: &str| -> Vec<Fault> {
        let total = |o: i32| base.head.opcount[o as usize].iter().sum::<u64>() as i64;
        arr(fs)
            .iter()
            .map(|f| {
                let (k, o) = (i(&f[0]) as i32, i(&f[1]) as i32);
                let tot = total(o);
                // operations on the stored data come before those on the results
                let tail = base.count(o, "out.csv") as i64;
                let lim = if f[4].as_bool().unwrap_or(false) { (tot - tail).max(1) } else { tot };
                let bytes: i64 = base.head.opbytes[op::WRITE as usize].iter().sum::<u64>() as i64;
                let arg = if k == fk::DISKCAP { i(&f[3]) * bytes / 10000 } else { i(&f[3]) };
                Fault { op: o, label: lab.into(), nth: i(&f[2]) * lim / 10000, kind: k, arg, sticky: false }
            })
            .collect()
    };
    match mode {
        0 => {
            // 2. the same with faults, then again without
            let mut sim = cfg(c);
            sim.faults = planned(&c["faults"], &cold, "*");
            sim.powerloss = c["power"].as_bool().unwrap_or(false);
            sim.crash_seed = i(&c["cseed"]) as u64;
            let hurt = ctx.cli("simple", &av, sim, &e)?;
            o.nontrivial = hurt.fired_any() > 0;
            o.signature += &format!("p{} {:?}", c["power"], arr(&c["faults"]).iter().map(|f| (i(&f[0]), i(&f[1]), i(&f[2]) / 2500)).collect::<Vec<_>>());
            let hard = hurt.fired(fk::ERRNO) + hurt.fired(fk::DISKCAP) > 0;
            if let Some(s) = hurt.stuck() {
                o.v(format!("cache-{s}"), hurt.note.clone());
                return Ok(o);
            }
            if !hurt.crashed() {
                if hurt.exit == Some(0) {
                    if !good(&mut o, "cache-faulty", "a run that reported success under faults", &hurt, &e.text("out.csv")) {
                        return Ok(o);
                    }
                } else if !hard {
                    o.v("cache-soft-failed", format!("the run failed although every fault was retryable: {} {}", hurt.exit_desc(), hurt.err_text()));
                    return Ok(o);
                } else if hurt.exit != Some(1) {
                    o.v("cache-abnormal-exit", format!("the run ended with {} when storing failed: {}", hurt.exit_desc(), hurt.err_text()));
                    return Ok(o);
                }
            }
            let left = e.read("optical.json");
            let next = ctx.cli("simple", &av, cfg(c), &e)?;
            let what = format!("the run after {} (it found {} of {} bytes stored)", if hurt.crashed() { "a crash" } else { "a fault" }, left.map_or("none".to_string(), |l| l.len().to_string()), stored.len());
            if !good(&mut o, "cache-next", &what, &next, &e.text("out.csv")) {
                return Ok(o);
            }
            let third = ctx.cli("simple", &av, cfg(c), &e)?;
            if !good(&mut o, "cache-third", "the second run after the fault", &third, &e.text("out.csv")) {
                return Ok(o);
            }
        }
        1 => {
            e.write("optical.json", &stored);
            let mut sim = cfg(c);
            sim.faults = planned(&c["faults"], &warm, "optical.json");
            for f in &mut sim.faults {
                let tot = warm.count(f.op, "optical.json") as i64;
                f.nth = f.nth.min((tot - 1).max(0));
            }
            let hurt = ctx.cli("simple", &av, sim, &e)?;
            o.nontrivial = hurt.fired_any() > 0;
            o.signature += &format!("{:?}", arr(&c["faults"]).iter().map(|f| (i(&f[0]), i(&f[1]), i(&f[3]) % 8)).collect::<Vec<_>>());
            let hard = hurt.fired(fk::ERRNO) > 0;
            if hurt.exit == Some(0) || !hard {
                good(&mut o, "cache-read", "a run whose reads of the stored data were disturbed", &hurt, &e.text("out.csv"));
            } else if hurt.exit != Some(1) {
                o.v("cache-read-abnormal", format!("the run ended with {} when the stored data could not be read: {}", hurt.exit_desc(), hurt.err_text()));
            }
            if e.read("optical.json").as_deref() != Some(&stored[..]) {
                o.v("cache-rewritten", "a failing read changed the stored optical data");
            }
        }
        2 => {
            let k = i(&c["twins"]).clamp(2, 3);
            let job = json!({"model": if c["spl"].as_bool().unwrap_or(false) {"model.spl"} else {"model.json"}, "weather": "w.sw", "n": n, "control": if c["people"].as_bool().unwrap_or(false) {"people"} else {"void"}});
            let mut jobs = vec![job; k as usize];
            for (q, l) in arr(&c["late"]).iter().enumerate() {
                if q + 1 < jobs.len() {
                    // the others start at some moment of the first one
                    jobs[q + 1]["delay_ns"] = json!(i(l) * 2 * cold.head.vtime_ns as i64 / 10000);
                }
            }
            let mut sim = sched_cfg(c, cfg(c));
            sim.step_limit = 2_000_000_000;
            let out = ctx.lib("multi", json!({ "jobs": jobs }), sim, &e)?;
            o.nontrivial = out.head.switches >= 4;
            o.signature += &format!("k{k} q{} s{} {}", c["sched"]["quantum"], c["sched"]["strategy"], i(&c["sched"]["seed"]) % 8);
            if let Some(s) = out.stuck() {
                o.v(format!("cache-shared-{s}"), out.note.clone());
                return Ok(o);
            }
            let res = need(&out)?;
            for (q, r) in arr(&res["runs"]).iter().enumerate() {
                if r["res"] != "ok" {
                    o.v("cache-shared-failed", format!("simulation {q} of {k} sharing the stored data failed: {} {}", r["res"], r["err"]));
                    return Ok(o);
                }
                let before = o.violations.len();
                compare_table(&mut o, "cache-shared", r["out"].as_str().unwrap_or(""), &refr, &bl.model, n, span(&c["w"]), None);
                if o.violations.len() > before {
                    return Ok(o);
                }
            }
            if e.read("optical.json").as_deref() != Some(&stored[..]) {
                o.v("cache-shared-file", "simulations sharing the path left other data than a single one stores");
            }
        }
        _ => {
            let mut bad = stored.clone();
            let what = match i(&c["damage"]) {
                0 | 1 => {
                    // truncated before the end of the document
                    let end = bad.iter().rposition(|x| *x == b'}').unwrap_or(0);
                    bad.truncate(un(&c["at"]) * end / 10000);
                    "truncated"
                }
                2 => {
                    bad = vec![0; bad.len()];
                    "zeroed"
                }
                5 => {
                    // other data of the same shape, followed by the remains of a longer file
                    let mut v: Value = serde_json::from_slice(&stored).unwrap_or(Value::Null);
                    scale(&mut v);
                    let tail = (un(&c["at"]) % 97 + 1).min(stored.len());
                    let mut t = v.to_string().into_bytes();
                    t.extend_from_slice(&stored[stored.len() - tail..]);
                    if i(&c["at"]) % 3 == 0 {
                        // a trailing field after the end
                        t.extend_from_slice(b",{}");
                    }
                    bad = t;
                    "followed by the remains of an older file"
                }
                _ => {
                    // the data of a building with one more surface
                    let mut big = c.clone();
                    let w = json!({"s": 0, "o": 5, "c": 0, "win": if i(&c["damage"]) == 3 { 0 } else { 1 }, "other": 0});
                    big["b"]["walls"].as_array_mut().unwrap().push(w);
                    let g = ctx.scratch();
                    put_inputs(&big, &g);
                    let x = ctx.cli("simple", &av, cfg(c), &g)?;
                    match g.read("optical.json") {
                        Some(b) if x.exit == Some(0) => bad = b,
                        _ => return Ok(o),
                    }
                    if i(&c["at"]) % 2 == 0 {
                        // and the other way around: the bigger building finds the data of the smaller one
                        e.write("model.json", g.read("model.json").unwrap());
                        e.write("model.spl", g.read("model.spl").unwrap());
                        bad = stored.clone();
                    }
                    "of another building"
                }
            };
            e.write("optical.json", &bad);
            let run = ctx.cli("simple", &av, cfg(c), &e)?;
            o.nontrivial = true;
            o.signature += &format!("d{} a{}", c["damage"], i(&c["at"]) / 300);
            if run.exit == Some(0) {
                // only acceptable if the data was noticed and computed again
                if what == "of another building" {
                    let g = ctx.scratch();
                    for f in ["model.json", "model.spl", "w.sw"] {
                        g.write(f, e.read(f).unwrap());
                    }
                    let x = ctx.cli("simple", &av, cfg(c), &g)?;
                    if x.exit == Some(0) && g.text("out.csv") != e.text("out.csv") {
                        o.v("cache-foreign-used", "optical data that does not fit the building was used");
                    }
                } else {
                    good(&mut o, "cache-damaged", &format!("the run that found {what} data"), &run, &e.text("out.csv"));
                }
            } else if run.exit != Some(1) || run.stderr.is_empty() {
                o.v("cache-damaged-abnormal", format!("the run that found stored data {what} ended with {}: {}", run.exit_desc(), run.err_text()));
            }
        }
    }
    o.add(&format!("mode_{mode}"), 1);
    Ok(o)
}
