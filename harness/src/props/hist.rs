//! R09 the state is all there is (checkpoint, restart, branch); R10 independent simulations do not influence each other.
use super::par::*;
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use crate::rt::{fk, op};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "R09",
            gen: gen_r09,
            check: check_r09,
            quick: 900,
            thorough: 60000,
            rule: "each case: a seeded building, weather and command history advanced step by step; the same history with the memory allocated anew at chosen steps, with detours of a copy of the state, and with the process crashing at a planned operation and a fresh process resuming from the last complete checkpoint, each compared bit by bit with the uninterrupted history; non-trivial when memory was renewed, a detour taken, or the process crashed",
            real: &["MultiphysicsModel, SolarModel, AirFlowModel, ThermalModel (new, allocate_memory, march)", "Model, SimulationState, weather, calendar", "OccupantBehaviour"],
            stub: &["stepping loop and checkpoint file (harness)", "process crash", "scheduler, clock, entropy"],
            assumptions: &["every process sees the same simulated entropy, so that the optical data are the same"],
        },
        Prop {
            id: "R10",
            gen: gen_r10,
            check: check_r10,
            quick: 500,
            thorough: 40000,
            rule: "each case: two to four simulations of different buildings, weather files, timesteps and controls (some made to fail), running on threads of one process under a seeded schedule or one after the other, each compared byte by byte with the same simulation alone in a process; non-trivial when at least two simulations ran and, if concurrent, the schedule switched threads at least 4 times",
            real: &["simple::run_simulation (run, run_rhai)", "model, weather, physics crates, rhai engine", "rayon pool shared by the simulations"],
            stub: &["scheduler (futex, thread, sleep calls are simulated; one runnable thread at a time)", "entropy", "clock"],
            assumptions: &["sequentially consistent memory", "every random generator is seeded with the same simulated entropy"],
        },
    ]
}

// ------------------------------------------------------------------ R09
fn gen_r09(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let opt = Opt { solar: r.p(30), outputs: false, ..Opt::default() };
    let mut c = base_case_opt(r, if tier == Tier::Quick { 16 } else { 40 }, opt);
    let steps = r.r(3, if tier == Tier::Quick { 14 } else { 40 });
    c["steps"] = json!(steps);
    c["people"] = json!(r.p(50));
    c["cmds"] = gen_cmds(r, steps);
    c["realloc"] = json!((0..r.r(0, 4)).map(|_| r.r(0, steps)).collect::<Vec<_>>());
    c["branch"] = json!((0..r.r(0, 2)).map(|_| json!([r.r(0, steps), r.r(1, 6), r.r(0, 1)])).collect::<Vec<_>>());
    c["every"] = json!(r.r(1, 4));
    c["crash"] = json!((0..r.r(0, 3)).map(|_| json!([*r.pick(&[fk::CRASH_BEFORE, fk::CRASH_TORN, fk::CRASH_AFTER]), *r.pick(&[op::WRITE, op::WRITE, op::RENAME]), r.r(0, 9999), r.r(1, 9999)])).collect::<Vec<_>>());
    c["powerloss"] = json!(r.p(40));
    c
}
fn check_r09(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let d = ctx.scratch();
    let bl = put_inputs(c, &d);
    let args = json!({"model": bl.model, "n": i(&c["n"]).clamp(1, 60), "steps": i(&c["steps"]).max(1), "people": c["people"], "cmds": c["cmds"]});
    let run = |a: Value, sim: SimCfg, s: &Scratch| -> Result<RunOut, String> { ctx.lib("hist", a, sim, s) };
    let base = need(&run(args.clone(), cfg(c), &d)?)?;
    if base["panic"].is_string() {
        o.add("physics_diverged", 1);
        return Ok(o);
    }
    let rows = arr(&base["rows"]).to_vec();
    let cmp = |o: &mut CaseOut, what: &str, res: &Value| -> bool {
        if res["panic"].is_string() {
            o.v("r09-panic", format!("{what} panicked: {}", res["panic"]));
            return false;
        }
        let (from, got) = (un(&res["from"]), arr(&res["rows"]));
        if from + got.len() != rows.len() {
            o.v("r09-length", format!("{what}: {} steps from {from}, expected {} in all", got.len(), rows.len()));
            return false;
        }
        for (k, g) in got.iter().enumerate() {
            if *g != rows[from + k] {
                let j = (0..arr(g).len()).find(|j| g[*j] != rows[from + k][*j]).unwrap_or(0);
                let f = |v: &Value| f64::from_bits(v.as_u64().unwrap_or(0));
                o.v("r09-differs", format!("{what}: after step {} value {j} of the state is {}, uninterrupted {}", from + k, f(&g[j]), f(&rows[from + k][j])));
                return false;
            }
        }
        true
    };
    o.signature = format!("{:?} {:?} {:?} {:?}", c["realloc"], c["branch"], c["crash"], c["steps"]);
    let mut a = args.clone();
    a["realloc"] = c["realloc"].clone();
    a["branch"] = c["branch"].clone();
    if !arr(&c["realloc"]).is_empty() || !arr(&c["branch"]).is_empty() {
        o.nontrivial = true;
        let mut res = need(&run(a.clone(), cfg(c), &d)?)?;
        if res["panic"].is_string() {
            // a detour may lead where the physics cannot go
            a["branch"] = json!([]);
            res = need(&run(a, cfg(c), &d)?)?;
        }
        o.add("memory_renewed", arr(&c["realloc"]).len() as u64);
        o.add("detours", arr(&c["branch"]).len() as u64);
        if !cmp(&mut o, "with new memory and detours", &res) {
            return Ok(o);
        }
    }
    // crashes: each later process resumes from what is left
    let mut a = args.clone();
    a["every"] = json!(i(&c["every"]).max(1));
    a["resume"] = json!(true);
    let total = (rows.len() as i64 / i(&c["every"]).max(1)).max(1);
    for f in arr(&c["crash"]) {
        let mut sim = cfg(c);
        sim.powerloss = c["powerloss"].as_bool().unwrap_or(false);
        sim.crash_seed = i(&f[3]) as u64;
        sim.faults.push(Fault { op: i(&f[1]) as i32, label: "cp*".into(), nth: i(&f[2]) * total / 10000, kind: i(&f[0]) as i32, arg: i(&f[3]), sticky: false });
        let out = run(a.clone(), sim, &d)?;
        if out.crashed() {
            o.nontrivial = true;
            o.add("crashes_resumed", 1);
            continue;
        }
        let res = need(&out)?;
        if !cmp(&mut o, "a resumed process", &res) {
            return Ok(o);
        }
    }
    if !arr(&c["crash"]).is_empty() {
        let res = need(&run(a, cfg(c), &d)?)?;
        cmp(&mut o, "the process after the crashes", &res);
        o.add("steps_after_resume", arr(&res["rows"]).len() as u64);
    }
    o.add("steps", rows.len() as u64);
    Ok(o)
}

// ------------------------------------------------------------------ R10
fn gen_r10(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let k = r.r(2, 4);
    let runs: Vec<Value> = (0..k)
        .map(|_| {
            let opt = Opt { solar: r.p(35), max_spaces: 2, max_walls: 3, ..Opt::default() };
            let mut c = base_case_opt(r, if tier == Tier::Quick { 5 } else { 14 }, opt);
            if i(&c["n"]) > 12 {
                c["n"] = json!(6);
            }
            c["ctl"] = json!(r.r(0, 5)); // 0,1 void 2 people 3.. scripts 5 failing script
            c["late"] = json!(r.r(0, 9999));
            c["spl"] = json!(r.p(50));
            c["same"] = json!(r.p(40));
            c["dates"] = json!(r.p(60));
            c["other"] = json!(r.p(50));
            c
        })
        .collect();
    json!({"runs": runs, "serial": r.p(25), "sched": gen_sched(r), "ent": seed32(r) % 1000})
}
fn check_r10(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let d = ctx.scratch();
    let mut jobs = vec![];
    let mut alone = vec![];
    let mut longest = 0i64;
    let mut first: Option<Value> = None;
    for (k, q) in arr(&c["runs"]).iter().enumerate() {
        let mut q = q.clone();
        if i(&q["w"]["n"]) < 2 {
            q["w"]["n"] = json!(2);
        }
        if let (Some(f), true) = (&first, q["same"].as_bool().unwrap_or(false)) {
            // the same building under another weather or control
            q["b"] = f["b"].clone();
            if q["other"].as_bool().unwrap_or(false) {
                // not quite: the same names and shapes, other constructions and sizes
                for w in q["b"]["walls"].as_array_mut().unwrap() {
                    w["c"] = json!(i(&w["c"]) + 1);
                }
                for s in q["b"]["spaces"].as_array_mut().unwrap() {
                    s["vol"] = json!(i(&s["vol"]) + 9);
                }
                q["b"]["terrain"] = json!(i(&q["b"]["terrain"]) + 1);
            }
        }
        if let (Some(f), true) = (&first, q["dates"].as_bool().unwrap_or(false)) {
            // the same dates under another weather
            for x in ["start", "step", "n"] {
                q["w"][x] = f["w"][x].clone();
            }
        }
        first.get_or_insert(q.clone());
        let e = ctx.scratch();
        let bl = put_inputs(&q, &e);
        let m = format!("m{k}.{}", if q["spl"].as_bool().unwrap_or(false) { "spl" } else { "json" });
        d.write(&m, if m.ends_with("spl") { spl(&bl.model) } else { json_ordered(&bl.model) });
        d.write(&format!("w{k}.sw"), e.read("w.sw").unwrap_or_default());
        let ctl = match i(&q["ctl"]) {
            0 | 1 => "void".to_string(),
            2 => "people".into(),
            x => {
                let s = if x == 5 { "let l = space(0);\nif l.dry_bulb_temperature != 22.0 { throw \"enough\"; }\nlet zz = 1;\n".to_string() } else { script(x - 2, &bl) };
                d.write(&format!("c{k}.rhai"), s);
                format!("c{k}.rhai")
            }
        };
        let job = json!({"model": m, "weather": format!("w{k}.sw"), "n": i(&q["n"]).clamp(1, 60), "control": ctl});
        let out = ctx.lib("multi", json!({"jobs": [job], "serial": true}), cfg(c), &d)?;
        let r = need(&out)?;
        longest = longest.max(out.head.vtime_ns as i64);
        alone.push(r["runs"][0].clone());
        let mut job = job;
        job["delay_ns"] = json!(i(&q["late"]));
        jobs.push(job);
    }
    if jobs.is_empty() {
        return Ok(o);
    }
    let serial = c["serial"].as_bool().unwrap_or(false);
    for (k, j) in jobs.iter_mut().enumerate() {
        let l = i(&j["delay_ns"]);
        j["delay_ns"] = if serial || k == 0 { json!(0) } else { json!(l * longest / 10000) };
    }
    let sim = if serial { cfg(c) } else { let mut s = sched_cfg(c, cfg(c)); s.step_limit = 4_000_000_000; s };
    let out = ctx.lib("multi", json!({"jobs": jobs, "serial": serial}), sim, &d)?;
    o.nontrivial = jobs.len() > 1 && (serial || out.head.switches >= 4);
    o.signature = format!("{} {} q{} {:?}", jobs.len(), serial, c["sched"]["quantum"], arr(&c["runs"]).iter().map(|q| (i(&q["ctl"]), i(&q["n"]), arr(&q["b"]["walls"]).len())).collect::<Vec<_>>());
    if let Some(s) = out.stuck() {
        o.v(format!("r10-{s}"), format!("the simulations did not finish: {}", out.note));
        return Ok(o);
    }
    let res = need(&out)?;
    for (k, r) in arr(&res["runs"]).iter().enumerate() {
        if r["res"] != alone[k]["res"] || r["err"] != alone[k]["err"] {
            o.v("r10-outcome", format!("simulation {k} of {} ended with {} {}, alone with {} {}", jobs.len(), r["res"], r["err"], alone[k]["res"], alone[k]["err"]));
            return Ok(o);
        }
        if r["out"] != alone[k]["out"] {
            o.v("r10-differs", format!("simulation {k} of {}: {}", jobs.len(), first_diff(r["out"].as_str().unwrap_or(""), alone[k]["out"].as_str().unwrap_or(""))));
            return Ok(o);
        }
        o.add(&format!("ended_{}", r["res"].as_str().unwrap_or("?")), 1);
    }
    Ok(o)
}
