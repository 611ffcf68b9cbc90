//! R08 the command line tools finish, say so, and keep their output clean under any schedule.
use super::par::*;
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R08",
        gen: gen_r08,
        check: check_r08,
        quick: 900,
        thorough: 40000,
        rule: "each case: one run of simple, spict or sfluxmtx with a pool of 1 to 6 workers under a seeded schedule with spurious wake-ups, slow (stalled) threads and clock jumps, compared with the run on one worker; non-trivial when the schedule switched threads at least 4 times",
        real: &["bin/simple.rs, bin/spict.rs, bin/sfluxmtx.rs main", "all library crates", "rayon thread pool, std streams and their locks"],
        stub: &["scheduler (futex, thread, sleep calls are simulated)", "clock, entropy"],
        assumptions: &["a run that needs more than 50 times the steps of the undisturbed run, or in which every thread waits, does not finish"],
    }]
}

fn gen_r08(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let tool = *r.pick(&[0, 0, 0, 0, 1, 1, 2]);
    let mut c = json!({"tool": tool, "sched": gen_sched(r), "ent": seed32(r) % 1000});
    c["sched"]["workers"] = json!(r.r(1, 6));
    let mut fs = vec![];
    if r.p(35) {
        for _ in 0..r.r(1, 3) {
            fs.push(json!([*r.pick(&[0, 1]), r.r(0, 40), r.r(1, 4000)]));
        }
    }
    if r.p(25) {
        // the wall clock is set back (seconds to days)
        fs.push(json!([1, r.r(0, 30), -r.r(1, 4000) * *r.pick(&[1, 1000, 50000])]));
    }
    c["faults"] = json!(fs);
    match tool {
        0 => {
            let b = base_case_opt(r, if tier == Tier::Quick { 5 } else { 24 }, Opt { solar: true, ..Opt::default() });
            c["b"] = b["b"].clone();
            c["w"] = b["w"].clone();
            c["n"] = json!(r.r(1, 4));
            if r.p(12) {
                // more than the allowed number of steps
                c["n"] = json!(r.r(58, 75));
                c["w"]["n"] = json!(2);
            }
            c["ctl"] = json!(r.r(0, 4));
            c["file"] = json!(r.p(40));
            c["spl"] = json!(r.p(40));
        }
        _ => {
            c["sc"] = gen_scene(r, 6, tool == 1);
            if r.p(40) {
                // flush surfaces: a lamp in the plane of a ceiling
                for q in c["sc"].as_array_mut().unwrap() {
                    q.as_array_mut().unwrap().push(json!(r.r(1, 3)));
                    if r.p(70) {
                        q[0] = json!(2);
                        q[1] = json!(r.r(1, 2));
                    }
                }
            }
            c["cam"] = json!({"p": [r.r(-9, 9), r.r(-14, -7), r.r(-5, 5)], "d": [r.r(-2, 2), r.r(3, 6), r.r(-2, 2)], "fov": r.r(30, 80), "x": r.r(1, 30), "y": r.r(1, 14)});
            c["samples"] = json!(r.r(1, 4));
            c["shadow"] = json!(r.r(1, 3));
            c["depth"] = json!(r.r(0, 3));
        }
    }
    c
}
fn check_r08(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let tool = i(&c["tool"]);
    let (d, e) = (ctx.scratch(), ctx.scratch());
    let num = |v: &Value| v.to_string();
    let (name, mut argv): (&str, Vec<String>) = match tool {
        0 => {
            let bl = put_inputs(c, &d);
            put_inputs(c, &e);
            let mut a: Vec<String> = ["-i", if c["spl"].as_bool().unwrap_or(false) { "model.spl" } else { "model.json" }, "-w", "w.sw", "-n"].map(String::from).to_vec();
            a.push(i(&c["n"]).max(1).to_string());
            match i(&c["ctl"]) {
                0 => {}
                1 => a.extend(["-c".into(), "people".into()]),
                k => {
                    d.write("c.rhai", script(k - 2, &bl));
                    e.write("c.rhai", script(k - 2, &bl));
                    a.extend(["-c".into(), "c.rhai".into()])
                }
            }
            ("simple", a)
        }
        1 => {
            if arr(&c["sc"]).is_empty() {
                return Ok(o);
            }
            for q in [&d, &e] {
                q.write("s.rad", rad(&c["sc"]));
            }
            let cam = &c["cam"];
            let t = |v: &Value| format!("{} {} {}", v[0], v[1], v[2]);
            let mut a: Vec<String> = ["-i", "s.rad", "-o", "out.hdr"].map(String::from).to_vec();
            for (k, v) in [("-b", num(&c["depth"])), ("-s", i(&c["shadow"]).max(1).to_string()), ("-a", i(&c["samples"]).max(1).to_string()), ("-x", i(&cam["x"]).max(1).to_string()), ("-y", i(&cam["y"]).max(1).to_string()), (if i(&cam["x"]) % 2 == 0 { "-h" } else { "--view_horizontal" }, num(&cam["fov"]))] {
                a.push(k.into());
                a.push(v);
            }
            a.push(format!("--view-point={}", t(&cam["p"])));
            a.push(format!("--view-direction={}", t(&cam["d"])));
            ("spict", a)
        }
        _ => {
            for q in [&d, &e] {
                q.write("s.rad", rad(&c["sc"]));
            }
            ("sfluxmtx", ["-i", "s.rad", "-o", "out.mtx", "-a", &(i(&c["samples"]).max(1) * 5).to_string(), "-b", &num(&c["depth"])].map(String::from).to_vec())
        }
    };
    let outfile = match tool {
        0 => "out.csv",
        1 => "out.hdr",
        _ => "out.mtx",
    };
    // reference: one worker, undisturbed, to a file
    let mut bargv = argv.clone();
    if tool == 0 {
        bargv.extend(["-o".into(), outfile.into()]);
    }
    let s: Vec<&str> = bargv.iter().map(|x| x.as_str()).collect();
    let base = ctx.cli(name, &s, SimCfg { step_limit: 1_500_000_000, ..cfg(c) }, &d)?;
    o.signature = format!("{name} w{} q{} s{} f{} {}", c["sched"]["workers"], c["sched"]["quantum"], c["sched"]["strategy"], c["file"], i(&c["sched"]["seed"]) % 8);
    if let Some(s) = base.stuck() {
        o.v(format!("tool-{s}"), format!("{name} on one worker, undisturbed, did not finish: {}", base.note));
        return Ok(o);
    }
    if base.exit != Some(0) {
        // valid inputs; but some walls with several windows cannot be meshed, and
        // with too much power for a small insulated room temperatures diverge
        let known = |w: &[&str]| w.iter().any(|w| base.err_text().contains(w));
        if tool == 0 && (base.exit == Some(1) && known(&["riang", "olygon"]) || base.exit == Some(101) && known(&["is_nan()", "is NaN"])) {
            o.add("workload_rejected", 1);
            return Ok(o);
        }
        o.v("tool-failed", format!("{name} on one worker, undisturbed, ended with {}: {}", base.exit_desc(), base.err_text()));
        return Ok(o);
    }
    let full = d.read(outfile).unwrap_or_default();
    let tofile = tool != 0 || c["file"].as_bool().unwrap_or(false);
    if tool == 0 && tofile {
        argv.extend(["-o".into(), outfile.into()]);
    }
    let mut sim = sched_cfg(c, cfg(c));
    sim.step_limit = base.head.steps.saturating_mul(50).max(50_000_000);
    for f in arr(&c["faults"]) {
        let kind = if i(&f[0]) == 0 { crate::rt::fk::STALL } else { crate::rt::fk::CLOCKJUMP };
        sim.faults.push(Fault { op: crate::rt::op::ANY, label: "*".into(), nth: i(&f[1]), kind, arg: i(&f[2]) * if kind == crate::rt::fk::STALL { 5_000 } else { 1_000_000 }, sticky: false });
    }
    let s: Vec<&str> = argv.iter().map(|x| x.as_str()).collect();
    let run = ctx.cli(name, &s, sim, &e)?;
    o.nontrivial = run.head.switches >= 4;
    if let Some(s) = run.stuck() {
        o.v(format!("tool-{s}"), format!("{name} with {} workers did not finish: {}", c["sched"]["workers"], run.note));
        return Ok(o);
    }
    if run.exit != Some(0) {
        o.v("tool-failed", format!("{name} with {} workers ended with {}: {}", c["sched"]["workers"], run.exit_desc(), run.err_text()));
        return Ok(o);
    }
    let got = if tofile { e.read(outfile).unwrap_or_default() } else { run.stdout.clone() };
    if got != full {
        o.v("tool-output", format!("{name} with {} workers: {} differs from the one-worker result file: {}", c["sched"]["workers"], if tofile { outfile } else { "standard output" }, first_diff(&String::from_utf8_lossy(&got), &String::from_utf8_lossy(&full))));
        return Ok(o);
    }
    if tofile && !run.stdout.is_empty() {
        o.v("tool-stdout", format!("{name} writes its results to a file but also wrote to standard output: {:?}", String::from_utf8_lossy(&run.stdout).chars().take(80).collect::<String>()));
    }
    o.add(&format!("runs_{name}"), 1);
    Ok(o)
}
