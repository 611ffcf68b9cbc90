//! R14 every step follows the heat balance of the building.
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R14",
        gen: gen_r14,
        check: check_r14,
        quick: 3000,
        thorough: 400000,
        rule: "each case: a seeded building, weather (with sensor faults: jumping temperatures, gusts, spinning wind, sky temperatures), command history and sudden changes of the state; every step of the coupled model is compared, quantity by quantity, with a reference of one step written from the documented equations; non-trivial when at least one step was compared",
        real: &["MultiphysicsModel, SolarModel, AirFlowModel, ThermalModel (new, allocate_memory, march)", "Model, SimulationState, geometry, weather, calendar", "OccupantBehaviour"],
        stub: &["stepping loop", "weather (interpolation and sensor faults of the harness)", "scheduler, clock, entropy"],
        assumptions: &["what a surface sees of each patch of sky is taken from the optical data of the model; without them sunlight is bounded only", "quantities that change by more than 1e-8 under a perturbation of 1e-12 are not compared"],
    }]
}

fn gen_r14(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let opt = Opt { solar: r.p(30), outputs: false, max_walls: 6, ..Opt::default() };
    let mut c = base_case_opt(r, if tier == Tier::Quick { 16 } else { 40 }, opt);
    if r.p(60) {
        c["b"]["solar"] = json!({"pts": r.r(1, 3), "div": r.r(1, 6), "path": "optical.json"});
    }
    let steps = r.r(2, if tier == Tier::Quick { 14 } else { 60 });
    for k in 0..arr(&c["b"]["walls"]).len() {
        if r.p(30) {
            c["b"]["walls"][k]["flip"] = json!(true);
        }
    }
    if r.p(60) {
        c["b"]["bld"] = json!({"sh": r.r(0, 4), "st": r.r(0, 4), "cs": if r.p(30) { r.r(1, 60) } else { 0 }, "cw": if r.p(30) { r.r(1, 60) } else { 0 }});
    }
    c["steps"] = json!(steps);
    c["people"] = json!(r.p(30));
    c["cmds"] = gen_cmds(r, steps);
    c["kick"] = json!((0..r.r(0, 5)).map(|_| json!([r.r(0, steps), r.r(0, 3), r.r(0, 7), r.r(-200, 600)])).collect::<Vec<_>>());
    c["jumps"] = json!((0..r.r(0, 4)).map(|_| json!([r.r(0, 120), r.r(0, 60), r.r(0, 4), r.r(-300, 500)])).collect::<Vec<_>>());
    c
}
fn check_r14(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let d = ctx.scratch();
    let bl = put_inputs(c, &d);
    let a = json!({"model": bl.model, "doc": bl.model, "w": c["w"], "n": i(&c["n"]).clamp(1, 60), "steps": i(&c["steps"]).max(1), "people": c["people"], "cmds": c["cmds"], "kick": c["kick"], "jumps": c["jumps"]});
    let res = need(&ctx.lib("phys", a, cfg(c), &d)?)?;
    if res["panic"].is_string() {
        o.add("physics_diverged", 1);
        return Ok(o);
    }
    if let Some(e) = res["err"].as_str() {
        o.v("r14-error", format!("the building cannot be simulated: {e}"));
        return Ok(o);
    }
    o.nontrivial = un(&res["checked"]) > 0;
    for q in ["steps", "checked", "skipped", "sunny", "murky", "seen"] {
        o.add(q, un(&res[q]) as u64);
    }
    o.add("state_kicks", arr(&c["kick"]).len() as u64);
    o.add("weather_faults", arr(&c["jumps"]).len() as u64);
    o.signature = format!("{} {:?} {:?} {:?}", res["sub"], c["steps"], c["kick"], arr(&c["b"]["walls"]).iter().map(|w| (i(&w["c"]), i(&w["o"]), i(&w["other"]), i(&w["win"]))).collect::<Vec<_>>());
    let b = &res["bad"];
    if b.is_object() {
        if std::env::var("VSIM_DEBUG").is_ok() {
            for q in arr(&b["all"]) {
                eprintln!("{q}");
            }
        }
        o.v("r14-balance", format!("step {}: {} is {}, the balance gives {}", b["step"], b["what"].as_str().unwrap_or("?"), b["got"], b["want"]));
    }
    Ok(o)
}
