//! R04 control scripts read and write the state faithfully; R12 thermostats obey their rule.
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::prog::*;
use crate::rng::*;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "R04",
            gen: gen_r04,
            check: check_r04,
            quick: 1200,
            thorough: 100000,
            rule: "each case: a seeded building and weather controlled by a random script that reads properties by name or index and sets operational properties, possibly failing at a chosen step (unknown name, index out of range, negative, wrong type, property without value, thrown, not a unit value, syntax error); the table is compared with a reference loop that executes the same program natively on the state vector; non-trivial when the program has at least one statement that applies or an injected failure",
            real: &["simple::run_simulation::run_rhai", "RhaiControlScript, rhai engine, derived control API", "MultiphysicsModel and all physics crates", "bin/simple.rs main (failing scripts)"],
            stub: &["native interpreter of the program (oracle)", "scheduler, clock, entropy"],
            assumptions: &["open fractions are kept between 0 and 1 by the program"],
        },
        Prop {
            id: "R12",
            gen: gen_r12,
            check: check_r12,
            quick: 1800,
            thorough: 60000,
            rule: "each case: a seeded building with one to four thermostats, weather history and disturbances (devices, lamps and windows forced to other values between steps), run with the occupants' control; every call is compared with the thermostat rule over the recorded state before and after; non-trivial when at least one device changed its output during the run",
            real: &["simple::run_simulation::run", "OccupantBehaviour", "MultiphysicsModel and all physics crates", "bin/simple.rs main (--control people)"],
            stub: &["recording controller around OccupantBehaviour", "thermostat rule (oracle)", "scheduler, clock, entropy"],
            assumptions: &["a device without its space, setpoint or power keeps what it has"],
        },
    ]
}

// ------------------------------------------------------------------ R04
const BAD: i64 = 17;
/// An access to something that does not exist: [kind of object] x [form].
fn bad_ref(k: i64, bl: &Built) -> String {
    let (kind, list) = [("space", "spaces"), ("surface", "surfaces"), ("fenestration", "fenestrations"), ("hvac", "hvacs"), ("luminaire", "luminaires")][(k % 5) as usize];
    let names: Vec<&str> = arr(&bl.model[list]).iter().filter_map(|x| x["name"].as_str()).collect();
    let n = names.len() as i64;
    let of = |q: usize| names.get(q % names.len().max(1)).copied().unwrap_or("thing");
    let name = |s: String| {
        let mut s = s;
        while names.contains(&s.as_str()) {
            s.push('.');
        }
        format!("let q = {kind}({s:?});")
    };
    match k / 5 % 14 {
        0 => format!("let q = {kind}(-1);"),
        1 => format!("let q = {kind}({});", -n.max(1)),
        2 => format!("let q = {kind}({});", -n - 1),
        3 => format!("let q = {kind}({n});"),
        4 => format!("let q = {kind}({});", n + 1),
        5 => format!("let q = {kind}({});", 1i64 << 32),
        6 => name(of(0).to_uppercase()),
        7 => name(of(1).to_lowercase()),
        8 => name(format!("{} ", of(2))),
        9 => name(format!(" {}", of(0))),
        10 => name(String::new()),
        11 => name(of(0).chars().take(3).collect()),
        12 => name(format!("{}0", of(0))),
        _ => name("0".into()),
    }
}
fn bad(k: i64, bl: &Built) -> (String, bool) {
    // (statement, fails in any case)
    if k >= 100 {
        return (bad_ref(k - 100, bl), true);
    }
    let s = match k {
        0 => "let q = space(\"no such space\");".into(),
        1 => "let q = space(-1);".into(),
        2 => format!("let q = space({});", bl.ns),
        3 => "let q = space(9223372036854775807);".into(),
        4 => "throw \"enough\";".into(),
        5 => "let q = space(0).ventilation_volume;".into(),
        6 => "let q = space(0).no_such_property;".into(),
        7 => "let q = 1 / 0;".into(),
        8 => format!("let q = surface({});", bl.nsurf),
        9 => format!("let q = hvac({});", bl.hvac.len()),
        10 => format!("let q = luminaire({});", bl.nlum),
        11 => format!("let q = fenestration({});", bl.nfen),
        12 => "let q = hvac(\"nothing\");".into(),
        13 if bl.nlum > 0 => "let q = luminaire(0); q.power_consumption = \"text\";".into(),
        14 => "let q = fenestration(-7);".into(),
        15 => "let q = luminaire(-2);".into(),
        16 => "let q = not_a_function(1);".into(),
        _ => "throw 12;".into(),
    };
    (s, true)
}
fn gen_r04(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let mut c = base_case(r, if tier == Tier::Quick { 12 } else { 50 });
    if r.p(60) {
        c["b"]["out"] = json!([]);
    }
    for w in c["b"]["walls"].as_array_mut().unwrap() {
        if r.p(25) {
            w["win"] = json!(r.r(1, 4));
        }
        // a hole has no temperatures a script could read
        w["hole"] = json!(false);
    }
    c["prog"] = gen_prog(r);
    c["fail"] = if r.p(35) { json!([r.r(0, 12), if r.p(60) { 100 + r.r(0, 69) } else { r.r(0, BAD + 2) }]) } else { Value::Null };
    c["probe"] = json!(r.p(40));
    c["long"] = if r.p(12) { json!([*r.pick(&[0, 0, 300, 45000]), *r.pick(&[0, 12, 28]), r.r(0, 40)]) } else { Value::Null };
    if i(&c["long"][0]) > 1000 {
        c["n"] = json!(1);
        c["w"]["n"] = json!(2);
    }
    c["once"] = json!(r.p(40));
    c["research"] = json!(r.p(50));
    c["cli"] = json!(r.p(40));
    c["spl"] = json!(r.p(50));
    c
}
fn check_r04(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let mut c = c.clone();
    if i(&c["w"]["n"]) < 2 {
        c["w"]["n"] = json!(2);
    }
    let fail = c["fail"].is_array();
    if fail && arr(&c["b"]["lum"]).is_empty() {
        c["b"]["lum"] = json!([{"s":0,"p":100}]);
    }
    let c = &c;
    let d = ctx.scratch();
    let bl = put_inputs(c, &d);
    let n = (i(&c["n"]).max(1) as usize).min(60);
    let st = stmts(&c["prog"], &bl);
    let (step, kind) = (i(&c["fail"][0]).max(0), i(&c["fail"][1]));
    // long scripts: a counting loop, a deep expression, a recursive function
    let mut text = if c["long"].is_array() {
        let (l, e, f) = (i(&c["long"][0]), un(&c["long"][1]), i(&c["long"][2]) % 20);
        format!(
            "fn down(x) {{ if x <= 0 {{ 0 }} else {{ 1 + down(x - 1) }} }}\nlet q = 0;\nfor z in 0..{l} {{ q += 1; }}\nq = {}q{};\nif q != {} || down({f}) != {f} {{ throw \"the script was not executed as written\"; }}\n",
            "(1 + ".repeat(e),
            ")".repeat(e),
            l + e as i64
        )
    } else {
        String::new()
    };
    text.push_str(&script_of(&st));
    let mut prog = c["prog"].clone();
    let mut at_step = step;
    if fail {
        // the first lamp counts the steps; it is left alone by the rest
        if kind == BAD {
            text = format!("5\n");
            at_step = 0;
        } else if kind == BAD + 1 {
            text = "let x = (1 + ;\n".into();
            at_step = -1;
        } else {
            prog = json!(arr(&prog).iter().filter(|s| i(&s[0]) != 0).cloned().collect::<Vec<_>>());
            let at = 3.0 * step as f64;
            text = if c["once"].as_bool().unwrap_or(false) {
                // fails only the first time that it is run at that step
                format!(
                    "let lamp0 = luminaire(0);\nlet count = lamp0.power_consumption;\nlamp0.power_consumption = count + 3;\nif count > {:?} && count < {:?} {{ {} }}\n{}",
                    at - 1.0,
                    at + 1.0,
                    bad(kind, &bl).0,
                    script_of(&stmts(&prog, &bl))
                )
            } else {
                format!(
                "let lamp0 = luminaire(0);\nif lamp0.power_consumption > {:?} {{ {} }}\nlamp0.power_consumption = lamp0.power_consumption + 3;\n{}",
                at - 1.0,
                bad(kind, &bl).0,
                script_of(&stmts(&prog, &bl))
                )
            };
        }
    }
    if c["probe"].as_bool().unwrap_or(false) && kind != BAD && !(fail && kind == BAD + 1) {
        // nothing of this exists: each attempt must fail
        let mut pre = String::from("let taken = 0;\n");
        for k in 0..70 {
            pre.push_str(&format!("try {{ {} taken = {}; }} catch {{ }}\n", bad_ref(k, &bl), k + 1));
        }
        pre.push_str("if taken > 0 { throw `access ${taken} succeeded`; }\n");
        text = format!("{pre}{text}");
    }
    d.write("c.rhai", &text);
    let mut ra = json!({"model": bl.model, "n": n, "control": "void", "w": c["w"], "b": c["b"], "prog": prog});
    if fail {
        ra["cmds"] = json!((0..2000).map(|k| json!([k, 0, 0, 3 * (k + 1)])).collect::<Vec<_>>());
    }
    let Some(refr) = refrun(ctx, &mut o, ra, c, &d)? else { return Ok(o) };
    let total = arr(&refr["rows"]).len() as i64;
    o.nontrivial = !st.is_empty() || fail;
    o.signature = format!("{:?} fail{:?} n{n}", st.iter().map(|s| (format!("{:?}", s.t), s.src.as_ref().map(|x| format!("{:?}", x.0)), s.int)).collect::<Vec<_>>(), c["fail"]);
    // in an optional step the script may or may not run
    let will = fail && at_step < sure_rows(&refr, n, span(&c["w"])) as i64;
    let want = if will { Some(at_step.max(0) as usize) } else { None };
    let (ok, out, err);
    if c["cli"].as_bool().unwrap_or(false) {
        let ns = n.to_string();
        let mut a = vec!["-i", if c["spl"].as_bool().unwrap_or(false) { "model.spl" } else { "model.json" }, "-w", "w.sw", "-n", &ns, "-c", "c.rhai", "-o", "out.csv"];
        if c["research"].as_bool().unwrap_or(false) {
            a.push("-r");
        }
        let r = ctx.cli("simple", &a, cfg(c), &d)?;
        if let Some(s) = r.stuck() {
            o.v(format!("r04-{s}"), format!("the run did not finish: {}", r.note));
            return Ok(o);
        }
        if r.exit != Some(0) && r.exit != Some(1) {
            o.v("r04-panic", format!("the run ended with {}: {}", r.exit_desc(), r.err_text()));
            return Ok(o);
        }
        ok = r.exit == Some(0);
        out = d.text("out.csv");
        err = r.err_text();
    } else {
        let a = json!({"model": bl.model, "weather": "w.sw", "n": n, "control": "c.rhai", "research": c["research"], "sink": {}});
        let out_ = ctx.lib("sim", a, cfg(c), &d)?;
        if let Some(s) = out_.stuck() {
            o.v(format!("r04-{s}"), format!("the run did not finish: {}", out_.note));
            return Ok(o);
        }
        let r = need(&out_)?;
        if r["res"] == "panic" {
            o.v("r04-panic", format!("the run panicked: {}", r["err"]));
            return Ok(o);
        }
        ok = r["res"] == "ok";
        out = r["out"].as_str().unwrap_or("").to_string();
        err = r["err"].to_string();
    }
    if ok && will {
        o.v("r04-error-ignored", format!("the script fails at step {at_step} but the run reported success: {text}"));
        return Ok(o);
    }
    // a row that may or may not exist may also be where the failure is
    if !ok && !will && !(fail && at_step <= total) {
        o.v("r04-failed", format!("a correct script made the run fail: {err}\n{text}"));
        return Ok(o);
    }
    if at_step < 0 && will {
        if out.lines().count() > 1 {
            o.v("r04-rows", "a script that cannot be compiled produced rows");
        }
        return Ok(o);
    }
    let want = if !ok && fail && want.is_none() { Some(at_step.max(0) as usize) } else { want };
    compare_table(&mut o, "r04", &out, &refr, &bl.model, n, span(&c["w"]), want);
    for v in o.violations.iter_mut() {
        v.detail.push_str(&format!("\nscript:\n{text}"));
    }
    Ok(o)
}

// ------------------------------------------------------------------ R12
/// In watts, or (negative) in thousandths of a watt
fn gen_power(r: &mut Rng) -> i64 {
    match r.n(8) {
        0 => -r.r(1, 3000),
        1 => 0,
        2 => r.r(3000, 60000),
        _ => r.r(1, 60) * 50,
    }
}
fn gen_r12(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let mut c = base_case(r, if tier == Tier::Quick { 24 } else { 90 });
    let ns = arr(&c["b"]["spaces"]).len() as i64;
    let mut hv = vec![];
    for _ in 0..r.r(1, 4) {
        let hs = r.r(10, 26);
        // sometimes the two setpoints meet
        let cs = if r.p(15) { hs } else { hs + r.r(1, 9) };
        hv.push(json!({"k": r.r(0, 2).min(1), "s": r.r(0, ns - 1), "hp": gen_power(r), "cp": gen_power(r), "hs": hs, "cs": cs, "m": r.r(0, 8), "half": r.p(40)}));
    }
    c["b"]["hvac"] = json!(hv);
    if r.p(60) {
        c["b"]["out"] = json!([]);
    }
    if r.p(60) {
        c["w"]["kind"] = json!(*r.pick(&[1, 2, 2, 3]));
    }
    c["cmds"] = if r.p(40) { gen_cmds(r, 20) } else { json!([]) };
    c["cli"] = json!(r.p(25));
    c
}
fn check_r12(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let mut c = c.clone();
    if i(&c["w"]["n"]) < 2 {
        c["w"]["n"] = json!(2);
    }
    let c = &c;
    let d = ctx.scratch();
    let mut bl = put_inputs(c, &d);
    // more incomplete devices than the shared generator makes
    for (k, h) in arr(&c["b"]["hvac"]).iter().enumerate() {
        let x = &mut bl.model["hvacs"][k];
        if h["half"].as_bool().unwrap_or(false) {
            for f in ["heating_setpoint", "cooling_setpoint"] {
                if let Some(v) = x[f].as_f64() {
                    x[f] = json!(v + 0.5);
                }
            }
        }
        let drop = match i(&h["m"]) {
            3 => "heating_setpoint",
            4 => "max_heating_power",
            5 => "cooling_setpoint",
            6 => "max_cooling_power",
            _ => "",
        };
        if !drop.is_empty() {
            x.as_object_mut().map(|m| m.remove(drop));
        }
    }
    d.write("model.json", json_ordered(&bl.model));
    d.write("model.spl", spl(&bl.model));
    let n = (i(&c["n"]).max(1) as usize).min(60);
    let hv = arr(&bl.model["hvacs"]).to_vec();
    // what a device must deliver; None: keeps what it has
    let rule = |h: &Value, t: f64, now: f64| -> f64 {
        let heat = h["heating_setpoint"].as_f64().zip(h["max_heating_power"].as_f64());
        let cool = if h["type"] == "IdealHeaterCooler" { h["cooling_setpoint"].as_f64().zip(h["max_cooling_power"].as_f64()) } else { None };
        match (heat, cool) {
            (None, None) => now,
            (h, c) => match (h, c) {
                (_, Some((s, p))) if t > s => -p,
                (Some((s, p)), _) if t < s => p,
                _ => 0.0,
            },
        }
    };
    if c["cli"].as_bool().unwrap_or(false) {
        // the tool: rows follow from the temperature of the row before
        let ns = n.to_string();
        let mut m = bl.model.clone();
        m["outputs"] = json!([]);
        d.write("model.json", json_ordered(&m));
        let r = ctx.cli("simple", &["-i", "model.json", "-w", "w.sw", "-n", &ns, "-c", "people", "-o", "out.csv"], cfg(c), &d)?;
        if r.exit != Some(0) {
            base_failed(ctx, &mut o, c, &d, &bl, true, format!("the run failed: {} {}", r.exit_desc(), r.err_text()))?;
            return Ok(o);
        }
        let t = match parse_table(&d.text("out.csv")) {
            Ok(t) => t,
            Err(e) => {
                o.v("r12-malformed", e);
                return Ok(o);
            }
        };
        let col = |k: &str, n: &Value| t.cols.iter().position(|x| *x == json!({k: n}).to_string());
        let mut changes = 0;
        for h in &hv {
            let (Some(a), Some(b)) = (col("HeatingCoolingPowerConsumption", &h["name"]), col("SpaceDryBulbTemperature", &h["target_space"])) else {
                o.v("r12-columns", format!("no columns for {}", h["name"]));
                return Ok(o);
            };
            let mut last = 0.0f64;
            for k in 0..t.rows.len() {
                let temp: f64 = if k == 0 { 22.0 } else { t.rows[k - 1].1[b].parse().unwrap_or(f64::NAN) };
                let got: f64 = t.rows[k].1[a].parse().unwrap_or(f64::NAN);
                // at a setpoint to the last printed decimal either side may apply
                let near = k > 0 && [&h["heating_setpoint"], &h["cooling_setpoint"]].iter().any(|s| s.as_f64().map_or(false, |s| (s - temp).abs() < 0.00051));
                let want = rule(h, temp, last);
                if !near && (got - want).abs() > 0.0006 {
                    o.v("r12-rule", format!("{}: {} delivers {got} at {temp} C, its rule gives {want} ({h})", t.rows[k].0, h["name"]));
                    return Ok(o);
                }
                if (got - last).abs() > 1e-9 {
                    changes += 1;
                }
                last = got;
            }
        }
        o.nontrivial = changes > 0;
        o.signature = format!("cli {:?} ch{}", hv.iter().map(|h| (h["type"] == "ElectricHeater", i(&c["b"]["hvac"][0]["m"]))).collect::<Vec<_>>(), changes.min(9));
        o.add("output_changes", changes);
        return Ok(o);
    }
    let args = json!({"model": bl.model, "weather": "w.sw", "n": n, "control": "probe_people", "cmds": c["cmds"], "sink": {}, "snap": true});
    let out = ctx.lib("sim", args, cfg(c), &d)?;
    let run = need(&out)?;
    if run["res"] != "ok" {
        base_failed(ctx, &mut o, c, &d, &bl, true, format!("the run failed: {}", run["err"]))?;
        return Ok(o);
    }
    let names: Vec<String> = arr(&run["elements"]).iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
    let f = |v: &Value| f64::from_bits(v.as_u64().unwrap_or(0));
    let pos = |k: &str, n: &Value| names.iter().position(|x| *x == json!({k: n}).to_string());
    let mut changes = 0u64;
    let mut prev: Vec<f64> = vec![];
    for k in 0..arr(&run["before"]).len() {
        let (b, a) = (arr(&run["before"][k]), arr(&run["after"][k]));
        let forced = arr(&c["cmds"]).iter().any(|x| i(&x[0]) == k as i64);
        let mut now = vec![];
        let mut touched = vec![];
        for h in &hv {
            let (Some(p), Some(t)) = (pos("HeatingCoolingPowerConsumption", &h["name"]), pos("SpaceDryBulbTemperature", &h["target_space"])) else {
                o.v("r12-columns", format!("the state has nothing for {}", h["name"]));
                return Ok(o);
            };
            touched.push(p);
            let want = rule(h, f(&b[t]), f(&b[p]));
            if !forced && f(&a[p]) != want {
                o.v("r12-rule", format!("step {k}: {} delivers {} at {} C, its rule gives {want} ({h})", h["name"], f(&a[p]), f(&b[t])));
                return Ok(o);
            }
            now.push(f(&a[p]));
        }
        if !forced {
            if let Some(j) = (0..b.len()).find(|j| !touched.contains(j) && a[*j] != b[*j]) {
                o.v("r12-other", format!("step {k}: the control changed {} from {} to {}", names[j], f(&b[j]), f(&a[j])));
                return Ok(o);
            }
        }
        if k > 0 && now != prev {
            changes += 1;
        }
        prev = now;
    }
    o.nontrivial = changes > 0;
    o.signature = format!("lib {:?} ch{}", arr(&c["b"]["hvac"]).iter().map(|h| (i(&h["k"]), i(&h["m"]), i(&h["s"]))).collect::<Vec<_>>(), changes.min(9));
    o.add("output_changes", changes);
    o.add("control_calls", arr(&run["before"]).len() as u64);
    Ok(o)
}
