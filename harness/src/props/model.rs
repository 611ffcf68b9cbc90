//! R06 a building that is saved and loaded again is the same building.
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use crate::rt::{fk, op};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R06",
        gen: gen_r06,
        check: check_r06,
        quick: 900,
        thorough: 60000,
        rule: "each case: a seeded building translated by the simple tool one to three times between .json and .spl, the last translation meeting a plan of file faults or a crash; the original and the translated building are compared field by field and simulated; non-trivial when a fault fired or the chain has at least two translations",
        real: &["bin/simple.rs main (--translate and simulation)", "model reading and writing (derive, serde_json, json5), print_to_file, print_to_json_file", "all simulation crates", "std file I/O"],
        stub: &["operating-system file calls (fault-injecting pass-through)", "scheduler, clock, entropy"],
        assumptions: &["a window with a parent surface is saved with the wall already cut", "the name of a model is not part of the .spl format"],
    }]
}

fn gen_r06(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let opt = Opt { solar: r.p(40), outputs: r.p(40), ..Opt::default() };
    let mut c = base_case_opt(r, if tier == Tier::Quick { 6 } else { 24 }, opt);
    c["n"] = json!(r.r(1, 3));
    for w in c["b"]["walls"].as_array_mut().unwrap() {
        if r.p(40) {
            w["par"] = json!(true);
        }
        if r.p(30) {
            w["shape"] = json!(r.r(1, 3));
        }
        if r.p(20) {
            w["two"] = json!(true);
        }
    }
    c["src"] = json!(r.p(50));
    let k = r.r(1, 3);
    c["chain"] = json!((0..k).map(|_| r.p(50)).collect::<Vec<_>>()); // true: .spl
    c["people"] = json!(r.p(40));
    c["deco"] = if r.p(80) { json!(seed32(r)) } else { Value::Null };
    c["stale"] = json!(r.p(40));
    let mut fs = vec![];
    if r.p(80) {
        for _ in 0..r.r(1, 3) {
            let k = *r.pick(&[fk::SHORT, fk::SHORT, fk::EINTR, fk::ERRNO, fk::DISKCAP, fk::DISKCAP, fk::CRASH_BEFORE, fk::CRASH_TORN, fk::CRASH_AFTER]);
            fs.push(json!([k, k == fk::ERRNO && r.p(30), r.r(0, 9999), if k == fk::ERRNO { *r.pick(&[5, 28, 122, 13]) } else { r.r(0, 9999) }]));
        }
    }
    c["faults"] = json!(fs);
    c
}

/// Adds what the shared generator leaves out: optional fields with arbitrary digits, objects nothing refers to, all kinds of operation and infiltration.
fn decorate(m: &mut Value, seed: u64) {
    let mut r = Rng::new(seed);
    // a number with more digits than anyone prints
    fn num(r: &mut Rng, lo: f64, hi: f64) -> Value {
        let q = r.r(0, 1 << 40) as f64 / (1u64 << 40) as f64;
        let v = lo + (hi - lo) * q;
        match r.n(5) {
            0 => json!((v * 100.0).round() / 100.0),
            1 => json!(lo),
            2 => json!(hi),
            _ => json!(v),
        }
    }
    fn opt(r: &mut Rng, x: &mut Value, k: &str, lo: f64, hi: f64) {
        if r.p(60) {
            x[k] = num(r, lo, hi);
        }
    }
    let f = 0.97 + r.r(0, 1 << 30) as f64 / (1u64 << 34) as f64;
    for l in ["surfaces", "fenestrations"] {
        for x in m[l].as_array_mut().into_iter().flatten() {
            for n in x["vertices"].as_array_mut().into_iter().flatten() {
                if let Some(q) = n.as_f64() {
                    *n = json!(q * f);
                }
            }
        }
    }
    for x in m["buildings"].as_array_mut().into_iter().flatten() {
        opt(&mut r, x, "stack_coefficient", 1e-5, 4e-4);
        opt(&mut r, x, "wind_coefficient", 1e-5, 4e-4);
    }
    for k in 0..r.r(0, 2) {
        let mut b = json!({"name": format!("Annex \"{k}\" / {{ü}}")});
        if r.p(50) {
            b["n_storeys"] = json!(r.r(1, 90));
        }
        if r.p(50) {
            b["shelter_class"] = json!(*r.pick(&["NoObstructions", "IsolatedRural", "Urban", "LargeLotUrban", "SmallLotUrban"]));
        }
        opt(&mut r, &mut b, "stack_coefficient", 0.0, 1.0);
        opt(&mut r, &mut b, "wind_coefficient", 0.0, 1.0);
        m["buildings"].as_array_mut().unwrap().push(b);
    }
    for k in 0..r.r(0, 3) {
        let name = format!("spare {k}");
        let s = if r.p(60) {
            let mut s = json!({"type": "Normal", "name": name});
            for (f, lo, hi) in [
                ("thermal_conductivity", 0.01, 5.0),
                ("density", 1.0, 9000.0),
                ("specific_heat_capacity", 100.0, 5000.0),
                ("front_thermal_absorbtance", 0.0, 1.0),
                ("back_thermal_absorbtance", 0.0, 1.0),
                ("front_solar_absorbtance", 0.0, 1.0),
                ("back_solar_absorbtance", 0.0, 1.0),
                ("solar_transmittance", 0.0, 1.0),
                ("front_visible_reflectance", 0.0, 1.0),
                ("back_visible_reflectance", 0.0, 1.0),
                ("visible_transmissivity", 0.0, 1.0),
            ] {
                opt(&mut r, &mut s, f, lo, hi);
            }
            s
        } else {
            json!({"type": "Gas", "name": name, "gas": *r.pick(&["Air", "Argon", "Krypton", "Xenon"])})
        };
        m["substances"].as_array_mut().unwrap().push(s);
        if r.p(60) {
            let t = num(&mut r, 0.0001, 3.0);
            m["materials"].as_array_mut().unwrap().push(json!({"name": format!("spare mat {k}"), "substance": name, "thickness": t}));
            if r.p(60) {
                let l: Vec<String> = (0..r.r(1, 4)).map(|_| format!("spare mat {k}")).collect();
                m["constructions"].as_array_mut().unwrap().push(json!({"name": format!("spare cons {k}"), "materials": l}));
            }
        }
    }
    let purposes = ["Bathroom", "Bedroom", "DiningRoom", "Kitchen", "LivingRoom", "Office", "Storage", "Garage", "Hallway", "Laundry", "Other"];
    for x in m["spaces"].as_array_mut().into_iter().flatten() {
        if r.p(60) {
            x["purposes"] = json!((0..r.r(0, 3)).map(|_| *r.pick(&purposes)).collect::<Vec<_>>());
        }
        if r.p(60) {
            x["storey"] = json!(r.r(0, 40));
        }
        if r.p(60) {
            x["volume"] = num(&mut r, 20.0, 90.0);
        }
        if r.p(60) {
            let v = num(&mut r, 0.001, 0.03);
            x["infiltration"] = match r.n(5) {
                0 => json!({"type": "Constant", "flow": v}),
                1 => json!({"type": "Blast", "flow": v}),
                2 => json!({"type": "Doe2", "flow": v}),
                3 => json!({"type": "DesignFlowRate", "a": num(&mut r, 0.1, 1.0), "b": num(&mut r, 0.0, 0.05), "c": num(&mut r, 0.0, 0.2), "d": num(&mut r, 0.0, 0.02), "phi": v}),
                _ => json!({"type": "EffectiveAirLeakageArea", "area": v}),
            };
        }
    }
    let cats = ["ExteriorWall", "InteriorWall", "GroundFloor", "ExteriorFloor", "InteriorFloor", "Ceiling", "Roof", "Other"];
    for x in m["surfaces"].as_array_mut().into_iter().flatten() {
        if r.p(60) {
            x["category"] = json!(*r.pick(&cats));
        }
        for k in ["precalculated_front_convection_coef", "precalculated_back_convection_coef"] {
            if r.p(15) {
                x[k] = num(&mut r, 1.0, 12.0);
            }
        }
    }
    for x in m["fenestrations"].as_array_mut().into_iter().flatten() {
        if r.p(40) {
            x["category"] = json!(*r.pick(&["Window", "Door", "Opening"]));
        }
        for k in ["precalculated_front_convection_coef", "precalculated_back_convection_coef"] {
            if r.p(15) {
                x[k] = num(&mut r, 1.0, 12.0);
            }
        }
        if r.p(70) {
            let mut op = json!({"type": *r.pick(&["Fixed", "Continuous", "Binary"])});
            let fs: &[&str] = match op["type"].as_str().unwrap() {
                "Fixed" => &["fraction"],
                "Continuous" => &["max", "min"],
                _ => &["open", "closed"],
            };
            for f in fs {
                opt(&mut r, &mut op, f, 0.0, 1.0);
            }
            x["operation"] = op;
        }
    }
    let rooms: Vec<Value> = arr(&m["spaces"]).iter().map(|s| s["name"].clone()).collect();
    for x in m["luminaires"].as_array_mut().into_iter().flatten() {
        opt(&mut r, x, "max_power", 1.0, 900.0);
    }
    for x in m["hvacs"].as_array_mut().into_iter().flatten() {
        let ideal = x["type"] == "IdealHeaterCooler";
        opt(&mut r, x, "max_heating_power", 100.0, 3000.0);
        opt(&mut r, x, "heating_setpoint", 12.0, 21.0);
        if ideal {
            opt(&mut r, x, "max_cooling_power", 100.0, 3000.0);
            opt(&mut r, x, "cooling_setpoint", 22.0, 29.0);
        }
    }
    let mut objects = vec![];
    for k in 0..r.r(0, 3) {
        let mut p = |r: &mut Rng| json!({"x": num(r, -5.0, 5.0), "y": num(r, -5.0, 5.0), "z": num(r, 0.0, 3.0)});
        let mut x = json!({"name": format!("thing {k}"), "dimensions": p(&mut r)});
        for f in ["location", "up", "front"] {
            if r.p(60) {
                x[f] = p(&mut r);
            }
        }
        if r.p(60) {
            x["space"] = r.pick(&rooms).clone();
        }
        if r.p(80) {
            x["specifications"] = match r.n(8) {
                0 => json!({"type": "Chair", "subtype": *r.pick(&["Other", "Dining", "Office", "Stool"]), "arms": *r.pick(&["Existing", "Missing"]), "back": *r.pick(&["Existing", "Missing"]), "legs": *r.pick(&["Four", "Three", "Star", "Other"])}),
                1 => json!({"type": "Sofa", "subtype": *r.pick(&["Other", "Rectangular", "SingleSeat", "LShaped", "LShapedExtension"])}),
                2 => json!({"type": "Storage", "subtype": *r.pick(&["Cabinet", "Shelf"])}),
                3 => json!({"type": "Table", "subtype": *r.pick(&["Other", "Dining", "Coffee"]), "shape": *r.pick(&["Other", "Rectangular", "Circular", "LShaped"])}),
                _ => json!({"type": *r.pick(&["Other", "Bathtub", "Bed", "Dishwasher", "Fireplace", "Oven", "Refrigerator", "Sink", "Stairs", "Stove", "Television", "Toilet", "WasherDryer"])}),
            };
        }
        objects.push(x);
    }
    m["objects"] = json!(objects);
    if r.p(70) {
        let mut s = if m["site_details"].is_object() { m["site_details"].clone() } else { json!({}) };
        opt(&mut r, &mut s, "altitude", 0.0, 2000.0);
        opt(&mut r, &mut s, "latitude", -1.2, 1.2);
        opt(&mut r, &mut s, "longitude", -3.0, 3.0);
        opt(&mut r, &mut s, "standard_meridian", -3.0, 3.0);
        if r.p(40) {
            s["terrain"] = json!(*r.pick(&["Country", "Suburbs", "City", "Ocean", "Urban"]));
        }
        m["site_details"] = s;
    }
}

/// Everything the original says must be said by the copy; returns what is not.
fn lost(a: &Value, b: &Value, path: &str, cut: bool) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                if k == "parent_surface" {
                    continue;
                }
                let empty = v.as_array().map_or(false, |l| l.is_empty());
                match y.get(k) {
                    Some(w) => {
                        if let Some(e) = lost(v, w, &format!("{path}.{k}"), cut) {
                            return Some(e);
                        }
                    }
                    None if empty || v.is_null() => {}
                    None => return Some(format!("{path}.{k} is missing")),
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if cut && path.contains("surfaces") && path.ends_with("vertices") {
                return if y.len() > x.len() { None } else { Some(format!("{path}: the wall of the window was not cut")) };
            }
            if x.len() != y.len() {
                return Some(format!("{path} has {} elements, was {}", y.len(), x.len()));
            }
            for (k, v) in x.iter().enumerate() {
                if let Some(e) = lost(v, &y[k], &format!("{path}[{k}]"), cut) {
                    return Some(e);
                }
            }
            None
        }
        (Value::Number(x), Value::Number(y)) => {
            let (p, q) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            if (p - q).abs() <= 1e-12 * p.abs() {
                None
            } else {
                Some(format!("{path} is {q}, was {p}"))
            }
        }
        _ if a == b => None,
        _ => Some(format!("{path} is {b}, was {a}")),
    }
}
fn compare_models(a: &Value, b: &Value) -> Option<String> {
    for k in ["buildings", "substances", "materials", "constructions", "spaces", "surfaces", "fenestrations", "hvacs", "luminaires", "outputs", "objects"] {
        let (x, y) = (arr(&a[k]), arr(&b[k]));
        if x.len() != y.len() {
            return Some(format!("{} {k}, the original has {}", y.len(), x.len()));
        }
        for (i, p) in x.iter().enumerate() {
            let cut = k == "surfaces" && arr(&a["fenestrations"]).iter().any(|f| f["parent_surface"] == p["name"]);
            if let Some(e) = lost(p, &y[i], &format!("{k}[{i}]"), cut) {
                return Some(e);
            }
        }
    }
    for k in ["site_details", "solar_options"] {
        if !a[k].is_null() {
            if let Some(e) = lost(&a[k], &b[k], k, false) {
                return Some(e);
            }
        }
    }
    None
}

/// First row and column where two tables differ by more than rounding.
fn first_apart(a: &Table, b: &Table, order: &[Option<usize>]) -> Option<(usize, usize, String, String)> {
    for (n, (x, y)) in a.rows.iter().zip(&b.rows).enumerate() {
        for (k, v) in x.1.iter().enumerate() {
            let w = &y.1[order[k].unwrap()];
            let (p, q): (f64, f64) = (v.parse().unwrap_or(f64::NAN), w.parse().unwrap_or(f64::NAN));
            if x.0 != y.0 || !((p - q).abs() <= 0.0011 + 1e-6 * q.abs() || (p.is_nan() && q.is_nan())) {
                return Some((n, k, v.clone(), w.clone()));
            }
        }
    }
    None
}

fn shake(v: &mut Value, r: &mut Rng, eps: f64) {
    match v {
        Value::Object(m) => m.values_mut().for_each(|x| shake(x, r, eps)),
        Value::Array(l) => l.iter_mut().for_each(|x| shake(x, r, eps)),
        Value::Number(n) if n.is_f64() => {
            let f = 1.0 + eps * r.r(-1, 1) as f64;
            *v = json!(n.as_f64().unwrap() * f);
        }
        _ => {}
    }
}

fn check_r06(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let d = ctx.scratch();
    let mut bl = put_inputs(c, &d);
    if let Some(q) = c["deco"].as_u64() {
        decorate(&mut bl.model, q);
    }
    let bl = bl;
    let spl_src = c["src"].as_bool().unwrap_or(false);
    let src = if spl_src { "a.spl" } else { "a.json" };
    d.write("a.spl", spl(&bl.model));
    d.write("a.json", json_ordered(&bl.model));
    let ns = i(&c["n"]).max(1).to_string();
    let people = c["people"].as_bool().unwrap_or(false);
    let sim_of = |f: &str, s: &Scratch, out: &str| -> Result<RunOut, String> {
        let mut a = vec!["-i", f, "-w", weather_name(&c["w"]), "-n", &ns, "-o", out];
        if people {
            a.extend(["-c", "people"]);
        }
        ctx.cli("simple", &a, cfg(c), s)
    };
    let base = sim_of(src, &d, "a.csv")?;
    if base.exit != Some(0) {
        if base.err_text().contains("panicked") || base.exit == Some(101) {
            o.add("physics_diverged", 1);
            return Ok(o);
        }
        o.v("r06-undisturbed", format!("simulating the original failed: {} {}", base.exit_desc(), base.err_text()));
        return Ok(o);
    }
    // the chain of translations
    let mut cur = src.to_string();
    let chain: Vec<bool> = arr(&c["chain"]).iter().map(|x| x.as_bool().unwrap_or(false)).collect();
    let mut last_in = cur.clone();
    for (k, s) in chain.iter().enumerate() {
        let nxt = format!("t{k}.{}", if *s { "spl" } else { "json" });
        let r = ctx.cli("simple", &["-i", &cur, "-t", &nxt], cfg(c), &d)?;
        if let Some(s) = r.stuck() {
            o.v(format!("r06-{s}"), format!("translating {cur} to {nxt} did not finish"));
            return Ok(o);
        }
        if r.exit != Some(0) {
            o.v("r06-translate", format!("translating {cur} to {nxt} failed: {} {}", r.exit_desc(), r.err_text()));
            return Ok(o);
        }
        last_in = cur;
        cur = nxt;
    }
    o.nontrivial = chain.len() >= 2;
    o.signature = format!("{} {:?} {:?} {}", spl_src, chain, arr(&c["faults"]).iter().map(|f| (i(&f[0]), i(&f[2]) / 2500)).collect::<Vec<_>>(), bl.nfen);
    if chain.is_empty() {
        return Ok(o);
    }
    // the same building, field by field
    let as_json = if cur.ends_with(".json") {
        cur.clone()
    } else {
        let r = ctx.cli("simple", &["-i", &cur, "-t", "z.json"], cfg(c), &d)?;
        if r.exit != Some(0) {
            o.v("r06-translate", format!("a translated building ({cur}) cannot be read: {} {}", r.exit_desc(), r.err_text()));
            return Ok(o);
        }
        "z.json".to_string()
    };
    let copy: Value = match serde_json::from_slice(&d.read(&as_json).unwrap_or_default()) {
        Ok(v) => v,
        Err(e) => {
            o.v("r06-json", format!("a translated building is not JSON: {e}"));
            return Ok(o);
        }
    };
    if let Some(e) = compare_models(&bl.model, &copy) {
        o.v("r06-lost", format!("after {:?} from {src} (true: .spl) the building differs: {e}", chain));
        return Ok(o);
    }
    // and the same results
    let re = sim_of(&cur, &d, "b.csv")?;
    if re.exit != Some(0) {
        o.v("r06-resim", format!("the translated building cannot be simulated: {} {} {}", re.exit_desc(), re.note, re.err_text()));
        return Ok(o);
    }
    let (ta, tb) = (parse_table(&d.text("a.csv")), parse_table(&d.text("b.csv")));
    let (ta, tb) = match (ta, tb) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => {
            o.v("r06-table", format!("{:?} {:?}", a.err(), b.err()));
            return Ok(o);
        }
    };
    let order: Vec<Option<usize>> = ta.cols.iter().map(|n| tb.cols.iter().position(|m| m == n)).collect();
    if order.iter().any(|x| x.is_none()) || ta.cols.len() != tb.cols.len() || ta.rows.len() != tb.rows.len() {
        o.v("r06-shape", format!("the translated building gives {} rows of {} columns, the original {} of {}", tb.rows.len(), tb.cols.len(), ta.rows.len(), ta.cols.len()));
        return Ok(o);
    }
    if let Some((row, k, v, w)) = first_apart(&ta, &tb, &order) {
        // rounding in the last digit of a coordinate can be amplified by a threshold of the physics: is the original itself that sensitive?
        let mut sensitive = false;
        for j in 1..=8i32 {
            let e = ctx.scratch();
            d.copy_to(&e);
            let mut m = bl.model.clone();
            // every number of the description, each by its own rounding
            let mut q = Rng::new(j as u64);
            for l in ["buildings", "site_details", "substances", "materials", "spaces", "surfaces", "fenestrations", "hvacs", "luminaires"] {
                shake(&mut m[l], &mut q, if j % 2 == 0 { 2.3e-16 } else { 2e-15 });
            }
            let (mut a, name) = (vec!["-w", weather_name(&c["w"]), "-n", &ns, "-o", "p.csv"], if spl_src { "p.spl" } else { "p.json" });
            e.write("p.spl", spl(&m));
            e.write("p.json", json_ordered(&m));
            a.extend(["-i", name]);
            if people {
                a.extend(["-c", "people"]);
            }
            let r = ctx.cli("simple", &a, cfg(c), &e)?;
            let same: Vec<Option<usize>> = (0..ta.cols.len()).map(Some).collect();
            let t = parse_table(&e.text("p.csv"));
            if r.exit != Some(0) || t.as_ref().map_or(true, |t| t.cols == ta.cols && first_apart(&ta, t, &same).map_or(false, |x| x.0 <= row)) {
                sensitive = true;
                break;
            }
        }
        if sensitive {
            o.add("sensitive_to_rounding", 1);
        } else {
            o.v("r06-results", format!("{} {}: the translated building gives {w}, the original {v}", ta.rows[row].0, ta.cols[k]));
        }
    }
    if !o.violations.is_empty() || arr(&c["faults"]).is_empty() {
        return Ok(o);
    }
    // the last translation once more, disturbed
    let good = d.read(&cur).unwrap_or_default();
    let _ = std::fs::remove_file(d.p(&cur));
    if c["stale"].as_bool().unwrap_or(false) {
        let mut s = good.clone();
        s.extend_from_slice(b"\n}\n// the end of an older, longer file\n");
        d.write(&cur, s);
    }
    let clean = {
        let e = ctx.scratch();
        d.copy_to(&e);
        ctx.cli("simple", &["-i", &last_in, "-t", &cur], cfg(c), &e)?
    };
    let nw = clean.count(op::WRITE, &cur).max(1) as i64;
    let mut sim = cfg(c);
    for f in arr(&c["faults"]) {
        let k = i(&f[0]) as i32;
        if f[1].as_bool().unwrap_or(false) {
            sim.faults.push(Fault { op: op::OPEN_W, label: "*".into(), nth: 0, kind: k, arg: i(&f[3]), sticky: false });
            continue;
        }
        let arg = if k == fk::DISKCAP { i(&f[3]) * good.len() as i64 / 10001 } else { i(&f[3]) };
        sim.faults.push(Fault { op: op::WRITE, label: "*".into(), nth: i(&f[2]) * nw / 10000, kind: k, arg, sticky: false });
    }
    let r = ctx.cli("simple", &["-i", &last_in, "-t", &cur], sim, &d)?;
    let got = d.read(&cur).unwrap_or_default();
    let hard = r.fired(fk::ERRNO) + r.fired(fk::DISKCAP) > 0;
    o.nontrivial |= r.fired_any() > 0;
    if let Some(s) = r.stuck() {
        o.v(format!("r06-{s}"), format!("translating to {cur} did not finish: {}", r.note));
    } else if r.crashed() {
        let again = ctx.cli("simple", &["-i", &last_in, "-t", &cur], cfg(c), &d)?;
        if again.exit != Some(0) || d.read(&cur).unwrap_or_default() != good {
            o.v("r06-rerun", format!("translating again after a crash: {} and a different file", again.exit_desc()));
        }
    } else if r.exit == Some(0) {
        if hard {
            o.v("r06-error-swallowed", format!("translating to {cur} reported success although writing failed"));
        } else if got != good {
            o.v("r06-incomplete", format!("translating to {cur} reported success but the file differs: {}", first_diff(&String::from_utf8_lossy(&got), &String::from_utf8_lossy(&good))));
        }
    } else if !hard {
        o.v("r06-failed-on-soft", format!("translating to {cur} failed ({}) although every fault was retryable", r.exit_desc()));
    } else if r.exit != Some(1) {
        o.v("r06-abnormal", format!("translating to {cur} ended with {} on an output error: {}", r.exit_desc(), r.err_text()));
    } else if r.stderr.is_empty() {
        o.v("r06-silent", "translating failed without a message");
    }
    Ok(o)
}
