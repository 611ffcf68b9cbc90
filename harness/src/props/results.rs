//! R01 result stream integrity, R02 timeline and table, R03 control/physics step protocol.
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use crate::rt::{fk, op};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "R01",
            gen: gen_r01,
            check: check_r01,
            quick: 1000,
            thorough: 60000,
            rule: "each case: a seeded building, weather file, timestep, controller (none / occupant rule / script) and sink (library sink or the simple CLI writing a file or stdout) with a plan of sink faults; non-trivial when at least one planned fault fired",
            real: &["simple::run_simulation (run, run_rhai)", "bin/simple.rs main", "model, weather, calendar, heat, air, light crates", "Rust std I/O"],
            stub: &["operating-system file and stream calls (fault-injecting pass-through)", "result sink of library runs", "scheduler, clock, entropy"],
            assumptions: &["a sink that fails once with a hard error may lose what follows; what was accepted before must be a prefix of the table"],
        },
        Prop {
            id: "R02",
            gen: gen_r02,
            check: check_r02,
            quick: 1200,
            thorough: 60000,
            rule: "each case: a seeded building, weather history (including year and month crossings, gaps), timestep count and output list, run by the library entry point and compared row by row with a reference loop; non-trivial when the table has at least 3 rows and 1 column",
            real: &["simple::run_simulation", "MultiphysicsModel and all physics crates", "weather interpolation, calendar"],
            stub: &["reference weather, calendar and table writer (oracle)", "scheduler, clock, entropy"],
            assumptions: &["a row lying within 0.1 h before the last weather record may be present or absent", "24:00 and 0:00 of the next day denote the same instant"],
        },
        Prop {
            id: "R03",
            gen: gen_r03,
            check: check_r03,
            quick: 1200,
            thorough: 60000,
            rule: "each case: a seeded building and weather driven by a recording controller with a command sequence and possibly a failing call, or by a counting script that fails at a chosen step; non-trivial when at least one command was issued or a call failed",
            real: &["simple::run_simulation", "MultiphysicsModel and all physics crates", "rhai engine and control API"],
            stub: &["controller (recording, scripted by the case)", "scheduler, clock, entropy"],
            assumptions: &["physics does not change operational state (lamp, heater, window commands)"],
        },
    ]
}

pub const NS: [i64; 16] = [1, 1, 1, 2, 2, 3, 4, 4, 5, 6, 7, 10, 12, 20, 60, 77];

pub fn base_case(r: &mut Rng, max_hours: i64) -> Value {
    base_case_opt(r, max_hours, Opt::default())
}
pub fn base_case_opt(r: &mut Rng, max_hours: i64, o: Opt) -> Value {
    let b = gen(r, o);
    let n = *r.pick(&NS);
    let mh = if n >= 10 { (max_hours / 2).max(3) } else { max_hours };
    json!({"b": b, "w": gen_weather(r, mh), "n": n, "ent": seed32(r) % 1000})
}
pub fn gen_cmds(r: &mut Rng, steps: i64) -> Value {
    let k = r.r(0, 6);
    let mut cm: Vec<Value> = (0..k)
        .map(|_| {
            let kind = r.r(0, 2);
            let v = if kind == 1 && r.p(60) { r.r(-9000, 9000) } else { r.r(0, 2000) };
            json!([r.r(0, steps.max(1)), kind, r.r(0, 3), v])
        })
        .collect();
    if r.p(30) {
        ramp(r, steps, &mut cm);
    }
    json!(cm)
}
/// A few consecutive commands to one object that differ by little.
fn ramp(r: &mut Rng, steps: i64, cm: &mut Vec<Value>) {
    let (k0, kind, idx, e) = (r.r(0, steps.max(1)), r.r(0, 2), r.r(0, 3), r.r(0, 24));
    let base = if r.p(60) { 0 } else { r.r(1, 2000) };
    for q in 0..r.r(2, 6) {
        cm.push(json!([k0 + q, kind, idx, (base << e) + q + 1, e]));
    }
}
pub fn cfg(c: &Value) -> SimCfg {
    SimCfg { ent_seed: i(&c["ent"]) as u64, ..SimCfg::default() }
}
/// A control script equivalent to a small set of behaviours; built from what exists in the model.
pub fn script(kind: i64, bl: &Built) -> String {
    let mut s = String::new();
    match kind {
        0 => {}
        1 => {
            for k in 0..bl.nlum {
                s.push_str(&format!("let l = luminaire(\"{}\");\nl.power_consumption = l.power_consumption + 1.5;\n", lum_name(k)));
            }
        }
        2 => {
            for (k, (_, sp)) in bl.hvac.iter().enumerate() {
                s.push_str(&format!(
                    "let s = space(\"{}\");\nlet h = hvac(\"{}\");\nif s.dry_bulb_temperature < 20.0 {{ h.power_consumption = 500; }} else {{ h.power_consumption = 0; }}\n",
                    space_name(*sp),
                    hvac_name(k)
                ));
            }
        }
        _ => {
            for k in 0..bl.nfen {
                if bl.fen_op[k] != 0 {
                    s.push_str(&format!("let f = fenestration({k});\nf.open_fraction = 0.25;\n"));
                }
            }
        }
    }
    s.push_str("let zz = 1;\n");
    s
}

// ------------------------------------------------------------------ R01
fn gen_r01(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let mut c = base_case(r, if tier == Tier::Quick { 10 } else { 40 });
    c["ctl"] = json!(r.r(0, 4)); // 0 void 1 people 2.. script kinds 0..2
    let mode = r.r(0, 9);
    if mode < 5 {
        c["mode"] = json!(0);
        let mut plan = vec![];
        let kind = r.n(6);
        let np = r.r(1, 6);
        for _ in 0..np {
            let k = match kind {
                0 => 0,
                1 => 1,
                2 => *r.pick(&[0, 1, 5]),
                3 => *r.pick(&[2, 3]),
                _ => *r.pick(&[0, 1, 1, 0, 3, 5]),
            };
            // position as a fraction (of 10000) of the calls of the fault-free run
            plan.push(json!([r.r(0, 9999), k, r.r(1, 7)]));
        }
        c["plan"] = json!(plan);
        c["cap"] = if r.p(15) { json!(r.r(0, 10000)) } else { Value::Null };
        c["buffered"] = json!(r.p(30));
        c["flush_fail"] = if r.p(15) { json!(0) } else { Value::Null };
    } else {
        c["mode"] = json!(if mode < 8 { 1 } else { 2 }); // CLI to file / stdout
        c["stale"] = json!(r.p(50));
        let mut fs = vec![];
        for _ in 0..r.r(1, 4) {
            let k = match r.n(10) {
                0..=2 => fk::SHORT,
                3..=4 => fk::EINTR,
                5 => fk::ERRNO,
                6 => fk::DISKCAP,
                7 => fk::CRASH_TORN,
                8 => fk::CRASH_BEFORE,
                _ => fk::CRASH_AFTER,
            };
            let arg = if k == fk::ERRNO { *r.pick(&[5, 28, 32, 122, 27]) } else { r.r(1, 9999) };
            fs.push(json!([k, r.r(0, 9999), arg]));
        }
        if r.p(10) {
            fs.push(json!([100, 0, *r.pick(&[13, 30, 28, 21])])); // opening the output fails
        }
        c["faults"] = json!(fs);
    }
    c
}
pub fn put_inputs(c: &Value, d: &Scratch) -> Built {
    let bl = build(&c["b"]);
    d.write("model.json", json_ordered(&bl.model));
    d.write("model.spl", spl(&bl.model));
    if is_epw(&c["w"]) {
        d.write("w.epw", epw_text(&c["w"]));
    }
    d.write("w.sw", weather_doc(&c["w"]).to_string());
    bl
}
pub fn need(o: &RunOut) -> Result<Value, String> {
    match &o.result {
        Some(v) if v["harness_error"].is_string() => Err(format!("scenario: {}", v["harness_error"])),
        Some(v) => Ok(v.clone()),
        None => Err(format!("no result: {} status {} {} {}", o.exit_desc(), o.status, o.note, o.err_text())),
    }
}
pub fn is_prefix(a: &[u8], b: &[u8]) -> bool {
    b.len() >= a.len() && &b[..a.len()] == a
}
pub fn first_diff(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| {
        let lo = k.saturating_sub(20);
        String::from_utf8_lossy(&s.as_bytes()[lo.min(s.len())..(k + 30).min(s.len())]).to_string()
    };
    format!("at byte {k}: got {:?}, expected {:?} (lengths {} / {})", cut(a), cut(b), a.len(), b.len())
}

fn check_r01(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let d = ctx.scratch();
    let bl = put_inputs(c, &d);
    let ctl = match i(&c["ctl"]) {
        0 => "void".to_string(),
        1 => "people".to_string(),
        k => {
            d.write("c.rhai", script(k - 2, &bl));
            "c.rhai".to_string()
        }
    };
    let mode = i(&c["mode"]);
    if mode == 0 {
        let args = json!({"model": bl.model, "weather": "w.sw", "n": c["n"], "control": ctl, "sink": {}});
        let base = need(&ctx.lib("sim", args.clone(), cfg(c), &d)?)?;
        if base["res"] != "ok" {
            base_failed(ctx, &mut o, c, &d, &bl, ctl == "people", format!("the undisturbed run failed: {} {}", base["res"], base["err"]))?;
            return Ok(o);
        }
        let full = base["out"].as_str().unwrap_or("").to_string();
        let nw = base["writes"].as_u64().unwrap_or(1).max(1);
        let plan: Vec<Value> = arr(&c["plan"]).iter().map(|p| json!([i(&p[0]) as u64 * nw / 10000, p[1], p[2]])).collect();
        let cap = c["cap"].as_u64().map(|x| x * full.len() as u64 / 10001);
        let mut args = args;
        args["sink"] = json!({"plan": plan, "cap": cap, "buffered": c["buffered"], "flush_fail": c["flush_fail"]});
        let run = need(&ctx.lib("sim", args, cfg(c), &d)?)?;
        let got = run["out"].as_str().unwrap_or("").to_string();
        let hard = run["hard"].as_u64().unwrap_or(0);
        let fired: Vec<String> = arr(&run["fired"]).iter().map(|s| s.as_str().unwrap_or("").to_string()).collect();
        for f in &fired {
            o.add(&format!("sink_{f}"), 1);
        }
        o.nontrivial = !fired.is_empty();
        o.signature = format!("lib ctl{} n{} {:?} hard{}", c["ctl"], c["n"], fired.iter().take(6).collect::<Vec<_>>(), hard.min(1));
        match run["res"].as_str().unwrap_or("") {
            "panic" => o.v("lib-panic", format!("run panicked on a failing sink: {}", run["err"])),
            "ok" => {
                if got != full {
                    o.v("lib-ok-but-lost", format!("run reported success but the sink does not hold the table: {}; sink events {:?}", first_diff(&got, &full), fired));
                }
                if run["pending"].as_u64().unwrap_or(0) > 0 {
                    o.v("lib-ok-unflushed", "run reported success and consumed the sink leaving accepted data unflushed");
                }
            }
            _ => {
                if hard == 0 {
                    o.v("lib-err-on-soft", format!("run failed ({}) although every sink condition was retryable: {:?}", run["err"], fired));
                }
                let all = format!("{got}");
                if !is_prefix(all.as_bytes(), full.as_bytes()) {
                    o.v("lib-err-not-prefix", format!("after a sink failure the sink holds something that is not a prefix of the table: {}", first_diff(&all, &full)));
                }
            }
        }
        return Ok(o);
    }
    // the command line tool
    let tofile = mode == 1;
    let ns = c["n"].to_string();
    let input = if i(&c["ent"]) % 2 == 0 { "model.json" } else { "model.spl" };
    let mut argv: Vec<&str> = vec!["-i", input, "-w", "w.sw", "-n", &ns];
    if ctl != "void" {
        argv.extend(["-c", ctl.as_str()]);
    }
    if tofile {
        argv.extend(["-o", "out.csv"]);
    }
    let label = if tofile { "out.csv" } else { "<stdout>" };
    let base = ctx.cli("simple", &argv, cfg(c), &d)?;
    if base.exit != Some(0) {
        base_failed(ctx, &mut o, c, &d, &bl, ctl == "people", format!("the undisturbed simple run failed: {} {} {}", base.exit_desc(), base.note, base.err_text()))?;
        return Ok(o);
    }
    let full = if tofile { d.read("out.csv").unwrap_or_default() } else { base.stdout.clone() };
    if tofile {
        let _ = std::fs::remove_file(d.p("out.csv"));
        if c["stale"].as_bool().unwrap_or(false) {
            let mut s = full.clone();
            s.extend_from_slice(b"stale line from an older run\n");
            d.write("out.csv", s);
        }
    }
    let nw = base.count(op::WRITE, label) as i64;
    let mut sim = cfg(c);
    for f in arr(&c["faults"]) {
        let k = i(&f[0]) as i32;
        if k == 100 {
            if tofile {
                sim.faults.push(Fault { op: op::OPEN_W, label: label.into(), nth: 0, kind: fk::ERRNO, arg: i(&f[2]), sticky: false });
            }
            continue;
        }
        let nth = i(&f[1]) * nw / 10000;
        let arg = if k == fk::DISKCAP { i(&f[2]) * full.len() as i64 / 10001 } else if k == fk::ERRNO { i(&f[2]) } else { i(&f[2]) % 11 + 1 };
        sim.faults.push(Fault { op: op::WRITE, label: label.into(), nth, kind: k, arg, sticky: false });
    }
    let run = ctx.cli("simple", &argv, sim, &d)?;
    let got = if tofile { d.read("out.csv").unwrap_or_default() } else { run.stdout.clone() };
    let hard = run.fired(fk::ERRNO) + run.fired(fk::DISKCAP) > 0;
    let opened_failed = arr(&c["faults"]).iter().any(|f| i(&f[0]) == 100) && tofile;
    o.nontrivial = run.fired_any() > 0;
    o.signature = format!("cli{} ctl{} n{} {:?}", mode, c["ctl"], c["n"], run.head.fault_fired.iter().map(|x| (*x).min(3)).collect::<Vec<_>>());
    if let Some(s) = run.stuck() {
        o.v(format!("cli-{s}"), format!("simple did not finish: {}", run.note));
        return Ok(o);
    }
    let g = String::from_utf8_lossy(&got).to_string();
    let fl = String::from_utf8_lossy(&full).to_string();
    let stale_kept = tofile && c["stale"].as_bool().unwrap_or(false) && opened_failed;
    if run.crashed() {
        if !is_prefix(&got, &full) && !stale_kept {
            o.v("cli-crash-not-prefix", format!("after a crash the output is not a prefix of the table: {}", first_diff(&g, &fl)));
        }
        let again = ctx.cli("simple", &argv, cfg(c), &d)?;
        let g2 = if tofile { d.read("out.csv").unwrap_or_default() } else { again.stdout.clone() };
        if again.exit != Some(0) || g2 != full {
            o.v("cli-rerun-differs", format!("re-running after a crash: {} {}", again.exit_desc(), first_diff(&String::from_utf8_lossy(&g2), &fl)));
        }
    } else if run.exit == Some(0) {
        if hard {
            o.v("cli-error-swallowed", format!("simple exited 0 although writing the results failed; {}", first_diff(&g, &fl)));
        } else if got != full {
            o.v("cli-ok-but-lost", format!("simple exited 0 but the output is not the table: {}", first_diff(&g, &fl)));
        }
    } else {
        if !hard {
            o.v("cli-err-on-soft", format!("simple failed ({}: {}) although every fault was retryable", run.exit_desc(), run.err_text()));
        } else if run.exit != Some(1) {
            o.v("cli-abnormal-exit", format!("simple ended with {} on an output error: {}", run.exit_desc(), run.err_text()));
        } else if run.stderr.is_empty() {
            o.v("cli-silent-failure", "simple failed without a message");
        }
        if !is_prefix(&got, &full) && !stale_kept {
            o.v("cli-err-not-prefix", format!("after an output error the output is not a prefix of the table: {}", first_diff(&g, &fl)));
        }
    }
    Ok(o)
}

// ------------------------------------------------------------------ tables
pub struct Table {
    pub cols: Vec<String>,
    pub rows: Vec<(String, Vec<String>)>,
}
/// Splits a header line at commas outside JSON objects.
fn split_top(s: &str) -> Vec<String> {
    let (mut d, mut q) = (0, false);
    let mut cur = String::new();
    let mut out = vec![];
    for ch in s.chars() {
        match ch {
            '"' => q = !q,
            '{' | '[' if !q => d += 1,
            '}' | ']' if !q => d -= 1,
            ',' if !q && d == 0 => {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(ch);
    }
    out.push(cur);
    out
}
pub fn parse_table(s: &str) -> Result<Table, String> {
    if !s.ends_with('\n') {
        return Err("the table does not end with a newline".into());
    }
    let mut lines = s[..s.len() - 1].split('\n');
    let h = lines.next().ok_or("no header")?;
    let mut cols = split_top(h);
    if cols.is_empty() || cols[0] != "Date" {
        return Err(format!("header does not start with Date: {h}"));
    }
    cols.remove(0);
    let mut rows = vec![];
    for l in lines {
        let mut c: Vec<String> = l.split(',').map(|x| x.to_string()).collect();
        let d = c.remove(0);
        if c.len() != cols.len() {
            return Err(format!("row has {} values for {} columns: {l}", c.len(), cols.len()));
        }
        rows.push((d, c));
    }
    Ok(Table { cols, rows })
}
/// minutes of the year of a date label
pub fn label_minutes(s: &str) -> Option<i64> {
    let (md, hm) = s.split_once(" - ")?;
    let (m, d) = md.split_once('/')?;
    let (h, mi) = hm.split_once(':')?;
    if m.len() != 2 || d.len() != 2 || mi.len() != 2 {
        return None;
    }
    let (m, d, h, mi): (usize, i64, i64, i64) = (m.parse().ok()?, d.parse().ok()?, h.parse().ok()?, mi.parse().ok()?);
    if m < 1 || m > 12 || d < 1 || d > MLEN[m - 1] {
        return None;
    }
    Some(((MLEN[..m - 1].iter().sum::<i64>() + d - 1) * 24 + h) * 60 + mi)
}
pub fn close(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || (a - b).abs() <= 0.0006 + 1e-6 * b.abs()
}

/// Expected columns: indices in the full name list.
pub fn expected_cols(model: &Value, names: &[String]) -> Vec<usize> {
    let v: Vec<usize> = arr(&model["outputs"]).iter().filter_map(|o| names.iter().position(|n| *n == o.to_string())).collect();
    if v.is_empty() {
        (0..names.len()).collect()
    } else {
        v
    }
}

fn expected_none(model: &Value, names: &[String]) -> bool {
    !arr(&model["outputs"]).iter().any(|o| names.iter().any(|n| *n == o.to_string()))
}

/// The undisturbed run failed: a violation, unless the physics itself cannot advance this building.
pub fn base_failed(ctx: &Ctx, o: &mut CaseOut, c: &Value, d: &Scratch, bl: &Built, people: bool, what: String) -> Result<(), String> {
    let mut c2 = c.clone();
    if i(&c2["w"]["n"]) < 2 {
        c2["w"]["n"] = json!(2);
    }
    let args = json!({"model": bl.model, "n": i(&c["n"]).max(1), "control": if people {"people"} else {"void"}, "w": c2["w"], "cmds": c["cmds"]});
    if refrun(ctx, o, args, &c2, d)?.is_some() {
        o.v("undisturbed-failed", what);
    }
    Ok(())
}

/// The reference run; None when the physics itself cannot advance this building (the case says nothing then).
pub fn refrun(ctx: &Ctx, o: &mut CaseOut, args: Value, c: &Value, d: &Scratch) -> Result<Option<Value>, String> {
    let refr = need(&ctx.lib("ref", args, cfg(c), d)?)?;
    if refr["panic"].is_string() {
        o.add("physics_diverged", 1);
        o.signature = "physics diverged".into();
        return Ok(None);
    }
    Ok(Some(refr))
}

/// Compares a produced table with the reference run.
pub fn compare_table(o: &mut CaseOut, tag: &str, text: &str, refr: &Value, model: &Value, n: usize, span_h: f64, rows_expected: Option<usize>) {
    let t = match parse_table(text) {
        Ok(t) => t,
        Err(e) => {
            o.v(format!("{tag}-malformed"), e);
            return;
        }
    };
    let names: Vec<String> = arr(&refr["names"]).iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
    let mut cols = expected_cols(model, &names);
    if expected_none(model, &names) && t.cols.len() == names.len() {
        // everything is reported: the order is free
        let order: Vec<usize> = t.cols.iter().filter_map(|c| names.iter().position(|n| n == c)).collect();
        let mut sorted = order.clone();
        sorted.sort();
        if sorted == cols {
            cols = order;
        }
    }
    let want: Vec<&String> = cols.iter().map(|k| &names[*k]).collect();
    if t.cols.iter().collect::<Vec<_>>() != want {
        o.v(format!("{tag}-columns"), format!("columns {:?}, expected {:?}", t.cols, want));
        return;
    }
    let rows = arr(&refr["rows"]);
    let start = rows.first().map(|r| r["h"].as_f64().unwrap() - 1.0 / n as f64).unwrap_or(0.0);
    let stable = refr["stable"].as_u64().unwrap_or(0) as usize;
    let sure = sure_rows(refr, n, span_h);
    match rows_expected {
        Some(k) => {
            if t.rows.len() != k {
                o.v(format!("{tag}-rowcount"), format!("{} rows, expected {k}", t.rows.len()));
                return;
            }
        }
        None => {
            // steps closer than 0.1 h to the last record are optional
            let maxk = ((span_h * n as f64) - 1e-6).ceil() as usize;
            if t.rows.len() < sure || t.rows.len() >= maxk.max(sure + 1) {
                o.v(format!("{tag}-rowcount"), format!("{} rows, expected {sure} ({} steps per hour over {span_h} h)", t.rows.len(), n));
                return;
            }
        }
    }
    for (k, (d, vals)) in t.rows.iter().enumerate() {
        if k >= rows.len() {
            break;
        }
        let h = rows[k]["h"].as_f64().unwrap();
        let min = (h * 60.0).rem_euclid(8760.0 * 60.0);
        match label_minutes(d) {
            Some(l) => {
                let diff = (l as f64 - min).abs();
                let diff = diff.min((8760.0 * 60.0 - diff).abs());
                if diff > 0.51 {
                    o.v(format!("{tag}-date"), format!("row {k} is labelled '{d}', expected minute {min:.1} of the year"));
                    return;
                }
            }
            None => {
                o.v(format!("{tag}-date"), format!("row {k} has date '{d}'"));
                return;
            }
        }
        if k >= stable {
            continue; // from here on the trajectory depends on rounding: only the dates are compared
        }
        let st = arr(&rows[k]["v"]);
        for (j, c) in cols.iter().enumerate() {
            let want = st[*c].as_f64().unwrap_or(f64::NAN);
            match vals[j].parse::<f64>() {
                Ok(x) if close(x, want) => {}
                _ => {
                    o.v(format!("{tag}-value"), format!("row {k} ({d}) column {} is {}, the reference loop gives {want}", names[*c], vals[j]));
                    return;
                }
            }
            if !vals[j].contains("NaN") && vals[j].split('.').nth(1).map(|f| f.len()) != Some(3) {
                o.v(format!("{tag}-format"), format!("value '{}' is not printed with three decimals", vals[j]));
                return;
            }
        }
    }
    let cmp = t.rows.len().min(stable);
    o.add("rows_checked", t.rows.len() as u64);
    o.add("rows_compared", cmp as u64);
    o.add("cells_compared", (cmp * cols.len()) as u64);
}

/// The rows that must exist: steps closer than 0.1 h to the last record are optional.
pub fn sure_rows(refr: &Value, n: usize, span_h: f64) -> usize {
    let rows = arr(&refr["rows"]);
    let start = rows.first().map(|r| r["h"].as_f64().unwrap() - 1.0 / n as f64).unwrap_or(0.0);
    rows.iter().filter(|r| r["h"].as_f64().unwrap() - start < span_h - 0.1 - 1e-6).count()
}
pub fn span(w: &Value) -> f64 {
    ((i(&w["n"]).max(1) - 1) * i(&w["step"]).max(1)) as f64
}

// ------------------------------------------------------------------ R02
fn gen_r02(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let mut c = base_case(r, if tier == Tier::Quick { 14 } else { 60 });
    if r.p(8) {
        c["w"]["n"] = json!(2);
    }
    if r.p(35) {
        c["w"]["epw"] = json!(true);
        c["w"]["step"] = json!(1);
    }
    c["cmds"] = gen_cmds(r, 20);
    c["spl"] = json!(r.p(40));
    c["script"] = json!(r.p(25));
    c
}
fn check_r02(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let mut c = c.clone();
    if i(&c["w"]["n"]) < 2 {
        c["w"]["n"] = json!(2);
    }
    let c = &c;
    let d = ctx.scratch();
    let bl = put_inputs(c, &d);
    let n = (i(&c["n"]).max(1) as usize).min(60);
    let scripted = c["script"].as_bool().unwrap_or(false);
    let model = if c["spl"].as_bool().unwrap_or(false) { json!("model.spl") } else { bl.model.clone() };
    d.write("c.rhai", script(0, &bl));
    let cm = if scripted { json!([]) } else { c["cmds"].clone() };
    let args = json!({"model": model, "weather": weather_name(&c["w"]), "n": i(&c["n"]).max(1), "control": if scripted {"c.rhai"} else {"probe"}, "cmds": cm, "sink": {}, "w": c["w"]});
    let Some(refr) = refrun(ctx, &mut o, args.clone(), c, &d)? else { return Ok(o) };
    let mut sc = cfg(c);
    sc.step_limit = 400_000_000;
    let out = ctx.lib("sim", args, sc, &d)?;
    let rows = arr(&refr["rows"]).len();
    o.nontrivial = rows >= 3;
    o.signature = format!("n{} rows{} start{} step{} outs{} script{}", n, rows, i(&c["w"]["start"]) / 24, c["w"]["step"], arr(&bl.model["outputs"]).len(), scripted);
    if let Some(s) = out.stuck() {
        o.v(format!("r02-{s}"), format!("the run did not end: {}", out.note));
        return Ok(o);
    }
    let run = need(&out)?;
    if run["res"] != "ok" {
        o.v("r02-failed", format!("run failed: {} {}", run["res"], run["err"]));
        return Ok(o);
    }
    compare_table(&mut o, "r02", run["out"].as_str().unwrap_or(""), &refr, &bl.model, n, span(&c["w"]), None);
    Ok(o)
}

// ------------------------------------------------------------------ R03
fn gen_r03(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let mut c = base_case(r, if tier == Tier::Quick { 12 } else { 50 });
    let hs = i(&c["w"]["n"]) * i(&c["w"]["step"]) * i(&c["n"]).min(60);
    let steps = hs.min(30);
    let mut cm = vec![];
    for _ in 0..r.r(1, 8) {
        cm.push(json!([r.r(0, steps), r.r(0, 2), r.r(0, 3), r.r(1, 2000)]));
    }
    if r.p(40) {
        ramp(r, steps, &mut cm);
    }
    c["cmds"] = json!(cm);
    c["inc"] = json!(*r.pick(&[0, 0, 4, 8, 10, 12]));
    c["fail"] = if r.p(40) { json!(r.r(0, steps.min(12))) } else { Value::Null };
    c["scripted"] = json!(r.p(45));
    c["research"] = json!(r.p(50));
    if arr(&c["b"]["lum"]).is_empty() && c["scripted"] == true {
        c["b"]["lum"] = json!([{"s":0,"p":100}]);
    }
    c
}
fn check_r03(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let mut c = c.clone();
    if i(&c["w"]["n"]) < 2 {
        c["w"]["n"] = json!(2);
    }
    let c = &c;
    let d = ctx.scratch();
    let bl = put_inputs(c, &d);
    let n = (i(&c["n"]).max(1) as usize).min(60);
    let scripted = c["scripted"].as_bool().unwrap_or(false) && bl.nlum > 0;
    let fail = c["fail"].as_i64();
    let args = json!({"model": bl.model, "weather": "w.sw", "n": n, "control": "probe", "cmds": c["cmds"], "sink": {}, "w": c["w"], "snap": true, "fail_at": fail, "research": c["research"]});
    if scripted {
        // every call adds 3 (or a small fraction of that) to lamp 0; when it would exceed the limit the script throws
        let e = c["inc"].as_i64().unwrap_or(0).clamp(0, 20);
        let inc = 3.0 / (1u64 << e) as f64;
        let lim = fail.map(|f| inc * (f as f64 + 0.5));
        let mut s = format!("let l = luminaire(\"{}\");\nlet p = l.power_consumption + {inc:?};\n", lum_name(0));
        if let Some(l) = lim {
            s.push_str(&format!("if p > {l:?} {{ throw \"enough\"; }}\n"));
        }
        s.push_str("l.power_consumption = p;\nlet zz = 1;\n");
        d.write("c.rhai", s);
        let cm: Vec<Value> = (0..4000).map(|k| json!([k, 0, 0, 3 * (k + 1), e])).collect();
        let mut ra = args.clone();
        ra["cmds"] = json!(cm);
        let Some(refr) = refrun(ctx, &mut o, ra, c, &d)? else { return Ok(o) };
        let mut sa = args.clone();
        sa["control"] = json!("c.rhai");
        let run = need(&ctx.lib("sim", sa, cfg(c), &d)?)?;
        let total = arr(&refr["rows"]).len();
        o.nontrivial = true;
        o.signature = format!("script n{} fail{:?} rows{}", n, fail, total);
        verdict(&mut o, c, &run, &refr, &bl, n, fail, total);
        return Ok(o);
    }
    let Some(refr) = refrun(ctx, &mut o, args.clone(), c, &d)? else { return Ok(o) };
    let run = need(&ctx.lib("sim", args, cfg(c), &d)?)?;
    let total = arr(&refr["rows"]).len();
    o.nontrivial = !arr(&c["cmds"]).is_empty() || fail.is_some();
    o.signature = format!("probe n{} fail{:?} rows{} cmds{:?}", n, fail, total, arr(&c["cmds"]).iter().map(|x| (i(&x[1]), i(&x[0]))).collect::<Vec<_>>());
    let rows = verdict(&mut o, c, &run, &refr, &bl, n, fail, total);
    let Some(t) = rows else { return Ok(o) };
    // calls, and what each call saw
    let calls = run["calls"].as_u64().unwrap_or(0) as usize;
    let failed = run["res"] == "err";
    if calls != t.rows.len() + failed as usize {
        o.v("r03-calls", format!("the controller was called {calls} times for {} rows", t.rows.len()));
        return Ok(o);
    }
    let names: Vec<String> = arr(&run["elements"]).iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
    let cols: Vec<usize> = t.cols.iter().filter_map(|c| names.iter().position(|n| n == c)).collect();
    let f = |v: &Value| f64::from_bits(v.as_u64().unwrap_or(0));
    for k in 0..calls {
        let before = arr(&run["before"][k]);
        if k > 0 {
            for (j, cidx) in cols.iter().enumerate() {
                if format!("{:.3}", f(&before[*cidx])) != t.rows[k - 1].1[j] {
                    o.v("r03-stale-view", format!("control call {k} saw {} = {}, the row of the step before reports {}", names[*cidx], f(&before[*cidx]), t.rows[k - 1].1[j]));
                    return Ok(o);
                }
            }
        } else {
            let init = arr(&refr["init"]);
            for (j, x) in before.iter().enumerate() {
                if !close(f(x), init[j].as_f64().unwrap_or(f64::NAN)) {
                    o.v("r03-initial-view", format!("the first control call saw {} = {}, the initial state is {}", names[j], f(x), init[j]));
                    return Ok(o);
                }
            }
        }
        if k > 0 {
            // nothing but the control changes what the control sets
            let after = arr(&run["after"][k - 1]);
            if let Some(j) = (0..names.len().min(after.len())).find(|j| operational(&names[*j]) && after[*j] != before[*j]) {
                o.v("r03-command-changed", format!("control call {} left {} = {:?}, the next call saw {:?}", k - 1, names[j], f(&after[j]), f(&before[j])));
                return Ok(o);
            }
        }
        if k < t.rows.len() {
            let after = arr(&run["after"][k]);
            for (j, cidx) in cols.iter().enumerate() {
                let nm = &names[*cidx];
                if operational(nm) && format!("{:.3}", f(&after[*cidx])) != t.rows[k].1[j] {
                    o.v("r03-command-lost", format!("step {k}: the controller left {nm} = {}, the row reports {}", f(&after[*cidx]), t.rows[k].1[j]));
                    return Ok(o);
                }
            }
        }
    }
    o.add("control_calls", calls as u64);
    Ok(o)
}
fn operational(nm: &str) -> bool {
    nm.starts_with("{\"LuminairePower") || nm.starts_with("{\"HeatingCoolingPower") || nm.starts_with("{\"FenestrationOpenFraction")
}
fn verdict(o: &mut CaseOut, c: &Value, run: &Value, refr: &Value, bl: &Built, n: usize, fail: Option<i64>, total: usize) -> Option<Table> {
    let text = run["out"].as_str().unwrap_or("");
    // in an optional step the controller may or may not be called
    let sure = sure_rows(refr, n, span(&c["w"]));
    let will_fail = fail.map_or(false, |f| (f as usize) < sure);
    let edge = fail.map_or(false, |f| f as usize <= total);
    match run["res"].as_str().unwrap_or("") {
        "panic" => {
            o.v("r03-panic", format!("run panicked: {}", run["err"]));
            return None;
        }
        "ok" if will_fail => {
            o.v("r03-error-ignored", format!("the controller failed at step {} but the run reported success", fail.unwrap()));
            return None;
        }
        "err" if !will_fail && !edge => {
            o.v("r03-failed", format!("run failed: {}", run["err"]));
            return None;
        }
        _ => {}
    }
    let k = if will_fail || (edge && run["res"] == "err") { Some(fail.unwrap() as usize) } else { None };
    let before = o.violations.len();
    compare_table(o, "r03", text, refr, &bl.model, n, span(&c["w"]), k);
    if o.violations.len() > before {
        return None;
    }
    parse_table(text).ok()
}
