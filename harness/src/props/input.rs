//! R13 inputs that cannot be read, or are cut short or damaged, never give results of something else.
use super::par::*;
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use crate::rt::{fk, op};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R13",
        gen: gen_r13,
        check: check_r13,
        quick: 2500,
        thorough: 60000,
        rule: "each case: simple, spict or sfluxmtx run on a model (.json, .spl), weather (.sw, .epw), script or scene file whose reading meets short transfers, interrupted calls or errors, or which was left cut, with a hole of zeros, with a stale tail or with a damaged byte by an interrupted writer; non-trivial when a fault fired or the file was damaged",
        real: &["bin/simple.rs, bin/spict.rs, bin/sfluxmtx.rs main", "model, weather, rendering readers; serde_json, json5", "all simulation crates, rhai engine"],
        stub: &["operating-system file calls (fault-injecting pass-through)", "scheduler, clock, entropy"],
        assumptions: &["a cut at the end of a complete block of an .spl file, a complete record of an .epw file, or a complete object of a scene cannot be noticed: the results are then those of what is left", "a cut inside the last number of a record or object cannot be noticed"],
    }]
}

fn gen_r13(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let what = *r.pick(&["json", "json", "spl", "spl", "spl", "sw", "sw", "epw", "epw", "epw", "rhai", "rad"]);
    let mode = *r.pick(&["soft", "hard", "cut", "cut", "cut", "zero", "stale", "missing", "byte", "hole"]);
    let mut c = base_case(r, if tier == Tier::Quick { 8 } else { 30 });
    c["n"] = json!(r.r(1, 4));
    c["what"] = json!(what);
    c["mode"] = json!(mode);
    if what == "epw" {
        // as the building's weather is either, make it an EPW one
        c["w"]["epw"] = json!(true);
        c["w"]["step"] = json!(1);
    }
    c["ctl"] = json!(r.r(0, 2));
    c["at"] = if r.p(35) { json!(9999 - r.r(0, 300)) } else { json!(r.r(0, 9999)) };
    c["back"] = if r.p(30) { json!(r.r(1, 40)) } else { json!(0) };
    c["hole"] = json!(r.r(1, 40));
    c["errno"] = json!(*r.pick(&[5, 13, 2, 24, 12, 21, 116]));
    c["onopen"] = json!(r.p(40));
    c["nth"] = json!(r.r(0, 9999));
    if mode == "soft" {
        c["faults"] = json!((0..r.r(1, 4)).map(|_| json!([*r.pick(&[fk::SHORT, fk::SHORT, fk::EINTR]), r.r(0, 9999), r.r(1, 9999)])).collect::<Vec<_>>());
    }
    if what == "rad" {
        c["sc"] = gen_scene(r, 4, true);
        c["flux"] = json!(r.p(30));
    }
    c
}

/// Length of the prefix of complete blocks, and whether what follows is only blank or comment.
fn spl_kept(s: &[u8]) -> (usize, bool) {
    let (mut k, mut kept, mut blank) = (0, 0, true);
    while k < s.len() {
        let ch = s[k];
        if ch.is_ascii_whitespace() {
            k += 1;
        } else if s[k..].starts_with(b"//") {
            while k < s.len() && s[k] != b'\n' {
                k += 1;
            }
        } else {
            // a block: up to the brace that closes the first one
            blank = false;
            let (mut d, mut on, mut q) = (0i64, false, false);
            while k < s.len() {
                match s[k] {
                    b'"' => q = !q,
                    b'{' if !q => {
                        d += 1;
                        on = true;
                    }
                    b'}' if !q => d -= 1,
                    _ => {}
                }
                k += 1;
                if on && d == 0 {
                    kept = k;
                    blank = true;
                    break;
                }
            }
        }
    }
    (kept, blank)
}
/// Number of complete records and length of the header plus those records; None when the remainder must be noticed.
fn epw_kept(s: &[u8]) -> Option<(usize, usize)> {
    let t = String::from_utf8_lossy(s).to_string();
    let p = t.find("DATA PERIODS")?;
    let Some(nl) = t[p..].find('\n') else { return None };
    let (mut at, mut n) = (p + nl + 1, 0);
    for l in t[at..].to_string().split_inclusive('\n') {
        let f: Vec<&str> = l.trim_end().split(',').collect();
        if f.len() < 35 || f[34].is_empty() {
            return None;
        }
        at += l.len();
        n += 1;
    }
    Some((n, at))
}
/// Complete objects of a scene: Some(length) when the rest is blank or ends within the last token of an object.
fn rad_kept(full: &[u8], cut: usize) -> Option<usize> {
    // objects are separated by blank lines in the generated text; find object ends by counting tokens
    let t = String::from_utf8_lossy(full).to_string();
    let (mut k, b) = (0usize, t.as_bytes());
    let tok = |k: &mut usize| -> Option<(usize, usize)> {
        while *k < b.len() && b[*k].is_ascii_whitespace() {
            *k += 1;
        }
        if *k >= b.len() {
            return None;
        }
        let a = *k;
        while *k < b.len() && !b[*k].is_ascii_whitespace() {
            *k += 1;
        }
        Some((a, *k))
    };
    let mut kept = 0;
    loop {
        let Some((first, _)) = tok(&mut k) else { return Some(kept) };
        if first >= cut {
            return Some(kept);
        }
        for _ in 0..2 {
            tok(&mut k)?;
        }
        let mut last = (0, 0);
        for _ in 0..3 {
            last = tok(&mut k)?;
            let n: usize = t[last.0..last.1].parse().ok()?;
            for _ in 0..n {
                last = tok(&mut k)?;
            }
        }
        if cut >= last.1 {
            kept = last.1;
        } else {
            // inside the last number (at least one character of it left): cannot be noticed
            return if cut > last.0 { Some(usize::MAX) } else { None };
        }
    }
}

/// Open brackets, and whether the text ends in a string or a comment.
fn lex(s: &[u8]) -> (i64, bool, bool) {
    let (mut d, mut q, mut com, mut k) = (0, false, false, 0);
    while k < s.len() {
        match s[k] {
            b'\n' => com = false,
            _ if com => {}
            b'"' => q = !q,
            _ if q => {}
            b'/' if s.get(k + 1) == Some(&b'/') => com = true,
            b'{' | b'(' | b'[' => d += 1,
            b'}' | b')' | b']' => d -= 1,
            _ => {}
        }
        k += 1;
    }
    (d, q, com)
}
/// Whether damage to [a, b) of a weather file touches something that is read as a number or is needed to find the records.
fn epw_matters(text: &[u8], a: usize, b: usize) -> bool {
    let mut at = 0;
    let mut data = false;
    for l in text.split_inclusive(|x| *x == b'\n') {
        let (s, e) = (at, at + l.len());
        at = e;
        let t = String::from_utf8_lossy(l).to_string();
        if s < b && a < e {
            // the damaged part of this line, field by field
            let mut p = s;
            for (k, f) in t.split_inclusive(',').enumerate() {
                let (x, y) = (p, p + f.trim_end_matches(['\r', '\n', ',']).len().max(0));
                p += f.len();
                let hit = x < b && a < y;
                let read = if data { k != 5 } else if t.starts_with("LOCATION") { k == 0 || k >= 6 } else if t.starts_with("DATA PERIODS") { k < 3 } else { false };
                if hit && read {
                    return true;
                }
            }
        }
        data |= t.starts_with("DATA PERIODS");
    }
    false
}

fn check_r13(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let what = c["what"].as_str().unwrap_or("json");
    let mode = c["mode"].as_str().unwrap_or("soft");
    let d = ctx.scratch();
    let bl = put_inputs(c, &d);
    let rad_tool = what == "rad";
    let epw = is_epw(&c["w"]);
    let ctl = if what == "rhai" { 2 } else { i(&c["ctl"]) };
    let file = match what {
        "json" => "model.json",
        "spl" => "model.spl",
        "sw" => "w.sw",
        "epw" => "w.epw",
        "rhai" => "c.rhai",
        _ => "s.rad",
    };
    if what == "epw" && !epw {
        return Ok(o);
    }
    let ns = i(&c["n"]).max(1).to_string();
    let out;
    let (tool, argv): (&str, Vec<String>) = if rad_tool {
        if arr(&c["sc"]).is_empty() {
            return Ok(o);
        }
        d.write("s.rad", rad(&c["sc"]));
        if c["flux"].as_bool().unwrap_or(false) {
            out = "o.mtx";
            ("sfluxmtx", ["-i", "s.rad", "-o", out, "-a", "3", "-b", "0"].map(String::from).to_vec())
        } else {
            out = "o.hdr";
            ("spict", ["-i", "s.rad", "-o", out, "-b", "0", "-s", "1", "-a", "1", "-x", "4", "-y", "3", "--view-point=1 -9 0", "--view-direction=0 1 0"].map(String::from).to_vec())
        }
    } else {
        out = "out.csv";
        let m = if what == "spl" { "model.spl" } else { "model.json" };
        let w = if what == "epw" { "w.epw" } else { "w.sw" };
        let mut a: Vec<String> = ["-i", m, "-w", w, "-n", &ns, "-o", out].map(String::from).to_vec();
        match ctl {
            0 => {}
            1 => a.extend(["-c".into(), "people".into()]),
            _ => {
                d.write("c.rhai", script(2, &bl));
                a.extend(["-c".into(), "c.rhai".into()]);
            }
        }
        ("simple", a)
    };
    let run = |sim: SimCfg, s: &Scratch| -> Result<(RunOut, Option<Vec<u8>>), String> {
        let a: Vec<&str> = argv.iter().map(|x| x.as_str()).collect();
        let _ = std::fs::remove_file(s.p(out));
        let r = ctx.cli(tool, &a, sim, s)?;
        let b = s.read(out);
        Ok((r, b))
    };
    let (base, full) = run(cfg(c), &d)?;
    if base.exit != Some(0) {
        if rad_tool {
            o.v("r13-undisturbed", format!("{tool} fails undisturbed: {} {}", base.exit_desc(), base.err_text()));
        } else {
            base_failed(ctx, &mut o, c, &d, &bl, ctl == 1, format!("the undisturbed simple run failed: {} {} {}", base.exit_desc(), base.note, base.err_text()))?;
        }
        return Ok(o);
    }
    let full = full.unwrap_or_default();
    let nr = base.count(op::READ, file).max(1) as i64;
    let text = d.read(file).unwrap_or_default();
    let mut sim = cfg(c);
    // Some(x): must succeed with output x; None: must fail.
    enum Want {
        Same,
        Fail,
        Like(Vec<u8>),
        Any,
    }
    let mut want = Want::Same;
    match mode {
        "soft" => {
            for f in arr(&c["faults"]) {
                sim.faults.push(Fault { op: op::READ, label: file.into(), nth: i(&f[1]) * nr / 10000, kind: i(&f[0]) as i32, arg: i(&f[2]), sticky: false });
            }
        }
        "hard" => {
            let opn = c["onopen"].as_bool().unwrap_or(false);
            sim.faults.push(Fault {
                op: if opn { op::OPEN_R } else { op::READ },
                label: file.into(),
                nth: if opn { 0 } else { i(&c["nth"]) * nr / 10000 },
                kind: fk::ERRNO,
                arg: i(&c["errno"]),
                sticky: false,
            });
            want = Want::Fail;
        }
        "missing" => {
            let _ = std::fs::remove_file(d.p(file));
            want = Want::Fail;
        }
        m => {
            let mut cut = (i(&c["at"]) as usize * text.len() / 10000).min(text.len().saturating_sub(1));
            if i(&c["back"]) > 0 {
                cut = text.len().saturating_sub(i(&c["back"]) as usize);
            }
            let mut t = text[..cut].to_vec();
            if m == "zero" {
                t.resize(text.len(), 0);
            }
            if m == "stale" {
                // a shorter file written over a longer one: its end is still there
                t = text.clone();
                t.extend_from_slice(&text[cut..]);
            }
            let end = (cut + if m == "byte" { 1 } else { i(&c["hole"]).max(1) as usize }).min(text.len());
            if m == "byte" || m == "hole" {
                t = text.clone();
                for x in &mut t[cut..end] {
                    *x = if m == "byte" { 0xff } else { 0 };
                }
            }
            let blank = |x: &[u8]| x.iter().all(|y| y.is_ascii_whitespace());
            want = match (what, m) {
                ("json" | "sw", "cut") => if blank(&text[cut..]) { Want::Same } else { Want::Fail },
                ("json" | "sw", "zero") => Want::Fail,
                ("json" | "sw", _) => if blank(&text[cut..]) { Want::Same } else { Want::Fail },
                ("spl", "cut") => match spl_kept(&t) {
                    (_, false) => Want::Fail,
                    (n, true) => Want::Like(text[..n].to_vec()),
                },
                // zeros in a comment are part of it
                ("spl", "zero") => if spl_kept(&text[..cut]).1 && text[..cut].iter().rposition(|x| *x == b'\n').map_or(true, |p| text[p..cut].windows(2).any(|w| w == b"//")) { Want::Any } else { Want::Fail },
                ("epw", "cut") => match epw_kept(&t) {
                    None => Want::Fail,
                    Some((0, _)) => Want::Fail,
                    Some((1, _)) => return Ok(o), // one record: a whole year
                    Some((_, n)) => Want::Like(text[..n].to_vec()),
                },
                ("epw", "zero") => Want::Fail,
                ("rad", "cut") => match rad_kept(&text, cut) {
                    None => Want::Fail,
                    Some(0) | Some(usize::MAX) => Want::Any,
                    Some(n) => Want::Like(text[..n].to_vec()),
                },
                // not text at all
                ("json" | "sw" | "rhai", "byte") => Want::Fail,
                ("json" | "sw", "hole") => Want::Fail,
                ("spl", "byte") => if lex(&text[..cut]).2 { Want::Any } else { Want::Fail },
                ("epw", "byte" | "hole") => if epw_matters(&text, cut, end) { Want::Fail } else { Want::Any },
                ("spl" | "rhai", "hole") => match lex(&text[..cut]) {
                    (_, false, false) => Want::Fail,
                    // in a string or comment, which then goes on to the next quote or line end
                    _ => Want::Any,
                },
                ("rhai", "cut") => match lex(&t) {
                    (0, false, _) => Want::Any,
                    _ => Want::Fail,
                },
                ("rhai", "zero") => if lex(&t).2 { Want::Any } else { Want::Fail },
                _ => Want::Any,
            };
            if std::env::var("VSIM_DEBUG").is_ok() {
                eprintln!("{what} {m} at {cut}: {:?}", String::from_utf8_lossy(&t[cut.saturating_sub(60)..(end + 40).min(t.len())]));
            }
            d.write(file, &t);
            o.nontrivial = true;
        }
    }
    if let Want::Like(t) = &want {
        // what the part that is left gives on its own
        let e = ctx.scratch();
        d.copy_to(&e);
        let mut t = t.clone();
        if what != "epw" {
            t.push(b'\n');
        }
        e.write(file, &t);
        let (r, b) = run(cfg(c), &e)?;
        want = if r.exit == Some(0) { Want::Like(b.unwrap_or_default()) } else { Want::Fail };
        if r.stuck().is_some() {
            want = Want::Any;
        }
    }
    let (r, got) = run(sim, &d)?;
    if r.fired_any() > 0 {
        o.nontrivial = true;
    }
    if (mode == "hard" || mode == "soft") && r.fired_any() == 0 {
        want = Want::Same;
    }
    o.signature = format!("{what} {mode} {} {:?} x{:?} {}", i(&c["at"]) / 200, r.head.fault_fired.iter().map(|x| (*x).min(3)).collect::<Vec<_>>(), r.exit, matches!(want, Want::Fail));
    o.add(&format!("{what}_{mode}"), 1);
    if let Some(s) = r.stuck() {
        o.v(format!("r13-{s}"), format!("{tool} did not finish reading {file} ({mode}): {}", r.note));
        return Ok(o);
    }
    let got = got.unwrap_or_default();
    match r.exit {
        Some(0) => match want {
            Want::Fail => o.v("r13-accepted", format!("{tool} reported success although {file} could not be read completely ({mode})")),
            Want::Same if got != full => o.v("r13-differs", format!("{tool}: other results when reading {file} meets {mode} faults: {}", first_diff(&String::from_utf8_lossy(&got), &String::from_utf8_lossy(&full)))),
            Want::Like(x) if got != x => o.v("r13-differs", format!("{tool}: results are not those of the complete part of {file}: {}", first_diff(&String::from_utf8_lossy(&got), &String::from_utf8_lossy(&x)))),
            _ => {}
        },
        Some(1) | Some(101) if !(r.exit == Some(101) && !rad_tool) => {
            if matches!(want, Want::Same | Want::Like(_)) {
                o.v("r13-rejected", format!("{tool} fails on {file} ({mode}) although nothing is missing: {}", r.err_text()));
            }
            if r.stderr.is_empty() {
                o.v("r13-silent", format!("{tool} fails on {file} without a message"));
            }
            if !rad_tool && got.iter().filter(|x| **x == b'\n').count() > 1 {
                o.v("r13-rows", format!("{tool} wrote results although {file} could not be read"));
            }
        }
        _ => o.v("r13-abnormal", format!("{tool} ended with {} reading {file} ({mode}): {}", r.exit_desc(), r.err_text())),
    }
    Ok(o)
}
