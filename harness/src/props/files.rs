//! R11 images and matrices: what is stored is what was computed, or the failure is reported.
use super::par::*;
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use crate::rt::{fk, op};
use crate::scen::files::{maps, pixels, scalars};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R11",
        gen: gen_r11,
        check: check_r11,
        quick: 3500,
        thorough: 100000,
        rule: "each case: an image, matrix or false-colour picture saved by the library or by spict, sfluxmtx, scompare or sfalsecolor while its file calls meet a plan of faults or a crash, then loaded again, or a stored file cut short or read under faults; non-trivial when a fault fired or the file was cut",
        real: &["rendering::image, rendering::colour_matrix, colour maps, JPEG encoder", "bin/spict.rs, bin/sfluxmtx.rs, bin/scompare.rs, bin/sfalsecolor.rs main", "std file I/O"],
        stub: &["operating-system file calls (fault-injecting pass-through)", "scheduler, clock, entropy"],
        assumptions: &["an image component is stored within 1/128 of the largest component of its pixel", "a matrix file cut inside or after its last value may be accepted"],
    }]
}

fn gen_faults(r: &mut Rng, write: bool) -> Value {
    let mut fs = vec![];
    for _ in 0..r.r(1, 3) {
        let k = if write {
            *r.pick(&[fk::SHORT, fk::SHORT, fk::EINTR, fk::ERRNO, fk::DISKCAP, fk::DISKCAP, fk::CRASH_BEFORE, fk::CRASH_TORN, fk::CRASH_AFTER])
        } else {
            *r.pick(&[fk::SHORT, fk::SHORT, fk::EINTR, fk::ERRNO])
        };
        let opn = k == fk::ERRNO && r.p(20);
        fs.push(json!([k, opn, r.r(0, 9999), if k == fk::ERRNO { *r.pick(&[5, 28, 122]) } else { r.r(0, 9999) }]));
    }
    json!(fs)
}
/// Faults at the given fraction of the operations on the file in the undisturbed run.
fn place(fs: &Value, base: &RunOut, file: &str, write: bool) -> Vec<Fault> {
    let (xf, ox) = if write { (op::WRITE, op::OPEN_W) } else { (op::READ, op::OPEN_R) };
    arr(fs)
        .iter()
        .map(|f| {
            let k = i(&f[0]) as i32;
            if f[1].as_bool().unwrap_or(false) {
                return Fault { op: ox, label: "*".into(), nth: 0, kind: k, arg: if write { 28 } else { 13 }, sticky: false };
            }
            let n = base.count(xf, file).max(1) as i64;
            let arg = if k == fk::DISKCAP { i(&f[3]) * base.bytes(xf, file) as i64 / 10001 } else { i(&f[3]) };
            Fault { op: xf, label: if write { "*" } else { file }.into(), nth: i(&f[2]) * n / 10000, kind: k, arg, sticky: false }
        })
        .collect()
}

fn gen_r11(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let big = if tier == Tier::Quick { 12 } else { 40 };
    let kind = *r.pick(&["img", "img", "img", "mat", "mat", "cmat", "cmat", "jpg", "log", "scompare", "scompare", "sfalsecolor", "spict", "sfluxmtx"]);
    let mut c = json!({"kind": kind, "w": r.r(1, big), "h": r.r(1, big), "seed": seed32(r), "seed2": seed32(r), "style": r.r(0, 4), "ent": seed32(r) % 1000, "faults": []});
    let mode = *r.pick(&[0, 0, 0, 1, 2, 2]);
    c["mode"] = json!(mode); // 0 write faults, 1 read faults, 2 cut
    match mode {
        0 => c["faults"] = gen_faults(r, true),
        1 => c["faults"] = gen_faults(r, false),
        _ => {
            c["cut"] = json!(if r.p(20) { 9999 } else { r.r(0, 9999) });
            c["surplus"] = json!(r.p(35));
        }
    }
    c["stale"] = json!(r.p(40));
    if kind == "spict" || kind == "sfluxmtx" {
        c["sc"] = gen_scene(r, 3, kind == "spict");
        c["w"] = json!(r.r(1, 8));
        c["h"] = json!(r.r(1, 6));
    }
    c["map"] = json!(r.r(-1, 4));
    c["log"] = json!(r.p(30));
    c
}

fn f(v: &Value) -> f64 {
    v.as_f64().unwrap_or(f64::NAN)
}
/// Is a loaded image what the pixels should be stored as?
fn image_ok(d: &Value, w: usize, h: usize, want: &[[f64; 3]]) -> Result<(), String> {
    if un(&d["w"]) != w || un(&d["h"]) != h || arr(&d["v"]).len() != w * h {
        return Err(format!("loaded as {}x{} with {} pixels, stored as {w}x{h}", d["w"], d["h"], arr(&d["v"]).len()));
    }
    for (k, p) in want.iter().enumerate() {
        let m = p.iter().cloned().fold(0.0, f64::max);
        for ch in 0..3 {
            let x = f(&d["v"][k][ch]);
            let ok = if m < 1e-19 { x == 0.0 } else { x <= p[ch] * (1.0 + 1e-9) && x > p[ch] - m / 128.0 * (1.0 + 1e-6) };
            if !ok {
                return Err(format!("pixel {k} component {ch} is {x}, stored as {} (largest component {m})", p[ch]));
            }
        }
    }
    Ok(())
}
fn matrix_ok(d: &Value, w: usize, h: usize, want: &[f64], comps: usize) -> Result<(), String> {
    if un(&d["w"]) != w || un(&d["h"]) != h {
        return Err(format!("loaded as {}x{}, stored as {h} rows of {w}", d["h"], d["w"]));
    }
    for (k, x) in want.iter().enumerate() {
        let y = if comps == 1 { f(&d["v"][k]) } else { f(&d["v"][k / 3][k % 3]) };
        let ok = if comps == 1 { (y - x).abs() <= 1e-12 * x.abs() } else { (y - x).abs() <= 0.5000001e-5 + 1e-9 * x.abs() };
        if !ok {
            return Err(format!("value {k} is {y}, stored as {x}"));
        }
    }
    Ok(())
}
fn radiance(p: &[f64; 3]) -> f64 {
    // the same weights as the library, measured through a gray and three primaries by the caller
    p[0] * WR[0] + p[1] * WR[1] + p[2] * WR[2]
}
/// weights of Spectrum::radiance (CIE based, see rendering/src/colour.rs)
const WR: [f64; 3] = [0.265, 0.67, 0.065];

fn check_r11(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let kind = c["kind"].as_str().unwrap_or("img").to_string();
    let (w, h) = (un(&c["w"]).max(1), un(&c["h"]).max(1));
    let (seed, style) = (un(&c["seed"]) as u64, i(&c["style"]));
    let mode = i(&c["mode"]);
    let (d, e) = (ctx.scratch(), ctx.scratch());
    let tool = ["scompare", "sfalsecolor", "spict", "sfluxmtx"].contains(&kind.as_str());
    let file = match kind.as_str() {
        "img" | "spict" => "o.hdr",
        "mat" | "cmat" | "sfluxmtx" => "o.mtx",
        "scompare" if i(&c["map"]) < 0 => "o.hdr",
        _ => "o.jpg",
    };
    // what reads the file back
    let loader = match kind.as_str() {
        "img" | "spict" => Some("img"),
        "scompare" if file == "o.hdr" => Some("img"),
        "mat" => Some("mat"),
        "cmat" | "sfluxmtx" => Some("cmat"),
        _ => None,
    };
    o.signature = format!("{kind} m{mode} s{style} {:?} c{}", arr(&c["faults"]).iter().map(|f| (i(&f[0]), i(&f[2]) / 2000)).collect::<Vec<_>>(), i(&c["cut"]) / 500);
    // inputs of the tools
    let put = |s: &Scratch| -> Result<(), String> {
        match kind.as_str() {
            "scompare" | "sfalsecolor" => {
                for (nm, sd) in [("a.hdr", seed), ("b.hdr", un(&c["seed2"]) as u64)] {
                    let r = need(&ctx.lib("files", json!({"kind": "img", "file": nm, "w": w, "h": h, "seed": sd, "style": style}), cfg(c), s)?)?;
                    if r["res"] != "ok" {
                        return Err(format!("scenario: saving an image failed: {r}"));
                    }
                }
            }
            "spict" | "sfluxmtx" => s.write("s.rad", rad(&c["sc"])),
            _ => {}
        }
        Ok(())
    };
    put(&d)?;
    put(&e)?;
    if kind == "spict" && arr(&c["sc"]).is_empty() {
        return Ok(o);
    }
    let argv: Vec<String> = match kind.as_str() {
        "scompare" | "sfalsecolor" => {
            let mut a: Vec<String> = if kind == "scompare" { ["-a", "a.hdr", "-b", "b.hdr", "-o", file] .map(String::from).to_vec() } else { ["-i", "a.hdr", "-o", file].map(String::from).to_vec() };
            if kind == "sfalsecolor" || i(&c["map"]) >= 0 {
                a.extend(["-m".into(), maps(i(&c["map"]).max(0)).1.into()]);
            }
            if c["log"].as_bool().unwrap_or(false) {
                a.push("-l".into());
            }
            a
        }
        "spict" => ["-i", "s.rad", "-o", file, "-b", "0", "-s", "1", "-a", "1", "-x", &w.to_string(), "-y", &h.to_string(), "-p", "1 -9 0", "-d", "0 1 0", "-h", "60"].map(String::from).to_vec(),
        "sfluxmtx" => ["-i", "s.rad", "-o", file, "-a", "4", "-b", "0"].map(String::from).to_vec(),
        _ => vec![],
    };
    let args = json!({"kind": kind, "file": file, "w": w, "h": h, "seed": seed, "style": style});
    let exec = |sim: SimCfg, s: &Scratch| -> Result<(RunOut, String, String), String> {
        if tool {
            let a: Vec<&str> = argv.iter().map(|x| x.as_str()).collect();
            let r = ctx.cli(&kind, &a, sim, s)?;
            let (x, m) = (match r.exit { Some(0) => "ok", Some(1) => "err", Some(101) => "panic", _ => "died" }.to_string(), r.err_text());
            Ok((r, x, m))
        } else {
            let r = ctx.lib("files", args.clone(), sim, s)?;
            if r.crashed() {
                return Ok((r, "died".into(), String::new()));
            }
            let v = need(&r)?;
            Ok((r, v["res"].as_str().unwrap_or("").to_string(), v["err"].as_str().unwrap_or("").to_string()))
        }
    };
    let load = |kind: &str, sim: SimCfg, s: &Scratch, file: &str| -> Result<(RunOut, Value), String> {
        let r = ctx.lib("files", json!({"kind": kind, "file": file, "load": true}), sim, s)?;
        let v = need(&r)?;
        Ok((r, v))
    };
    // 1. undisturbed
    let (base, res, msg) = exec(cfg(c), &d)?;
    if let Some(s) = base.stuck() {
        o.v(format!("file-{s}"), base.note.clone());
        return Ok(o);
    }
    if res != "ok" {
        o.v("file-undisturbed-failed", format!("{kind}: undisturbed, saving ended with {res}: {msg}"));
        return Ok(o);
    }
    let full = d.read(file).unwrap_or_default();
    let content = |o: &mut CaseOut, v: &Value| {
        let r = match kind.as_str() {
            "img" => image_ok(&v["data"], w, h, &pixels(w, h, seed, style)),
            "mat" => matrix_ok(&v["data"], w, h, &scalars(w * h, seed, style), 1),
            "cmat" => matrix_ok(&v["data"], w, h, &pixels(w, h, seed, style).concat(), 3),
            "scompare" => {
                // what the two stored images hold
                let q = |sd: u64| -> Vec<f64> { pixels(w, h, sd, style).iter().map(|p| quant(p)).map(|p| radiance(&p)).collect() };
                let (x, y) = (q(seed), q(un(&c["seed2"]) as u64));
                let mut r = Ok(());
                if un(&v["data"]["w"]) != w || un(&v["data"]["h"]) != h {
                    r = Err("the difference has another size than the images".into());
                }
                for k in 0..w * h {
                    let want = (x[k] - y[k]).abs();
                    // stored components are known up to one unit of their pixel's largest one
                    let slack = want / 100.0 + (x[k].abs() + y[k].abs()) * 1e-3 + 0.009 * (maxc(&pixels(w, h, seed, style)[k]) + maxc(&pixels(w, h, un(&c["seed2"]) as u64, style)[k])) + 1e-18;
                    let got = f(&v["data"]["v"][k][0]);
                    if (got - want).abs() > slack && r.is_ok() {
                        r = Err(format!("pixel {k} of the difference is {got}, the images differ by {want}"));
                    }
                }
                r
            }
            "spict" => {
                if un(&v["data"]["w"]) != w || un(&v["data"]["h"]) != h || arr(&v["data"]["v"]).len() != w * h {
                    Err(format!("the picture is {}x{}, requested {w}x{h}", v["data"]["w"], v["data"]["h"]))
                } else {
                    Ok(())
                }
            }
            _ => Ok(()),
        };
        if let Err(x) = r {
            o.v("file-content", format!("{kind}: {x}"));
        }
    };
    if let Some(l) = loader {
        let (_, v) = load(l, cfg(c), &d, file)?;
        if v["res"] != "ok" {
            o.v("file-unreadable", format!("{kind}: the stored file cannot be read back: {}", v["err"]));
            return Ok(o);
        }
        content(&mut o, &v);
        if !o.violations.is_empty() {
            return Ok(o);
        }
    } else if !(full.starts_with(&[0xff, 0xd8]) && full.ends_with(&[0xff, 0xd9])) {
        o.v("file-content", format!("{kind}: the stored picture is not a complete JPEG file"));
        return Ok(o);
    }
    match mode {
        0 => {
            if c["stale"].as_bool().unwrap_or(false) {
                let mut s = full.clone();
                s.extend_from_slice(b"left by an older run");
                e.write(file, s);
            }
            let mut sim = cfg(c);
            sim.faults = place(&c["faults"], &base, file, true);
            let (run, res, msg) = exec(sim, &e)?;
            o.nontrivial = run.fired_any() > 0;
            let hard = run.fired(fk::ERRNO) + run.fired(fk::DISKCAP) > 0;
            if let Some(s) = run.stuck() {
                o.v(format!("file-{s}"), run.note.clone());
                return Ok(o);
            }
            if !run.crashed() {
                match res.as_str() {
                    "ok" => {
                        let got = e.read(file).unwrap_or_default();
                        if got != full {
                            o.v("file-lost", format!("{kind}: saving reported success but the file holds {} bytes instead of the {} of an undisturbed run, or others", got.len(), full.len()));
                            return Ok(o);
                        }
                        if hard {
                            // retried or replaced: fine, the file is right
                            o.add("hard_fault_survived", 1);
                        }
                    }
                    "err" if hard => {
                        if msg.is_empty() {
                            o.v("file-silent", format!("{kind}: saving failed without a message"));
                        }
                    }
                    "err" => {
                        o.v("file-soft-failed", format!("{kind}: saving failed although every fault was retryable: {msg}"));
                        return Ok(o);
                    }
                    x => {
                        o.v("file-abnormal", format!("{kind}: saving ended with {x}: {msg}"));
                        return Ok(o);
                    }
                }
            }
            // what a failed or crashed save left is not taken for a complete file
            if let (Some(l), true) = (loader, run.crashed() || res == "err") {
                let left = e.read(file).unwrap_or_default();
                let lost = left.len() < full.len() && is_prefix(&left, &full) && loses(l, &left, &full);
                if lost {
                    let (_, v) = load(l, cfg(c), &e, file)?;
                    if v["res"] == "ok" {
                        o.v("file-partial-accepted", format!("{kind}: {} of {} bytes were stored, and reading accepts the file", left.len(), full.len()));
                        return Ok(o);
                    }
                    if v["res"] == "panic" {
                        o.v("file-partial-panic", format!("{kind}: reading {} of {} bytes panicked: {}", left.len(), full.len(), v["err"]));
                        return Ok(o);
                    }
                    o.add("partial_files_rejected", 1);
                }
            }
            let (_, res, msg) = exec(cfg(c), &e)?;
            if res != "ok" || e.read(file).unwrap_or_default() != full {
                o.v("file-again", format!("{kind}: saving again after the fault: {res} {msg}, {} bytes of {}", e.read(file).unwrap_or_default().len(), full.len()));
            }
        }
        1 => {
            if kind == "scompare" || kind == "sfalsecolor" {
                let mut sim = cfg(c);
                let src = if kind == "scompare" && i(&c["cut"]) % 2 == 1 { "b.hdr" } else { "a.hdr" };
                sim.faults = place(&c["faults"], &base, src, false);
                let (run, res, msg) = exec(sim, &e)?;
                o.nontrivial = run.fired_any() > 0;
                let hard = run.fired(fk::ERRNO) > 0;
                if res == "ok" {
                    if e.read(file).unwrap_or_default() != full {
                        o.v("file-read-wrong", format!("{kind}: with disturbed reads of its input it reported success and produced another file"));
                    }
                } else if !hard || res != "err" {
                    o.v("file-read-abnormal", format!("{kind}: with disturbed reads it ended with {res}: {msg}"));
                }
            } else if let Some(l) = loader {
                let (lb, v0) = load(l, cfg(c), &d, file)?;
                let mut sim = cfg(c);
                sim.faults = place(&c["faults"], &lb, file, false);
                let (run, v) = load(l, sim, &d, file)?;
                o.nontrivial = run.fired_any() > 0;
                let hard = run.fired(fk::ERRNO) > 0;
                if v["res"] == "ok" {
                    if v != v0 {
                        o.v("file-read-wrong", format!("{kind}: disturbed reads gave other data"));
                    }
                } else if !hard || v["res"] != "err" {
                    o.v("file-read-abnormal", format!("{kind}: disturbed reads ended with {}: {}", v["res"], v["err"]));
                }
            }
        }
        _ => {
            // cut short by something else
            let (l, src, whole) = match (kind.as_str(), loader) {
                ("sfalsecolor", _) | ("scompare", _) => ("img", "a.hdr", d.read("a.hdr").unwrap_or_default()),
                (_, Some(l)) => (l, file, full.clone()),
                _ => return Ok(o),
            };
            let n = un(&c["cut"]) * whole.len() / 10000;
            let surplus = c["surplus"].as_bool().unwrap_or(false);
            // or written over a larger one, the end of which is still there
            let part = if surplus { [&whole[..], &whole[n.min(whole.len().saturating_sub(1))..]].concat() } else { whole[..n].to_vec() };
            if surplus && l != "img" && whole[n..].iter().all(|x| x.is_ascii_whitespace()) {
                return Ok(o);
            }
            if !surplus && !loses(l, &part, &whole) {
                return Ok(o);
            }
            let n = part.len();
            o.nontrivial = true;
            e.write(src, &part);
            let (res, msg) = if kind == "scompare" || kind == "sfalsecolor" {
                let (_, r, m) = exec(cfg(c), &e)?;
                (r, m)
            } else {
                let (_, v) = load(l, cfg(c), &e, src)?;
                (v["res"].as_str().unwrap_or("").to_string(), v["err"].to_string())
            };
            match res.as_str() {
                "err" => o.add("partial_files_rejected", 1),
                "ok" => o.v("file-partial-accepted", format!("{kind}: {n} bytes of {src} were there instead of {}, and it was accepted", whole.len())),
                x => o.v("file-partial-panic", format!("{kind}: {n} bytes of {src} instead of {}: ended with {x}: {msg}", whole.len())),
            }
        }
    }
    o.add(&format!("kind_{kind}"), 1);
    Ok(o)
}
fn maxc(p: &[f64; 3]) -> f64 {
    p.iter().cloned().fold(0.0, f64::max)
}
/// What an image file holds of a pixel (one unit less is tolerated by the callers).
fn quant(p: &[f64; 3]) -> [f64; 3] {
    let m = maxc(p);
    if m < 1e-19 {
        return [0.0; 3];
    }
    let mut u = 2f64.powi(m.log2().floor() as i32 + 1 - 8);
    if m / u >= 256.0 {
        u *= 2.0;
    }
    p.map(|x| (x / u).floor() * u)
}
/// Does the shortened file miss something for sure?
fn loses(kind: &str, part: &[u8], whole: &[u8]) -> bool {
    if kind == "img" {
        return part.len() < whole.len();
    }
    // a matrix: at least one whole value is missing
    let vals = |b: &[u8]| String::from_utf8_lossy(b).split_ascii_whitespace().count();
    vals(part) < vals(whole)
}
