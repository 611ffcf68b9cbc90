//! R07 results of parallel computations do not depend on the schedule or the number of workers.
use super::results::*;
use crate::bldg::*;
use crate::drive::*;
use crate::job::*;
use crate::rng::*;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "R07",
        gen: gen_r07,
        check: check_r07,
        quick: 600,
        thorough: 40000,
        rule: "each case: a seeded workload (daylight coefficients, rendering, matrix product, optical information of a building, or a whole simulation with solar gains) executed by a pool of 2 to 6 workers under a seeded schedule and compared with one worker and with an independent oracle; non-trivial when the schedule switched threads at least 4 times",
        real: &["rendering (ray tracer, daylight coefficients, BVH), light, matrix, simple::run_simulation", "rayon thread pool and work stealing", "std locks, threads and channels"],
        stub: &["scheduler (futex, thread, sleep calls are simulated; one runnable thread at a time)", "entropy (the same bytes at every request)", "clock"],
        assumptions: &["every random generator is seeded with the same simulated entropy, so that a difference can only come from the schedule", "sequentially consistent memory: one thread runs at a time, preempted at basic-block boundaries"],
    }]
}

// ------------------------------------------------------------------ schedules
pub fn gen_sched(r: &mut Rng) -> Value {
    json!({"seed": seed32(r), "strategy": *r.pick(&[1, 1, 1, 2, 2]), "quantum": *r.pick(&[3, 10, 30, 100, 300, 1000, 3000, 20000, 100000]), "workers": r.r(2, 6), "spurious": *r.pick(&[0, 0, 20])})
}
pub fn sched_cfg(c: &Value, mut sim: SimCfg) -> SimCfg {
    let s = &c["sched"];
    if s.is_object() {
        sim.seed = i(&s["seed"]) as u64;
        sim.strategy = i(&s["strategy"]) as i32;
        sim.quantum = i(&s["quantum"]).max(1);
        sim.workers = un(&s["workers"]).clamp(1, 8);
        sim.spurious = i(&s["spurious"]) as i32;
        if s["explicit"].is_array() {
            sim.explicit = serde_json::from_value(s["explicit"].clone()).ok();
        }
    }
    sim
}

// ------------------------------------------------------------------ scenes
/// An axis-aligned rectangle: axis, position along it, extents along the two others, material, flipped.
pub fn gen_scene(r: &mut Rng, max: i64, lights: bool) -> Value {
    let n = r.r(1, max);
    json!((0..n)
        .map(|k| {
            let m = if lights && (k == 0 || r.p(30)) { 1 } else { *r.pick(&[0, 0, 0, 2, 3, 4, 5]) };
            json!([r.r(0, 2), r.r(-6, 6), r.r(-6, 2), r.r(1, 6), r.r(-6, 2), r.r(1, 6), m, r.r(0, 1), r.r(1, 9)])
        })
        .collect::<Vec<_>>())
}
/// corners of rectangle k; every rectangle gets its own offset so that no two are coplanar
pub fn corners(q: &Value, k: usize) -> [[f64; 3]; 4] {
    let ax = un(&q[0]) % 3;
    let pos = match i(&q[9]) {
        0 => i(&q[1]) as f64 + 0.0137 * (k as f64 + 1.0),
        f => i(&q[1]) as f64 + 0.001 * (f - 2) as f64, // flush with others, or at the offset of shadow rays
    };
    let (u0, u1) = (i(&q[2]) as f64 + 0.003 * k as f64, (i(&q[2]) + i(&q[3]).max(1)) as f64);
    let (v0, v1) = (i(&q[4]) as f64 - 0.002 * k as f64, (i(&q[4]) + i(&q[5]).max(1)) as f64);
    let mk = |u: f64, v: f64| {
        let mut p = [0.0; 3];
        p[ax] = pos;
        p[(ax + 1) % 3] = u;
        p[(ax + 2) % 3] = v;
        p
    };
    let mut c = [mk(u0, v0), mk(u1, v0), mk(u1, v1), mk(u0, v1)];
    if i(&q[7]) == 1 {
        c.reverse();
    }
    c
}
pub fn mat_rgb(q: &Value, k: usize) -> [f64; 3] {
    let g = i(&q[8]).max(1) as f64;
    [g / 10.0, (g + (k % 3) as f64) / 20.0, (g + 1.0) / 16.0]
}
pub fn rad(sc: &Value) -> String {
    let mut s = String::new();
    for (k, q) in arr(sc).iter().enumerate() {
        let c = mat_rgb(q, k);
        let m = match i(&q[6]) {
            1 => format!("void light m{k} 0 0 3 {} {} {}\n", c[0] * 100.0, c[1] * 100.0, c[2] * 100.0),
            2 => format!("void mirror m{k} 0 0 3 {} {} {}\n", c[0], c[1], c[2]),
            3 => format!("void glass m{k} 0 0 3 {} {} {}\n", c[0], c[1], c[2]),
            4 => format!("void metal m{k} 0 0 5 {} {} {} 0.5 0.1\n", c[0], c[1], c[2]),
            5 => format!("void plastic m{k} 0 0 5 {} {} {} 0.05 0.1\n", c[0], c[1], c[2]),
            _ => format!("void plastic m{k} 0 0 5 {} {} {} 0 0\n", c[0], c[1], c[2]),
        };
        s.push_str(&m);
        let p: Vec<String> = corners(q, k).iter().map(|p| format!("{} {} {}", p[0], p[1], p[2])).collect();
        s.push_str(&format!("m{k} polygon p{k} 0 0 12 {}\n", p.join(" ")));
    }
    s
}
/// What a viewing ray sees when every rectangle emits: Some(colour), or None when too close to an edge to tell.
fn sees(sc: &Value, o: [f64; 3], d: [f64; 3]) -> Option<Option<usize>> {
    let mut best: Option<(f64, usize)> = None;
    for (k, q) in arr(sc).iter().enumerate() {
        let c = corners(q, k);
        let ax = un(&q[0]) % 3;
        if d[ax].abs() < 1e-6 {
            return None;
        }
        let t = (c[0][ax] - o[ax]) / d[ax];
        if t.abs() < 1e-3 {
            return None;
        }
        if t < 0.0 {
            continue;
        }
        let (ua, va) = ((ax + 1) % 3, (ax + 2) % 3);
        let (u, v) = (o[ua] + t * d[ua], o[va] + t * d[va]);
        let mm = |a: usize| (c.iter().map(|p| p[a]).fold(f64::MAX, f64::min), c.iter().map(|p| p[a]).fold(f64::MIN, f64::max));
        let ((u0, u1), (v0, v1)) = (mm(ua), mm(va));
        let mu = (u - u0).min(u1 - u);
        let mv = (v - v0).min(v1 - v);
        let m = mu.min(mv);
        if m.abs() < 1e-3 {
            return None;
        }
        // the diagonal along which the rectangle may be split
        let du = (u - u0) / (u1 - u0);
        let dv = (v - v0) / (v1 - v0);
        if m > 0.0 && ((du - dv).abs() < 1e-3 || (du + dv - 1.0).abs() < 1e-3) {
            return None;
        }
        if m > 0.0 {
            if let Some((bt, _)) = best {
                if (bt - t).abs() < 1e-3 {
                    return None;
                }
            }
            if best.map_or(true, |b| t < b.0) {
                best = Some((t, k));
            }
        }
    }
    Some(best.map(|b| b.1))
}

// ------------------------------------------------------------------ R07
fn gen_r07(r: &mut Rng, _i: u64, tier: Tier) -> Value {
    let big = tier == Tier::Thorough;
    let kind = *r.pick(&[0, 0, 0, 1, 1, 1, 2, 2, 3, 4]);
    let mut c = json!({"kind": kind, "sched": gen_sched(r), "ent": seed32(r) % 1000});
    match kind {
        0 => {
            c["sc"] = gen_scene(r, if big { 10 } else { 6 }, false);
            if r.p(25) {
                c["sc"] = json!([]);
            }
            let n = r.r(1, if big { 20 } else { 8 });
            c["rays"] = json!((0..n).map(|_| json!([[r.r(-5, 5), r.r(-5, 5), r.r(-5, 5)], [r.r(-3, 3), r.r(-3, 3), r.r(1, 3)]])).collect::<Vec<_>>());
            c["samples"] = json!(r.r(1, if big { 60 } else { 25 }));
            c["depth"] = json!(*r.pick(&[0, 0, 1, 2, 5]));
            c["mf"] = json!(*r.pick(&[1, 1, 2]));
            if arr(&c["sc"]).is_empty() && r.p(70) {
                c["samples"] = json!(400);
                c["mf"] = json!(*r.pick(&[1, 2, 2, 3]));
                if r.p(60) && i(&c["mf"]) < 3 {
                    // once more with enough samples to tell small displacements
                    c["deep"] = json!(20000);
                }
                c["rays"] = json!((0..r.r(1, 3))
                    .map(|_| {
                        let d = [r.r(-3, 3), r.r(-3, 3), r.r(-3, 3)];
                        json!([[r.r(-5, 5), r.r(-5, 5), r.r(-5, 5)], if d == [0, 0, 0] { [0, 0, 1] } else { d }])
                    })
                    .collect::<Vec<_>>());
            }
        }
        1 => {
            let emit = r.p(50);
            let mut sc = gen_scene(r, if big { 12 } else { 7 }, true);
            if emit {
                for q in sc.as_array_mut().unwrap() {
                    q[6] = json!(1);
                }
            }
            c["sc"] = sc;
            c["cam"] = json!({"p": [r.r(-9, 9), r.r(-14, -7), r.r(-5, 5)], "d": [r.r(-2, 2), r.r(3, 6), r.r(-2, 2)], "fov": r.r(30, 80), "x": r.r(1, 40), "y": r.r(1, if big { 40 } else { 18 })});
            c["samples"] = json!(if emit { 1 } else { r.r(1, 3) });
            c["shadow"] = json!(r.r(1, 2));
            c["depth"] = json!(if emit { 0 } else { r.r(0, 2) });
        }
        2 => {
            let m = if big { 60 } else { 24 };
            for k in ["m", "k", "n"] {
                c[k] = json!(match r.n(10) {
                    0 | 1 => r.r(60, 150),
                    2 => *r.pick(&[145, 146, 289, 577, 2305 / 8]),
                    3 => *r.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129]),
                    _ => r.r(1, m),
                });
            }
            c["mseed"] = json!(seed32(r));
        }
        3 => {
            c["b"] = gen(r, Opt::default());
            c["points"] = json!(r.r(1, 2));
            c["samples"] = json!(r.r(1, 8));
            c["mf"] = json!(1);
        }
        _ => {
            let b = base_case_opt(r, 4, Opt { solar: true, ..Opt::default() });
            c["b"] = b["b"].clone();
            c["w"] = b["w"].clone();
            c["n"] = json!(r.r(1, 3));
            c["ctl"] = json!(r.r(0, 3));
        }
    }
    c
}

fn run_pair(ctx: &Ctx, o: &mut CaseOut, c: &Value, d: &Scratch, scen: &str, args: Value) -> Result<Option<(Value, Value)>, String> {
    let base = need(&ctx.lib(scen, args.clone(), cfg(c), d)?)?;
    if base["panic"].is_string() {
        o.add("workload_rejected", 1);
        o.signature = "rejected".into();
        return Ok(None);
    }
    let mut sc = sched_cfg(c, cfg(c));
    sc.step_limit = 2_000_000_000;
    let out = ctx.lib(scen, args, sc, d)?;
    o.nontrivial = out.head.switches >= 4;
    o.add("switches", out.head.switches);
    if let Some(s) = out.stuck() {
        o.v(format!("par-{s}"), format!("{scen} with {} workers did not finish: {}", c["sched"]["workers"], out.note));
        return Ok(None);
    }
    let run = need(&out)?;
    if run["panic"].is_string() {
        o.v("par-panic", format!("{scen} with {} workers panicked: {}", c["sched"]["workers"], run["panic"]));
        return Ok(None);
    }
    Ok(Some((base, run)))
}
fn f(v: &Value) -> f64 {
    v.as_f64().unwrap_or(f64::NAN)
}

fn check_r07(ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    let mut o = CaseOut::default();
    let d = ctx.scratch();
    let kind = i(&c["kind"]);
    o.signature = format!("k{kind} w{} q{} s{} {}", c["sched"]["workers"], c["sched"]["quantum"], c["sched"]["strategy"], i(&c["sched"]["seed"]) % 8);
    match kind {
        0 => {
            let rays = arr(&c["rays"]).len();
            if rays == 0 {
                return Ok(o);
            }
            d.write("s.rad", rad(&c["sc"]));
            let n = un(&c["samples"]).max(1);
            let mut args = json!({"rays": c["rays"], "samples": n, "depth": c["depth"], "mf": c["mf"], "one_by_one": true});
            let single = need(&ctx.lib("dc", args.clone(), cfg(c), &d)?)?;
            args["one_by_one"] = json!(false);
            let Some((base, run)) = run_pair(ctx, &mut o, c, &d, "dc", args.clone())? else { return Ok(o) };
            for (nm, other) in [("one worker", &base), ("one sensor at a time", &single)] {
                if other["rows"] != run["rows"] {
                    let (a, b) = (arr(&other["rows"]), arr(&run["rows"]));
                    let k = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                    o.v("par-dc-differs", format!("daylight coefficients of sensor {k} differ from those computed with {nm}"));
                    return Ok(o);
                }
            }
            let rows = arr(&run["rows"]);
            if rows.len() != rays {
                o.v("par-dc-shape", format!("{} rows for {rays} sensors", rows.len()));
            }
            let open = arr(&c["sc"]).is_empty();
            for (k, row) in rows.iter().enumerate() {
                for ch in 0..3 {
                    let s: f64 = arr(row).iter().map(|x| f(&x[ch])).sum();
                    if arr(row).iter().any(|x| !(f(&x[ch]) >= 0.0)) {
                        o.v("par-dc-negative", format!("sensor {k} has a negative coefficient"));
                        return Ok(o);
                    }
                    if open && (s - std::f64::consts::PI).abs() > 1e-9 {
                        o.v("par-dc-total", format!("sensor {k} in the open receives {s} instead of pi from a uniform sky"));
                        return Ok(o);
                    }
                    if i(&c["depth"]) == 0 {
                        let unit = std::f64::consts::PI / n as f64;
                        for x in arr(row) {
                            let q = f(&x[ch]) / unit;
                            if (q - q.round()).abs() > 1e-6 {
                                o.v("par-dc-quantum", format!("sensor {k}: coefficient {} is not a whole number of samples", f(&x[ch])));
                                return Ok(o);
                            }
                        }
                        if s > std::f64::consts::PI * (1.0 + 1e-9) {
                            o.v("par-dc-total", format!("sensor {k} receives {s}, more than an open sky"));
                            return Ok(o);
                        }
                    }
                }
            }
            // each patch of the sky lies where it should
            if open {
                let mf = un(&c["mf"]).max(1);
                let pt = crate::scen::skyref::patches(mf);
                let (mut n, mut rows, fine) = (n, rows.to_vec(), un(&c["deep"]));
                if fine > n {
                    // one sensor, once and again with other random numbers
                    args["samples"] = json!(fine);
                    args["one_by_one"] = json!(true);
                    args["rays"] = json!([c["rays"][0]]);
                    let mut sum: Vec<[f64; 3]> = vec![];
                    for t in 0..10 {
                        let mut again = c.clone();
                        again["ent"] = json!(i(&c["ent"]) + 1000 * t);
                        let out = need(&ctx.lib("dc", args.clone(), cfg(&again), &d)?)?;
                        let row = arr(&out["rows"][0]);
                        sum.resize(row.len(), [0.0; 3]);
                        for (x, y) in sum.iter_mut().zip(row) {
                            for ch in 0..3 {
                                x[ch] += f(&y[ch]) / 10.0;
                            }
                        }
                    }
                    (n, rows) = (10 * fine, vec![json!(sum)]);
                    o.add("deep_sensors", 1);
                }
                for (k, row) in rows.iter().enumerate() {
                    let deep = n > 10000;
                    let nv: Vec<f64> = arr(&c["rays"][k][1]).iter().map(f).collect();
                    let l = nv.iter().map(|x| x * x).sum::<f64>().sqrt();
                    let nv = [nv[0] / l, nv[1] / l, nv[2] / l];
                    let w = crate::scen::skyref::open_view(mf, nv, if deep { 4 } else { 1 });
                    let (mut got, mut want) = ([0.0; 4], [0.0; 4]);
                    // share of the view below each row of patches
                    let (mut below, mut gap) = ([0.0; 2], (0.0f64, 0.0));
                    for (b, (dir, _)) in pt.iter().enumerate() {
                        let x = f(&row[b][0]) / std::f64::consts::PI;
                        // the corners of a patch are less than 0.3 away from its centre
                        let dot = dir[0] * nv[0] + dir[1] * nv[1] + dir[2] * nv[2];
                        if b > 0 && w[b] == 0.0 && dot < -0.3 && x > 0.0 {
                            o.v("par-dc-behind", format!("sensor {k} in the open receives {x} from patch {b}, which is behind it"));
                            return Ok(o);
                        }
                        if b > 0 && (dir[2] - pt[b - 1].0[2]).abs() > 1e-9 && (below[0] - below[1] as f64).abs() > gap.0 {
                            gap = ((below[0] - below[1]).abs(), dir[2]);
                        }
                        below[0] += x;
                        below[1] += w[b];
                        for ch in 0..3 {
                            if b > 0 {
                                got[ch] += x * dir[ch];
                                want[ch] += w[b] * dir[ch];
                            }
                        }
                        if b == 0 {
                            got[3] = x;
                            want[3] = w[0];
                        }
                    }
                    let err = got.iter().zip(&want).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
                    // a component varies by 1/2 at the most
                    let tol = 2.5 / (n as f64).sqrt() + 0.005;
                    if !(gap.0 <= tol) {
                        o.v("par-dc-where", format!("sensor {k} in the open, facing {nv:?}: the share of its view below height {} is wrong by {} ({n} samples)", gap.1, gap.0));
                        return Ok(o);
                    }
                    if !(err <= tol) {
                        o.v("par-dc-where", format!("sensor {k} in the open, facing {nv:?}, sees the sky at {got:?} instead of {want:?} ({n} samples)"));
                        return Ok(o);
                    }
                    // each row of patches, turned towards and across the direction of the sensor
                    let mut b = 1;
                    while deep && b < pt.len() {
                        let e = (b..pt.len()).find(|q| (pt[*q].0[2] - pt[b].0[2]).abs() > 1e-9).unwrap_or(pt.len());
                        for t in 0..2 {
                            let (mut got, mut want, mut var) = (0.0, 0.0, 0.0);
                            for q in b..e {
                                let az = pt[q].0[0].atan2(pt[q].0[1]) - nv[0].atan2(nv[1]);
                                let s = if t == 0 { az.sin() } else { az.cos() };
                                got += f(&row[q][0]) / std::f64::consts::PI * s;
                                want += w[q] * s;
                                var += w[q] * s * s;
                            }
                            if !((got - want as f64).abs() <= 5.5 * (var / n as f64).sqrt() + 3e-4) {
                                o.v("par-dc-where", format!("sensor {k} in the open, facing {nv:?}: patches {b} to {} weigh {got} instead of {want} ({n} samples)", e - 1));
                                return Ok(o);
                            }
                        }
                        b = e;
                    }
                    o.add("open_sensors", 1);
                }
            }
            o.add("dc_rows", rows.len() as u64);
        }
        1 => {
            if arr(&c["sc"]).is_empty() {
                return Ok(o);
            }
            d.write("s.rad", rad(&c["sc"]));
            let emit = arr(&c["sc"]).iter().all(|q| i(&q[6]) == 1) && i(&c["depth"]) == 0;
            let args = json!({"cam": c["cam"], "samples": c["samples"], "shadow": c["shadow"].as_i64().unwrap_or(1).max(1), "depth": c["depth"], "want_rays": emit});
            let Some((base, run)) = run_pair(ctx, &mut o, c, &d, "render", args)? else { return Ok(o) };
            let (w, h) = (un(&c["cam"]["x"]).max(1), un(&c["cam"]["y"]).max(1));
            if run["w"] != json!(w) || run["h"] != json!(h) {
                o.v("par-render-shape", format!("the image is {}x{}, requested {w}x{h}", run["w"], run["h"]));
                return Ok(o);
            }
            if base["px"] != run["px"] {
                let k = arr(&base["px"]).iter().zip(arr(&run["px"])).position(|(a, b)| a != b).unwrap_or(0);
                o.v("par-render-differs", format!("pixel {k} ({},{}) is {} with one worker and {} with {}", k % w, k / w, base["px"][k], run["px"][k], c["sched"]["workers"]));
                return Ok(o);
            }
            o.add("pixels", (w * h) as u64);
            if emit {
                for k in 0..w * h {
                    let r = &run["rays"][k];
                    let v3 = |x: &Value| [f(&x[0]), f(&x[1]), f(&x[2])];
                    if let Some(hit) = sees(&c["sc"], v3(&r[0]), v3(&r[1])) {
                        let want = hit.map_or([0.0; 3], |q| mat_rgb(&c["sc"][q], q).map(|x| x * 100.0));
                        o.add("pixels_against_oracle", 1);
                        for ch in 0..3 {
                            if (f(&run["px"][k][ch]) - want[ch]).abs() > 1e-6 * (1.0 + want[ch]) {
                                o.v("par-render-pixel", format!("pixel ({},{}) is {}, the nearest emitter on its viewing ray has {want:?}", k % w, k / w, run["px"][k]));
                                return Ok(o);
                            }
                        }
                    }
                }
            }
        }
        2 => {
            let args = json!({"m": un(&c["m"]).max(1), "k": un(&c["k"]).max(1), "n": un(&c["n"]).max(1), "mseed": c["mseed"]});
            let Some((_, run)) = run_pair(ctx, &mut o, c, &d, "matmul", args)? else { return Ok(o) };
            for w in ["got", "op"] {
                if run[w] != run["want"] {
                    let k = arr(&run[w]).iter().zip(arr(&run["want"])).position(|(a, b)| a != b).unwrap_or(0);
                    o.v("par-matmul", format!("element {k} of the product is {}, expected {}", run[w][k], run["want"][k]));
                    return Ok(o);
                }
            }
            o.add("products", 2);
        }
        3 => {
            let bl = build(&c["b"]);
            let args = json!({"model": bl.model, "points": c["points"], "samples": c["samples"], "mf": c["mf"]});
            let Some((base, run)) = run_pair(ctx, &mut o, c, &d, "optical", args)? else { return Ok(o) };
            if run["harness_error"].is_string() || base["harness_error"].is_string() {
                return Err(format!("{}", run["harness_error"]));
            }
            for k in base.as_object().unwrap().keys() {
                if base[k] != run[k] {
                    o.v("par-optical-differs", format!("{k} differs between one and {} workers", c["sched"]["workers"]));
                    return Ok(o);
                }
            }
            let ns = arr(&bl.model["surfaces"]).len();
            let nf = arr(&bl.model["fenestrations"]).len();
            for (k, n) in [("front_surfaces_view_factors", ns), ("back_surfaces_view_factors", ns), ("front_fenestrations_view_factors", nf), ("back_fenestrations_view_factors", nf)] {
                let l = arr(&run[k]);
                if l.len() != n {
                    o.v("par-optical-shape", format!("{k} has {} entries for {n} objects", l.len()));
                }
                for (j, v) in l.iter().enumerate() {
                    let (a, b, g) = (f(&v["sky"]), f(&v["air"]), f(&v["ground"]));
                    if (a + b + g - 1.0).abs() > 1e-6 || [a, b, g].iter().any(|x| !(*x >= -1e-9 && *x <= 1.0 + 1e-9)) {
                        o.v("par-view-factors", format!("{k}[{j}]: sky {a}, air {b} and ground {g} do not add up to one"));
                    }
                }
            }
        }
        _ => {
            let bl = put_inputs(c, &d);
            let ctl = match i(&c["ctl"]) {
                0 => "void".to_string(),
                1 => "people".to_string(),
                k => {
                    d.write("c.rhai", script(k - 1, &bl));
                    "c.rhai".to_string()
                }
            };
            let args = json!({"model": bl.model, "weather": "w.sw", "n": i(&c["n"]).max(1), "control": ctl, "sink": {}});
            let Some((base, run)) = run_pair(ctx, &mut o, c, &d, "sim", args)? else { return Ok(o) };
            for k in ["res", "err", "out"] {
                if base[k] != run[k] {
                    o.v("par-sim-differs", format!("{k} of a simulation differs between one and {} workers: {}", c["sched"]["workers"], first_diff(run[k].as_str().unwrap_or(""), base[k].as_str().unwrap_or(""))));
                    return Ok(o);
                }
            }
        }
    }
    Ok(o)
}
