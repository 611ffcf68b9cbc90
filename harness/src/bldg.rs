//! Seeded buildings, weather files and their rendering as model/weather documents.
//! A building is a small JSON spec whose numbers are interpreted modulo what exists,
//! so any shrunk spec is still a valid building.
use crate::rng::*;
use serde_json::{json, Map, Value};

pub fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or(0)
}
pub fn un(v: &Value) -> usize {
    v.as_u64().unwrap_or(0) as usize
}
pub fn arr(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub max_spaces: i64,
    pub max_walls: i64,
    pub solar: bool,
    pub hvac: bool,
    pub outputs: bool,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { max_spaces: 3, max_walls: 4, solar: false, hvac: true, outputs: true }
    }
}

pub fn gen(r: &mut Rng, o: Opt) -> Value {
    let ns = r.r(1, o.max_spaces);
    let spaces: Vec<Value> = (0..ns)
        .map(|_| json!({"vol": r.r(10, 120), "infil": r.r(0, 8), "purpose": r.r(0, 11)}))
        .collect();
    let nw = r.r(1, o.max_walls);
    let walls: Vec<Value> = (0..nw)
        .map(|_| {
            let other = match r.n(10) {
                0..=5 => 0,
                6 => 1,
                7 => 2,
                _ => 3 + r.r(0, ns - 1),
            };
            let mut w = json!({"s": r.r(0, ns - 1), "o": r.r(0, 5), "c": r.r(0, 5), "win": if r.p(35) { r.r(1, 4) } else { 0 }, "other": other});
            if r.p(25) {
                w["tilt"] = json!(r.r(-70, 70));
            }
            if i(&w["win"]) > 0 && r.p(50) {
                // a window cut anywhere in the wall
                let (a, c) = (r.r(1, 34), r.r(1, 34));
                w["par"] = json!(true);
                w["rc"] = json!([a, r.r(a + 2, 39), c, r.r(c + 2, 39)]);
            }
            if i(&w["win"]) > 0 && other != 0 {
                w["inwin"] = json!(r.p(60));
            }
            if i(&w["win"]) > 0 && r.p(12) {
                w["hole"] = json!(true);
            }
            w
        })
        .collect();
    let mut hv = vec![];
    if o.hvac {
        for _ in 0..r.r(0, 3) {
            hv.push(json!({"k": r.r(0, 1), "s": r.r(0, ns - 1), "hp": r.r(1, 40) * 50, "cp": r.r(1, 40) * 50, "hs": r.r(14, 22), "cs": r.r(23, 29), "m": r.r(0, 5)}));
        }
    }
    let mut lu = vec![];
    if o.hvac {
        for _ in 0..r.r(0, 2) {
            lu.push(json!({"s": r.r(0, ns - 1), "p": r.r(1, 30) * 10}));
        }
    }
    let mut out = vec![];
    if o.outputs && r.p(75) {
        for _ in 0..r.r(1, 5) {
            out.push(json!([r.r(0, 11), r.r(0, 5)]));
        }
    }
    json!({"spaces": spaces, "walls": walls, "hvac": hv, "lum": lu, "out": out,
        "terrain": r.r(0, 5), "vary": if r.p(40) { r.r(1, 99999) } else { 0 }, "solar": if o.solar { json!({"pts": r.r(1, 4), "div": r.r(1, 8)}) } else { json!(null) }})
}

pub fn space_name(k: usize) -> String {
    ["Living room", "living room", "Living room ", "Hall (4)"][k % 4].to_string()
}
/// Names that are easy to take for each other.
fn alike(n: &str, k: usize) -> String {
    match k % 4 {
        0 => format!("{n}{}", k / 4),
        1 => format!("{}{}", n.to_lowercase(), k / 4),
        2 => format!("{n} {}", k / 4),
        _ => format!("{n}{} ", k / 4),
    }
}
pub fn surf_name(k: usize) -> String {
    alike("Wall", k)
}
pub fn fen_name(k: usize) -> String {
    alike("Win #", k)
}
pub fn hvac_name(k: usize) -> String {
    alike("HVAC ", k)
}
pub fn lum_name(k: usize) -> String {
    alike("Lamp", k)
}

pub struct Built {
    pub model: Value,
    pub ns: usize,
    pub nsurf: usize,
    pub nfen: usize,
    /// how each fenestration operates: 0 none/fixed, 1 continuous, 2 binary
    pub fen_op: Vec<i64>,
    pub hvac: Vec<(usize, usize)>, // (kind, space)
    pub nlum: usize,
}

/// Builds the model document (JSON form).
pub fn build(b: &Value) -> Built {
    let mut subst = json!([
        {"type":"Normal","name":"concrete","thermal_conductivity":1.7,"density":2242.0,"specific_heat_capacity":836.0,"front_thermal_absorbtance":0.9,"back_thermal_absorbtance":0.9,"front_solar_absorbtance":0.65,"back_solar_absorbtance":0.6},
        {"type":"Normal","name":"insul","thermal_conductivity":0.04,"density":30.0,"specific_heat_capacity":800.0,"front_thermal_absorbtance":0.85,"back_thermal_absorbtance":0.9,"front_solar_absorbtance":0.75,"back_solar_absorbtance":0.7},
        {"type":"Normal","name":"glass subs","thermal_conductivity":1.0,"density":2500.0,"specific_heat_capacity":800.0,"solar_transmittance":0.8,"front_solar_absorbtance":0.1,"back_solar_absorbtance":0.1,"front_thermal_absorbtance":0.84,"back_thermal_absorbtance":0.84},
        {"type":"Gas","name":"air gas","gas":"Air"},
        {"type":"Normal","name":"timber","thermal_conductivity":0.14,"density":600.0,"specific_heat_capacity":1600.0,"front_thermal_absorbtance":0.8,"back_thermal_absorbtance":0.8,"front_solar_absorbtance":0.5,"back_solar_absorbtance":0.5}
    ]);
    let mut mats = json!([
        {"name":"conc 200","substance":"concrete","thickness":0.2},
        {"name":"insul 50","substance":"insul","thickness":0.05},
        {"name":"glass 3","substance":"glass subs","thickness":0.003},
        {"name":"cavity","substance":"air gas","thickness":0.0125},
        {"name":"timber 20","substance":"timber","thickness":0.02}
    ]);
    let cons = json!([
        {"name":"heavy","materials":["conc 200"]},
        {"name":"light","materials":["insul 50"]},
        {"name":"heavy ins","materials":["insul 50","conc 200"]},
        {"name":"timber wall","materials":["timber 20","insul 50","timber 20"]},
        {"name":"mixed","materials":["conc 200","insul 50","timber 20"]},
        {"name":"timber","materials":["timber 20"]},
        {"name":"single glass","materials":["glass 3"]},
        {"name":"double glass","materials":["glass 3","cavity","glass 3"]},
        {"name":"triple glass","materials":["glass 3","cavity","glass 3","cavity","glass 3"]},
        {"name":"cavity wall","materials":["timber 20","cavity","conc 200"]}
    ]);
    let mut cname = ["heavy", "light", "heavy ins", "timber wall", "mixed", "timber"];
    let mut double = "double glass";
    let vary = i(&b["vary"]).max(0) as u64;
    let mut v = Rng::new(vary);
    let mut flow = 1.0;
    let mut ambient = 16.5;
    if vary > 0 {
        // other materials under the same names
        flow = v.r(1, 40) as f64 / 10.0;
        ambient = v.r(-10, 40) as f64 / 2.0;
        if v.p(40) {
            double = "triple glass";
        }
        if v.p(40) {
            cname[5] = "cavity wall";
        }
        for (k, (lo, hi)) in [(50, 350), (10, 200), (3, 10), (6, 20), (10, 60)].into_iter().enumerate() {
            mats[k]["thickness"] = json!(v.r(lo, hi) as f64 / 1000.0);
        }
        for k in [0, 1, 2, 4] {
            for q in ["front_thermal_absorbtance", "back_thermal_absorbtance"] {
                subst[k][q] = json!(v.r(5, 95) as f64 / 100.0);
            }
            for q in ["thermal_conductivity", "density", "specific_heat_capacity"] {
                subst[k][q] = json!((subst[k][q].as_f64().unwrap() * v.r(60, 160) as f64).round() / 100.0);
            }
            let tau = if k == 2 { v.r(20, 85) } else { 0 };
            if k == 2 {
                subst[k]["solar_transmittance"] = json!(tau as f64 / 100.0);
            }
            for q in ["front_solar_absorbtance", "back_solar_absorbtance"] {
                subst[k][q] = json!(v.r(2, 98 - tau) as f64 / 100.0);
            }
        }
        subst[3]["gas"] = json!(*v.pick(&["Air", "Argon", "Krypton", "Xenon"]));
    }
    let sp = arr(&b["spaces"]);
    let ns = sp.len().clamp(1, 4);
    let dflt = json!({"vol": 40});
    let mut spaces = vec![];
    for k in 0..ns {
        let s = sp.get(k).unwrap_or(&dflt);
        let mut m = Map::new();
        m.insert("name".into(), json!(space_name(k)));
        m.insert("volume".into(), json!(i(&s["vol"]).max(1) as f64));
        m.insert("storey".into(), json!(k % 2));
        m.insert("building".into(), json!("The building"));
        let inf = match i(&s["infil"]) {
            1 => Some(json!({"type":"Constant","flow":0.01 * flow})),
            2 => Some(json!({"type":"Blast","flow":0.015 * flow})),
            3 => Some(json!({"type":"Doe2","flow":0.02 * flow})),
            4 => Some(json!({"type":"DesignFlowRate","a":0.6,"b":0.03,"c":0.1,"d":0.01,"phi":0.01 * flow})),
            5 => Some(json!({"type":"EffectiveAirLeakageArea","area":0.02 * flow})),
            _ => None,
        };
        if let Some(x) = inf {
            m.insert("infiltration".into(), x);
        }
        let pu = ["Bathroom", "Bedroom", "Kitchen", "LivingRoom", "Office", "Hallway"];
        let p = un(&s["purpose"]);
        if p > 0 && p <= pu.len() {
            m.insert("purposes".into(), json!([pu[p - 1]]));
        }
        spaces.push(Value::Object(m));
    }
    let mut surfaces = vec![];
    let mut fens = vec![];
    let mut fen_op = vec![];
    let mut fen_end = vec![];
    for (k, w) in arr(&b["walls"]).iter().enumerate() {
        let s = un(&w["s"]) % ns;
        let oth = i(&w["other"]);
        let other = match oth {
            0 => json!({"type":"Outdoor"}),
            1 => json!({"type":"Adiabatic"}),
            2 => json!({"type":"AmbientTemperature","temperature":ambient}),
            x => {
                let t = (x - 3) as usize % ns;
                if t == s {
                    json!({"type":"Outdoor"})
                } else {
                    json!({"type":"Space","space":space_name(t)})
                }
            }
        };
        let outdoor = other["type"] == "Outdoor";
        let x0 = 10.0 * s as f64 + 0.001 * k as f64;
        let (a, c, h) = (4.0, 3.0, 2.5);
        let o = un(&w["o"]) % 6;
        let tilt = (i(&w["tilt"]).clamp(-80, 80) as f64).to_radians();
        let (sin, cos) = if o < 4 && i(&w["tilt"]) != 0 { tilt.sin_cos() } else { (0.0, 1.0) };
        let rect = |u0: f64, u1: f64, v0: f64, v1: f64, off: f64| -> Vec<f64> {
            // u along the wall, v up (or along y for horizontal surfaces); normal outward
            let q = |u: f64, v: f64| -> [f64; 3] {
                let z = v * h * cos;
                let off = off + v * h * sin;
                match o {
                    0 => [x0 + u * a, 0.0 - off, z],
                    1 => [x0 + (1.0 - u) * a, c + off, z],
                    2 => [x0 - off, c * (1.0 - u), z],
                    3 => [x0 + a + off, c * u, z],
                    4 => [x0 + u * a, c * (1.0 - v), 0.0 - off],
                    _ => [x0 + u * a, c * v, h + off],
                }
            };
            let mut l = vec![];
            for (u, v) in [(u0, v0), (u1, v0), (u1, v1), (u0, v1)] {
                l.extend_from_slice(&q(u, v));
            }
            l
        };
        let off = 0.02 * k as f64;
        surfaces.push(json!({"name": surf_name(k), "construction": cname[un(&w["c"]) % 6], "vertices": rect(0.0, 1.0, 0.0, 1.0, off),
            "front_boundary": other, "back_boundary": {"type":"Space","space":space_name(s)}}));
        let win = i(&w["win"]);
        if win > 0 && (outdoor || (w["inwin"] == true && other["type"] != "Adiabatic")) {
            let op = match win {
                2 => Some(json!({"type":"Continuous"})),
                3 => Some(json!({"type":"Binary"})),
                1 => Some(json!({"type":"Fixed"})),
                _ => None,
            };
            let woff = if w["par"] == true { off } else { off + 0.01 };
            let mut shapes = vec![{
                let rc: Vec<f64> = arr(&w["rc"]).iter().map(|x| i(x) as f64 / 40.0).collect();
                let q = if rc.len() == 4 && i(&w["shape"]) == 0 && w["two"] != true && rc[0] < rc[1] && rc[2] < rc[3] && rc[1] < 1.0 && rc[3] < 1.0 && rc[0] > 0.0 && rc[2] > 0.0 { rect(rc[0], rc[1], rc[2], rc[3], woff) } else { rect(0.25, 0.75, 0.3, 0.8, woff) };
                let t = rect(0.35, 0.65, 0.85, 0.9, woff);
                match i(&w["shape"]) {
                    1 => q[..9].to_vec(),
                    2 => [&q[..9], &t[9..12], &q[9..12]].concat(),
                    3 => [&q[..9], &t[6..12], &q[9..12]].concat(),
                    _ => q,
                }
            }];
            if w["two"] == true {
                shapes.push(rect(0.8, 0.95, 0.3, 0.8, woff));
            }
            for verts in shapes {
            let mut f = json!({"name": fen_name(fens.len()), "construction": if win % 2 == 0 {"single glass"} else {double},
                "category": if w["hole"] == true {"Opening"} else if win == 3 {"Door"} else {"Window"},
                "vertices": verts, "front_boundary": other, "back_boundary": {"type":"Space","space":space_name(s)}});
            if let Some(x) = &op {
                f["operation"] = x.clone();
            }
            if w["par"] == true {
                f["parent_surface"] = json!(surf_name(k));
            }
            fens.push(f);
            fen_op.push(match win {
                2 => 1,
                3 => 2,
                _ => 0,
            });
            }
        }
        fen_end.push(fens.len());
    }
    // walls described from the other side
    let mut done = 0;
    for (k, w) in arr(&b["walls"]).iter().enumerate() {
        let e = fen_end[k];
        if w["flip"] == true {
            flip(&mut surfaces[k]);
            fens[done..e].iter_mut().for_each(flip);
        }
        done = e;
    }
    let mut hv = vec![];
    let mut hvk = vec![];
    for (k, h) in arr(&b["hvac"]).iter().enumerate() {
        let s = un(&h["s"]) % ns;
        let watts = |x: i64| if x < 0 { -x as f64 / 1000.0 } else { x as f64 };
        let (hp, cp, hs, cs) = (watts(i(&h["hp"])), watts(i(&h["cp"])), i(&h["hs"]) as f64, i(&h["cs"]) as f64);
        if i(&h["k"]) == 0 {
            hv.push(json!({"type":"ElectricHeater","name":hvac_name(k),"target_space":space_name(s),"max_heating_power":hp,"heating_setpoint":hs}));
            hvk.push((0, s));
        } else {
            let mut x = json!({"type":"IdealHeaterCooler","name":hvac_name(k),"target_space":space_name(s)});
            let m = i(&h["m"]);
            if m != 1 {
                x["max_heating_power"] = json!(hp);
                x["heating_setpoint"] = json!(hs);
            }
            if m != 2 {
                x["max_cooling_power"] = json!(cp);
                x["cooling_setpoint"] = json!(cs);
            }
            hv.push(x);
            hvk.push((1, s));
        }
    }
    let lums: Vec<Value> = arr(&b["lum"])
        .iter()
        .enumerate()
        .map(|(k, l)| json!({"name": lum_name(k), "max_power": i(&l["p"]) as f64, "target_space": space_name(un(&l["s"]) % ns)}))
        .collect();
    let (nsurf, nfen, nh, nl) = (surfaces.len(), fens.len(), hv.len(), lums.len());
    let mut outs = vec![];
    for o in arr(&b["out"]) {
        let k = un(&o[1]);
        let sn = space_name(k % ns);
        let su = surf_name(k % nsurf.max(1));
        let x = match i(&o[0]) {
            0 => json!({"SpaceDryBulbTemperature": sn}),
            1 => json!({"SpaceInfiltrationVolume": sn}),
            2 => json!({"SpaceInfiltrationTemperature": sn}),
            3 => json!({"SpaceVentilationVolume": sn}),
            4 => json!({"SurfaceFrontSolarIrradiance": su}),
            5 => json!({"SurfaceBackIRIrradiance": su}),
            6 => json!({"SurfaceFrontConvectiveHeatFlow": su}),
            7 if nh > 0 => json!({"HeatingCoolingPowerConsumption": hvac_name(k % nh)}),
            8 if nl > 0 => json!({"LuminairePowerConsumption": lum_name(k % nl)}),
            9 if nfen > 0 => json!({"FenestrationFrontSolarIrradiance": fen_name(k % nfen)}),
            10 => json!({"SurfaceBackConvectionCoefficient": su}),
            11 => json!({"SpaceDryBulbTemperature": "No such room"}),
            _ => json!({"SpaceDryBulbTemperature": sn}),
        };
        if !outs.contains(&x) {
            outs.push(x);
        }
    }
    let bd = &b["bld"];
    let shelter = ["Urban", "NoObstructions", "IsolatedRural", "LargeLotUrban", "SmallLotUrban"][un(&bd["sh"]) % 5];
    let storeys = if un(&bd["st"]) == 0 { 2 } else { un(&bd["st"]).min(4) };
    let mut building = json!({"name":"The building","shelter_class":shelter,"n_storeys":storeys});
    if i(&bd["cs"]) > 0 {
        building["stack_coefficient"] = json!(i(&bd["cs"]) as f64 * 1e-5);
    }
    if i(&bd["cw"]) > 0 {
        building["wind_coefficient"] = json!(i(&bd["cw"]) as f64 * 1e-5);
    }
    let mut m = json!({
        "buildings":[building],
        "substances": subst, "materials": mats, "constructions": cons, "spaces": spaces, "surfaces": surfaces, "fenestrations": fens,
        "hvacs": hv, "luminaires": lums, "outputs": outs, "objects": []
    });
    let terr = ["", "Country", "Suburbs", "City", "Ocean", "Urban"][un(&b["terrain"]) % 6];
    if !terr.is_empty() {
        m["site_details"] = json!({"altitude": 15.0, "terrain": terr});
    }
    let so = &b["solar"];
    if so.is_object() {
        m["solar_options"] = json!({"n_solar_irradiance_points": i(&so["pts"]).max(1), "solar_ambient_divitions": i(&so["div"]).max(1), "solar_sky_discretization": 1});
        if let Some(p) = so["path"].as_str() {
            m["solar_options"]["optical_data_path"] = json!(p);
        }
    } else {
        m["solar_options"] = json!({"n_solar_irradiance_points": 1, "solar_ambient_divitions": 1, "solar_sky_discretization": 1});
    }
    Built { model: m, ns, nsurf, nfen, fen_op, hvac: hvk, nlum: nl }
}

/// The same wall or window seen from its other side (the layers keep their order).
pub fn flip(s: &mut Value) {
    let v: Vec<Value> = arr(&s["vertices"]).chunks(3).rev().flatten().cloned().collect();
    s["vertices"] = json!(v);
    let f = s["front_boundary"].take();
    s["front_boundary"] = s["back_boundary"].take();
    s["back_boundary"] = f;
}

fn json5ish(v: &Value) -> String {
    serde_json::to_string(v).unwrap()
}
/// The same model as `.spl` text.
pub fn spl(m: &Value) -> String {
    let mut s = String::from("// generated\n");
    let groups = [
        ("buildings", "Building"),
        ("substances", "Substance"),
        ("materials", "Material"),
        ("constructions", "Construction"),
        ("spaces", "Space"),
        ("surfaces", "Surface"),
        ("fenestrations", "Fenestration"),
        ("hvacs", "HVAC"),
        ("luminaires", "Luminaire"),
        ("objects", "Object"),
        ("outputs", "Output"),
    ];
    for k in ["site_details", "solar_options"] {
        if m[k].is_object() {
            s.push_str(&format!("{} {}\n\n", if k == "site_details" { "SiteDetails" } else { "SolarOptions" }, json5ish(&m[k])));
        }
    }
    for (k, n) in groups {
        for x in arr(&m[k]) {
            s.push_str(&format!("{n} {}\n\n", json5ish(x)));
        }
    }
    s
}

/// The same model as JSON text, every object after what it refers to.
pub fn json_ordered(m: &Value) -> String {
    let order = [
        "site_details", "solar_options", "buildings", "substances", "materials", "constructions", "spaces", "surfaces", "fenestrations", "hvacs", "luminaires", "objects", "outputs",
    ];
    let f: Vec<String> = order.iter().filter(|k| !m[**k].is_null()).map(|k| format!("\"{k}\": {}", m[*k])).collect();
    format!("{{{}}}", f.join(",\n"))
}

// ------------------------------------------------------------------ weather
pub const MLEN: [i64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
/// hour of the year (365 days) -> (month 1.., day 1.., hour)
pub fn hoy(mut h: f64) -> (u8, u8, f64) {
    while h >= 8760.0 {
        h -= 8760.0;
    }
    let mut d = (h / 24.0).floor() as i64;
    let hr = h - d as f64 * 24.0;
    let mut m = 0usize;
    while d >= MLEN[m] {
        d -= MLEN[m];
        m += 1;
    }
    (m as u8 + 1, d as u8 + 1, hr)
}

pub fn gen_weather(r: &mut Rng, max_hours: i64) -> Value {
    let start = match r.n(6) {
        0 => 8760 - r.r(1, 6),         // crosses new year
        1 | 2 => {
            // month boundary, the end of February more often
            let ends = [31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 59];
            *r.pick(&ends) * 24 - r.r(1, 5)
        }
        _ => r.r(0, 8700),
    };
    let tz = r.r(-11, 12);
    // time zones with a fraction of an hour, on the same side as the hours
    let tm = if r.p(30) { *r.pick(&[30, 30, 45]) * if tz < 0 || (tz == 0 && r.p(50)) { -1 } else { 1 } } else { 0 };
    // degrees east, mostly inside the time zone or anywhere
    let lon = if r.p(60) { (tz * 15 + r.r(-9, 9)).clamp(-180, 180) } else { r.r(-180, 180) };
    json!({"start": start, "n": r.r(2, max_hours), "step": *r.pick(&[1, 1, 1, 1, 2, 3]), "kind": r.r(0, 4), "seed": seed32(r) % 100000, "lat": r.r(-60, 60), "tz": tz, "tm": tm, "lon": lon, "elev": *r.pick(&[12, 12, -430, 0, 1609, 4150])})
}

#[derive(Clone, Debug)]
pub struct Rec {
    pub hoy: f64,
    pub dry: f64,
    pub dew: f64,
    pub ghi: f64,
    pub dni: f64,
    pub dif: f64,
    pub ws: f64,
    pub wd: f64,
    pub ir: Option<f64>,
    pub cover: f64,
    pub rh: f64,
    pub pres: f64,
}
pub fn records(w: &Value) -> Vec<Rec> {
    let mut r = Rng::new(i(&w["seed"]) as u64);
    let step = i(&w["step"]).max(1);
    let n = i(&w["n"]).max(1);
    let kind = i(&w["kind"]);
    // what the sky is like, from overcast to as clear as it gets; the largest beam and diffuse radiation
    let (beam, scatter, veil) = [(500.0, 200.0, false), (1000.0, 40.0, false), (900.0, 150.0, true), (60.0, 300.0, true), (950.0, 90.0, false)][i(&w["seed"]) as usize / 2 % 5];
    (0..n)
        .map(|k| {
            let h = (i(&w["start"]) + k * step) as f64;
            let hod = h % 24.0;
            let sun = ((hod - 6.0) / 12.0 * std::f64::consts::PI).sin().max(0.0);
            let rd = |x: f64| (x * 8.0).round() / 8.0;
            let dry = match kind {
                0 => 10.0,
                1 => rd(12.0 + 8.0 * ((hod - 9.0) / 24.0 * 6.283).sin()),
                2 => rd(r.ff(-15.0, 40.0)),
                3 => (if k % 2 == 0 { -5.0 } else { 25.0 }) + 0.5 * k as f64,
                _ => rd(5.0 + 0.7 * k as f64),
            };
            let mut rec = Rec {
                hoy: h % 8760.0,
                dry,
                dew: rd(dry - r.ff(0.0, 8.0)),
                ghi: if kind == 0 { 0.0 } else { rd(700.0 * sun) },
                dni: if kind == 0 { 0.0 } else { rd(beam * sun * r.f()) },
                dif: if kind == 0 { 0.0 } else { rd(scatter * sun * if veil { r.f() } else { 1.0 }) },
                ws: rd(r.ff(0.0, 9.0)),
                wd: rd(r.ff(0.0, 6.2)),
                ir: if kind == 2 { None } else { Some(rd(300.0 + r.ff(0.0, 60.0))) },
                cover: rd(r.f()),
                rh: rd(r.f()),
                pres: 101325.0 - 8.0 * r.r(0, 50) as f64,
            };
            if is_epw(w) {
                // EPW records: counted from 1 to 24, a moment before the hour; direction in degrees
                rec.hoy = (h - 0.000001).rem_euclid(8760.0);
                rec.wd = rd(rec.wd.to_degrees()).to_radians();
                rec.ir = rec.ir.or(Some(321.5));
            }
            rec
        })
        .collect()
}
pub fn weather_doc(w: &Value) -> Value {
    let data: Vec<Value> = records(w)
        .iter()
        .map(|r| {
            let (m, d, h) = hoy(r.hoy);
            let mut x = json!({"date":{"month":m,"day":d,"hour":h},"dry_bulb_temperature":r.dry,"dew_point_temperature":r.dew,
                "global_horizontal_radiation":r.ghi,"direct_normal_radiation":r.dni,"diffuse_horizontal_radiation":r.dif,
                "wind_speed":r.ws,"wind_direction":r.wd,"opaque_sky_cover":r.cover,"relative_humidity":r.rh,"pressure":r.pres,
                "horizontal_infrared_radiation_intensity": r.ir});
            if r.ir.is_none() {
                x["horizontal_infrared_radiation_intensity"] = Value::Null;
            }
            x
        })
        .collect();
    json!({"data": data, "location": {"city":"X","state":"","country":"Y","source":"gen","wmo":"1","latitude":(i(&w["lat"]) as f64).to_radians(),"longitude":longitude(w).to_radians(),"timezone":i(&w["tz"]),"timezone_minutes":i(&w["tm"]),"elevation":elevation(w)}})
}

/// Degrees east of Greenwich.
pub fn longitude(w: &Value) -> f64 {
    w["lon"].as_f64().unwrap_or(11.46)
}
pub fn elevation(w: &Value) -> f64 {
    w["elev"].as_f64().unwrap_or(12.0)
}
/// Hours ahead of Greenwich.
pub fn time_zone(w: &Value) -> f64 {
    i(&w["tz"]) as f64 + i(&w["tm"]) as f64 / 60.0
}

pub fn is_epw(w: &Value) -> bool {
    w["epw"].as_bool().unwrap_or(false)
}
/// The same records as an EPW file.
pub fn epw_text(w: &Value) -> String {
    let eol = if i(&w["seed"]) % 2 == 0 { "\n" } else { "\r\n" };
    let mut s = format!(
        "LOCATION,X,,Y,gen,1,{},{},{},{}{eol}DESIGN CONDITIONS,0{eol}TYPICAL/EXTREME PERIODS,0{eol}GROUND TEMPERATURES,1,.5,,,,1,2,3,4,5,6,7,8,9,10,11,12{eol}HOLIDAYS/DAYLIGHT SAVINGS,No,0,0,0{eol}COMMENTS 1,\"generated, for the simulator\"{eol}COMMENTS 2,none{eol}DATA PERIODS,1,1,Data,Sunday, 1/ 1,12/31{eol}",
        i(&w["lat"]),
        longitude(w),
        time_zone(w),
        elevation(w)
    );
    for (k, r) in records(w).iter().enumerate() {
        let h = i(&w["start"]) + k as i64 * i(&w["step"]).max(1);
        let (m, d, _) = hoy(((h - 1).rem_euclid(8760)) as f64);
        let hr = (h - 1).rem_euclid(24) + 1;
        s.push_str(&format!(
            "2021,{m},{d},{hr},0,?9?9?9,{},{},{},{},0,0,{},{},{},{},0,0,0,0,{},{},0,{},20.2,77777,9,999999999,110,0.112,0,88,0,0,1{eol}",
            r.dry,
            r.dew,
            r.rh * 100.0,
            r.pres,
            r.ir.unwrap_or(0.0),
            r.ghi,
            r.dni,
            r.dif,
            r.wd.to_degrees(),
            r.ws,
            r.cover * 10.0
        ));
    }
    s
}
pub fn weather_name(w: &Value) -> &'static str {
    if is_epw(w) {
        "w.epw"
    } else {
        "w.sw"
    }
}
