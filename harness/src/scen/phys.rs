//! A reference of one timestep of the building physics, written from the documented equations:
//! what every room, wall, window and infiltration must hold after a step, given what the state held before.
use super::run::*;
use crate::bldg::*;
use crate::child::Env;
use calendar::Date;
use communication::{MetaOptions, SimulationModel};
use model::{SimulationState, SimulationStateElement as E};
use serde_json::{json, Value};
use simple::control_trait::SimpleControl;
use simple::{MultiphysicsModel, OccupantBehaviour};
use std::collections::HashMap;
use weather::{CurrentWeather, WeatherTrait};

const SIGMA: f64 = 5.670374419e-8;

// ------------------------------------------------------------------ weather with faults
/// The reference weather, with sensors that jump at planned instants.
pub struct Gusty {
    pub base: RefWeather,
    /// (from hour of the year, to, what, value)
    pub jumps: Vec<(f64, f64, i64, f64)>,
}
impl WeatherTrait for Gusty {
    fn get_weather_data(&self, d: Date) -> CurrentWeather {
        let mut w = self.base.get_weather_data(d);
        let h = date_hoy(d);
        for (a, b, what, v) in &self.jumps {
            if h < *a || h > *b {
                continue;
            }
            match what {
                0 => w.dry_bulb_temperature = *v,
                1 => w.wind_speed = v.abs(),
                2 => w.wind_direction = *v,
                3 => w.horizontal_infrared_radiation_intensity = Some(v.abs() * 10.0),
                _ => w.horizontal_infrared_radiation_intensity = Some(SIGMA * (w.dry_bulb_temperature + 273.15).powi(4)),
            }
        }
        w
    }
}

// ------------------------------------------------------------------ the building, from its description
#[derive(Clone, PartialEq, Debug)]
enum Side {
    Outdoor,
    Adiabatic,
    Ambient(f64),
    Room(usize),
}
#[derive(Clone)]
enum U {
    Solid(f64),
    Gap { gas: String, thick: f64, e1: f64, e2: f64, angle: f64 },
}
struct Wall {
    name: String,
    index: usize,
    area: f64,
    perim: f64,
    normal: [f64; 3],
    cos: f64,
    wind: f64,
    front: Side,
    back: Side,
    ef: f64,
    eb: f64,
    mass: Vec<f64>,
    u: Vec<U>,
    fa: Vec<f64>,
    ba: Vec<f64>,
    node: Vec<usize>, // where the nodes' temperatures are in the state
    at: HashMap<&'static str, usize>,
}
pub struct RefPhys {
    walls: Vec<Wall>,
    windows: Vec<Wall>,
    vol: Vec<f64>,
    infil: Vec<Value>,
    bld: Value,
    terrain: String,
    heat: Vec<(usize, usize)>, // (room, state index) of everything that heats
    t: Vec<usize>,
    iv: Vec<usize>,
    it: Vec<usize>,
    sub: usize,
    dt: f64,
}

fn newell(p: &[[f64; 3]]) -> [f64; 3] {
    let mut n = [0.0; 3];
    for k in 0..p.len() {
        let (a, b) = (p[k], p[(k + 1) % p.len()]);
        n[0] += (a[1] - b[1]) * (a[2] + b[2]);
        n[1] += (a[2] - b[2]) * (a[0] + b[0]);
        n[2] += (a[0] - b[0]) * (a[1] + b[1]);
    }
    n
}
fn norm(n: [f64; 3]) -> f64 {
    (n[0] * n[0] + n[1] * n[1] + n[2] * n[2]).sqrt()
}
fn points(v: &Value) -> Vec<[f64; 3]> {
    let f: Vec<f64> = arr(v).iter().map(|x| x.as_f64().unwrap_or(0.0)).collect();
    f.chunks(3).map(|c| [c[0], c[1], c[2]]).collect()
}
fn find<'a>(l: &'a Value, name: &Value) -> &'a Value {
    arr(l).iter().find(|x| x["name"] == *name).unwrap_or(&Value::Null)
}
fn f(v: &Value) -> f64 {
    v.as_f64().unwrap_or(f64::NAN)
}
/// Factor between the wind speed of the weather file and that at a height, by the kind of terrain.
pub fn wind_at(terrain: &str, h: f64) -> f64 {
    if h < 1e-5 {
        return 0.0;
    }
    let (al, de) = match terrain {
        "Country" => (0.14, 270.0),
        "City" => (0.33, 460.0),
        "Ocean" => (0.10, 210.0),
        _ => (0.22, 370.0),
    };
    27f64.powf(0.14) * (h / de as f64).powf(al)
}
/// Number of elements a solid layer is divided in (0: no mass) and the subdivisions of the timestep it needs.
fn divide(main_dt: f64, s: &Value, thick: f64) -> (usize, usize) {
    if s["type"] == "Gas" {
        return (0, 0);
    }
    let (k, rho, cp) = (f(&s["thermal_conductivity"]), f(&s["density"]), f(&s["specific_heat_capacity"]));
    let ne = (thick / 0.05).ceil();
    let dx = thick / ne;
    for n in 1..=13usize {
        let dt = main_dt / n as f64;
        if dt < 60.0 {
            return (0, 0);
        }
        // the thinnest stable element is the positive root of dx^2 - dt/(rho cp Rs) dx - 2 dt k/(rho cp)
        let b = dt / (rho * cp * 0.05);
        let min = 0.5 * (b + (b * b + 8.0 * dt * k / (rho * cp)).sqrt());
        if dx >= 2.0 * min {
            return (ne as usize, n);
        }
    }
    (0, 0)
}
/// What each solid layer absorbs of the light arriving from the first one: (tau, front absorption, back absorption) by layer.
fn absorbed(l: &[(f64, f64, f64)]) -> Vec<f64> {
    // the light bounces between the panes until nothing is left
    let n = l.len();
    let (mut f, mut b) = (vec![0.0; n], vec![0.0; n]); // arriving at the front and at the back of each pane
    if n > 0 {
        f[0] = 1.0;
    }
    for _ in 0..400 {
        for k in 1..n {
            let (t, _, ab) = l[k - 1];
            f[k] = t * f[k - 1] + (1.0 - t - ab) * b[k - 1];
        }
        for k in (1..n).rev() {
            let (t, af, _) = l[k];
            b[k - 1] = t * b[k] + (1.0 - t - af) * f[k];
        }
    }
    (0..n).map(|k| l[k].1 * f[k] + l[k].2 * b[k]).collect()
}
/// Conductance of a gas cavity (ISO 15099): convection between tilted panes, and radiation.
fn gap(gas: &str, thick: f64, e1: f64, e2: f64, angle: f64, a: f64, b: f64) -> f64 {
    // conductivity, viscosity and heat capacity at T kelvin, molar mass (annex B)
    let (lambda, mu, cp, mass): (fn(f64) -> f64, fn(f64) -> f64, fn(f64) -> f64, f64) = match gas {
        "Argon" => (|t| 2.285e-3 + 5.149e-5 * t, |t| 3.379e-6 + 6.451e-8 * t, |_| 521.9285, 39.948),
        "Krypton" => (|t| 9.443e-4 + 2.826e-5 * t, |t| 2.213e-6 + 7.777e-8 * t, |_| 248.0907, 83.8),
        "Xenon" => (|t| 4.538e-4 + 1.723e-5 * t, |t| 1.069e-6 + 7.414e-8 * t, |_| 158.3397, 131.30),
        _ => (|t| 2.873e-3 + 7.760e-5 * t, |t| 3.723e-6 + 4.94e-8 * t, |t| 1002.7370 + 1.2324e-2 * t, 28.97),
    };
    let deg = std::f64::consts::PI / 180.0;
    let t = (a + b) / 2.0 + 273.15;
    let rho = 101325.0 * mass / (8314.46261815324 * t);
    let ra = if (a - b).abs() < 1e-10 { 1e-7 } else { rho * rho * thick.powi(3) * 9.81 / t * cp(t) * (a - b).abs() / (mu(t) * lambda(t)) };
    // heated from above: the tilt of the colder side
    let g = if a > b { 180.0 * deg - angle } else { angle } % (180.0 * deg);
    let slender = 1.0 / thick;
    let n60 = || {
        let gg = 0.5 / (1.0 + (ra / 3160.0).powf(20.6)).powf(0.1);
        let x = (1.0 + (0.0936 * ra.powf(0.314) / (1.0 + gg)).powi(7)).powf(1.0 / 7.0);
        x.max((0.104 + 0.175 / slender) * ra.powf(0.283))
    };
    let n90 = || {
        let x = if ra <= 1e4 {
            1.0 + 1.7596678e-10 * ra.powf(2.2984755)
        } else if ra <= 5e4 {
            0.028154 * ra.powf(0.4134)
        } else {
            0.0673838 * ra.powf(1.0 / 3.0)
        };
        x.max(0.242 * (ra / slender).powf(0.272))
    };
    let nu = if g < 59.5 * deg {
        let plus = |x: f64| x.max(0.0);
        let rc = ra * g.cos();
        1.0 + 1.44 * plus(1.0 - 1708.0 / rc) * (1.0 - 1708.0 * (1.8 * g).sin().powf(1.6) / rc) + plus((rc / 5830.0).cbrt() - 1.0)
    } else if g < 60.5 * deg {
        n60()
    } else if g < 89.5 * deg {
        let x = (g - 60.0 * deg) / (30.0 * deg);
        n60() * (1.0 - x) + n90() * x
    } else if g < 90.5 * deg {
        n90()
    } else {
        1.0 + (n90() - 1.0) * g.sin()
    };
    nu * lambda(t) / thick + 4.0 * t.powi(3) * SIGMA * e1 * e2 / (1.0 - (1.0 - e1) * (1.0 - e2))
}

impl RefPhys {
    /// `eps`: relative error of the tilt of the gas cavities, to find out what depends on its rounding.
    pub fn new(doc: &Value, el: &[E], n: usize, eps: f64) -> Result<RefPhys, String> {
        let main_dt = 3600.0 / n as f64;
        let rooms = arr(&doc["spaces"]);
        let room = |name: &Value| rooms.iter().position(|s| s["name"] == *name).ok_or("no such room");
        let mut pos: HashMap<String, usize> = HashMap::new();
        for (k, e) in el.iter().enumerate() {
            pos.insert(format!("{e:?}"), k);
        }
        let at = |s: String| pos.get(&s).copied().ok_or(format!("scenario: the state has no {s}"));
        let terrain = doc["site_details"]["terrain"].as_str().unwrap_or("Suburbs").to_string();
        let side = |b: &Value| -> Result<Side, String> {
            Ok(match b["type"].as_str() {
                Some("Outdoor") => Side::Outdoor,
                Some("Adiabatic") => Side::Adiabatic,
                Some("AmbientTemperature") => Side::Ambient(f(&b["temperature"])),
                Some("Space") => Side::Room(room(&b["space"])?),
                x => return Err(format!("harness: boundary {x:?}")),
            })
        };
        let mut sub = 1;
        let mut make = |kind: &'static str, list: &Value| -> Result<Vec<Wall>, String> {
            let mut out = vec![];
            for (k, s) in arr(list).iter().enumerate() {
                if s["category"] == "Opening" {
                    continue; // a hole: it holds no heat and stops no sun
                }
                let p = points(&s["vertices"]);
                let nn = newell(&p);
                let mut area = norm(nn) / 2.0;
                let normal = [nn[0] / norm(nn), nn[1] / norm(nn), nn[2] / norm(nn)];
                if kind == "Surface" {
                    for w in arr(&doc["fenestrations"]).iter().filter(|w| w["parent_surface"] == s["name"]) {
                        area -= norm(newell(&points(&w["vertices"]))) / 2.0;
                    }
                }
                let perim = (0..p.len())
                    .map(|i| {
                        let (a, b) = (p[i], p[(i + 1) % p.len()]);
                        norm([a[0] - b[0], a[1] - b[1], a[2] - b[2]])
                    })
                    .sum();
                let z = p.iter().map(|x| x[2]).sum::<f64>() / p.len() as f64;
                let cos = normal[2];
                let con = find(&doc["constructions"], &s["construction"]);
                let layers: Vec<(f64, &Value)> = arr(&con["materials"])
                    .iter()
                    .map(|m| {
                        let m = find(&doc["materials"], m);
                        (f(&m["thickness"]), find(&doc["substances"], &m["substance"]))
                    })
                    .collect();
                let (mut mass, mut u) = (vec![0.0], vec![]);
                let mut first = vec![]; // first node of each layer
                for (li, (th, sub_)) in layers.iter().enumerate() {
                    let (ne, ns) = divide(main_dt, sub_, *th);
                    sub = sub.max(ns);
                    first.push(mass.len() - 1);
                    let m = ne.max(1);
                    for _ in 0..m {
                        if sub_["type"] == "Gas" {
                            u.push(U::Gap { gas: sub_["gas"].as_str().unwrap_or("").to_string(), thick: *th, e1: f(&layers[li - 1].1["back_thermal_absorbtance"]), e2: f(&layers[li + 1].1["front_thermal_absorbtance"]), angle: (cos * (1.0 - eps)).acos() });
                        } else {
                            let dx = th / m as f64;
                            u.push(U::Solid(f(&sub_["thermal_conductivity"]) / dx));
                            if ne > 0 {
                                let half = f(&sub_["density"]) * f(&sub_["specific_heat_capacity"]) * dx / 2.0;
                                *mass.last_mut().unwrap() += half;
                                mass.push(half);
                                continue;
                            }
                        }
                        mass.push(0.0);
                    }
                }
                let nn = mass.len();
                // sunlight: opaque layers take it at their surface, panes through their whole thickness
                let tau = |s: &Value| s["solar_transmittance"].as_f64().unwrap_or(0.0);
                let solar = |from_back: bool| -> Vec<f64> {
                    let mut a = vec![0.0; nn];
                    let mut panes = vec![];
                    let order: Vec<usize> = if from_back { (0..layers.len()).rev().collect() } else { (0..layers.len()).collect() };
                    for li in order.into_iter().step_by(2) {
                        let s = layers[li].1;
                        let (x, y) = (f(&s["front_solar_absorbtance"]), f(&s["back_solar_absorbtance"]));
                        panes.push((li, if from_back { (tau(s), y, x) } else { (tau(s), x, y) }));
                        if tau(s) == 0.0 {
                            break;
                        }
                    }
                    let q = absorbed(&panes.iter().map(|p| p.1).collect::<Vec<_>>());
                    for ((li, pn), v) in panes.iter().zip(q) {
                        let last = first.get(li + 1).copied().unwrap_or(nn - 1);
                        if pn.0 > 0.0 {
                            for node in first[*li]..=last {
                                a[node] += v / (last - first[*li] + 1) as f64;
                            }
                        } else {
                            a[if from_back { last } else { first[*li] }] += v;
                        }
                    }
                    a
                };
                let mut ix = HashMap::new();
                for q in ["FrontConvectionCoefficient", "BackConvectionCoefficient", "FrontConvectiveHeatFlow", "BackConvectiveHeatFlow", "FrontSolarIrradiance", "BackSolarIrradiance", "FrontIRIrradiance", "BackIRIrradiance"] {
                    ix.insert(q, at(format!("{kind}{q}({k})"))?);
                }
                let mut node = vec![];
                for j in 0..nn {
                    node.push(at(format!("{kind}NodeTemperature({k}, {j})"))?);
                }
                if pos.contains_key(&format!("{kind}NodeTemperature({k}, {nn})")) {
                    return Err(format!("scenario: '{}' has more than the {nn} nodes of its construction", s["name"]));
                }
                out.push(Wall {
                    name: s["name"].as_str().unwrap_or("").to_string(),
                    index: k,
                    area,
                    perim,
                    normal,
                    cos,
                    wind: wind_at(&terrain, z),
                    front: side(&s["front_boundary"])?,
                    back: side(&s["back_boundary"])?,
                    ef: f(&layers[0].1["front_thermal_absorbtance"]),
                    eb: f(&layers.last().unwrap().1["back_thermal_absorbtance"]),
                    fa: solar(false),
                    ba: solar(true),
                    mass,
                    u,
                    node,
                    at: ix,
                });
            }
            Ok(out)
        };
        let walls = make("Surface", &doc["surfaces"])?;
        let windows = make("Fenestration", &doc["fenestrations"])?;
        let mut heat = vec![];
        for (k, h) in arr(&doc["hvacs"]).iter().enumerate() {
            heat.push((room(&h["target_space"])?, at(format!("HeatingCoolingPowerConsumption({k})"))?));
        }
        for (k, l) in arr(&doc["luminaires"]).iter().enumerate() {
            heat.push((room(&l["target_space"])?, at(format!("LuminairePowerConsumption({k})"))?));
        }
        let per_room = |q: &str| (0..rooms.len()).map(|k| at(format!("{q}({k})"))).collect::<Result<Vec<_>, _>>();
        let sub = sub * 2;
        Ok(RefPhys {
            walls,
            windows,
            vol: rooms.iter().map(|s| f(&s["volume"])).collect(),
            infil: rooms.iter().map(|s| s["infiltration"].clone()).collect(),
            bld: doc["buildings"][0].clone(),
            terrain,
            heat,
            t: per_room("SpaceDryBulbTemperature")?,
            iv: per_room("SpaceInfiltrationVolume")?,
            it: per_room("SpaceInfiltrationTemperature")?,
            sub,
            dt: main_dt / sub as f64,
        })
    }

    /// Infiltration of every room: the outdoor air and the flow of its rule.
    fn air(&self, w: &CurrentWeather, st: &mut [f64]) {
        let out = w.dry_bulb_temperature;
        for k in 0..self.vol.len() {
            let r = &self.infil[k];
            let dt = (st[self.t[k]] - out).abs();
            let ws = w.wind_speed * wind_at(&self.terrain, 1.0);
            let dfr = |phi: f64, a: f64, b: f64, c: f64, d: f64| phi * (a + b * dt + c * ws + d * ws * ws);
            let v = match r["type"].as_str() {
                Some("Constant") => f(&r["flow"]),
                Some("Blast") => dfr(f(&r["flow"]), 0.606, 0.03636, 0.1177, 0.0),
                Some("Doe2") => dfr(f(&r["flow"]), 0.0, 0.0, 0.224, 0.0),
                Some("DesignFlowRate") => dfr(f(&r["phi"]), f(&r["a"]), f(&r["b"]), f(&r["c"]), f(&r["d"])),
                Some("EffectiveAirLeakageArea") => {
                    let st = un(&self.bld["n_storeys"]).max(1);
                    let cs = self.bld["stack_coefficient"].as_f64().unwrap_or(0.000145 * st.min(3) as f64);
                    let row = match self.bld["shelter_class"].as_str().unwrap_or("Urban") {
                        "NoObstructions" => [0.000319, 0.000420, 0.000494],
                        "IsolatedRural" => [0.000246, 0.000325, 0.000382],
                        "Urban" => [0.000172, 0.000231, 0.000271],
                        "LargeLotUrban" => [0.000104, 0.000137, 0.000161],
                        _ => [0.000032, 0.000042, 0.000049],
                    };
                    let cw = self.bld["wind_coefficient"].as_f64().unwrap_or(row[st.min(3) - 1]);
                    // m2 into cm2, l/s into m3/s
                    f(&r["area"]) * 1e4 / 1e3 * (cs * dt + cw * w.wind_speed * w.wind_speed).sqrt()
                }
                _ => continue,
            };
            st[self.it[k]] = out;
            st[self.iv[k]] = v;
        }
    }

    /// Infrared on the sides that see a room or a surrounding of known temperature.
    fn infrared(&self, st: &mut [f64]) {
        for w in self.walls.iter().chain(&self.windows) {
            let b = |t: f64| SIGMA * (t + 273.15).powi(4);
            for (side, key, node) in [(&w.front, "FrontIRIrradiance", w.node[0]), (&w.back, "BackIRIrradiance", *w.node.last().unwrap())] {
                match side {
                    Side::Room(_) => st[w.at[key]] = b(st[node]),
                    Side::Ambient(t) => st[w.at[key]] = b(*t),
                    _ => {}
                }
            }
        }
    }

    fn natural(air: f64, surf: f64, up: f64) -> f64 {
        // `up`: cosine of the tilt of the side, > 0 when it faces up
        let d = air - surf;
        let q = d.abs().powf(1.0 / 3.0);
        let h = if d.abs() < 1e-3 || up.abs() < 1e-3 {
            1.31 * q
        } else if d * up < 0.0 {
            9.482 * q / (7.238 - up.abs())
        } else {
            1.81 * q / (1.382 + up.abs())
        };
        h.max(0.1)
    }

    /// Air temperature, radiant temperature, surface temperature and convection coefficient of both sides.
    fn borders(w: &Wall, st: &[f64], tf: f64, tb: f64, wd: f64, ws: f64) -> [(f64, f64, f64, f64); 2] {
        let (sf, sb) = (st[w.node[0]], st[*w.node.last().unwrap()]);
        let out = |air: f64, surf: f64, ir: f64, sign: f64| {
            let windward = w.cos.abs() >= 0.98 || sign * (w.normal[0] * wd.sin() + w.normal[1] * wd.cos()) > 0.0;
            let forced = 2.537 * if windward { 1.0 } else { 0.5 } * 1.67 * (w.perim * ws * w.wind / w.area).sqrt();
            (air, (ir / SIGMA).powf(0.25) - 273.15, surf, forced + Self::natural(air, surf, sign * w.cos))
        };
        let front = match &w.front {
            Side::Outdoor => out(tf, sf, st[w.at["FrontIRIrradiance"]], 1.0),
            Side::Room(_) => (tf, tf, sf, Self::natural(tf, sf, w.cos)),
            Side::Ambient(t) => (*t, *t, sf, Self::natural(*t, sf, w.cos)),
            Side::Adiabatic => (tb, tb, sb, Self::natural(tb, sb, -w.cos)),
        };
        let back = match &w.back {
            Side::Outdoor => out(tb, sb, st[w.at["BackIRIrradiance"]], -1.0),
            Side::Room(_) => (tb, tb, sb, Self::natural(tb, sb, -w.cos)),
            Side::Ambient(t) => (*t, *t, sb, Self::natural(*t, sb, -w.cos)),
            Side::Adiabatic => front,
        };
        [front, back]
    }
    fn u(u: &U, a: f64, b: f64) -> f64 {
        match u {
            U::Solid(v) => *v,
            U::Gap { gas, thick, e1, e2, angle } => gap(gas, *thick, *e1, *e2, *angle, a, b),
        }
    }

    /// Temperatures of the nodes of a wall after `dt`.
    fn wall(w: &Wall, st: &[f64], tf: f64, tb: f64, wd: f64, ws: f64, dt: f64) -> Vec<f64> {
        let n = w.node.len();
        let mut t: Vec<f64> = w.node.iter().map(|k| st[*k]).collect();
        let sun = |s: f64| if s.is_nan() || s < 0.0 { 0.0 } else { s };
        let (qf, qb) = (sun(st[w.at["FrontSolarIrradiance"]]), sun(st[w.at["BackSolarIrradiance"]]));
        let b = Self::borders(w, st, tf, tb, wd, ws);
        let rad = |e: f64, x: (f64, f64, f64, f64)| 4.0 * e * SIGMA * (273.15 + (x.1 + x.2) / 2.0).powi(3);
        let (rf, rb) = (rad(w.ef, b[0]), rad(w.eb, b[1]));
        // heat balance of a chain of nodes: links to the neighbours, links and inputs from outside
        let system = |t: &[f64], i0: usize, i1: usize| -> (Vec<f64>, Vec<f64>, Vec<f64>) {
            let m = i1 - i0;
            let (mut link, mut ext, mut q) = (vec![0.0; m], vec![0.0; m], vec![0.0; m]);
            for j in 0..m {
                let g = i0 + j;
                q[j] += w.fa[g] * qf + w.ba[g] * qb;
                if j + 1 < m {
                    link[j] = Self::u(&w.u[g], t[g], t[g + 1]);
                }
            }
            if i0 == 0 {
                ext[0] += b[0].3;
                q[0] += b[0].3 * b[0].0 + rf * (b[0].1 - t[0]);
            } else {
                let u = Self::u(&w.u[i0 - 1], t[i0 - 1], t[i0]);
                ext[0] += u;
                q[0] += u * t[i0 - 1];
            }
            if i1 == n {
                ext[m - 1] += b[1].3;
                q[m - 1] += b[1].3 * b[1].0 + rb * (b[1].1 - t[n - 1]);
            } else {
                let u = Self::u(&w.u[i1 - 1], t[i1 - 1], t[i1]);
                ext[m - 1] += u;
                q[m - 1] += u * t[i1];
            }
            (link, ext, q)
        };
        // chunks of nodes with and without mass
        let heavy = |k: usize| w.mass[k] >= 1e-5;
        let mut chunks = vec![];
        let mut k = 0;
        while k < n {
            let mut e = k + 1;
            while e < n && heavy(e) == heavy(k) {
                e += 1;
            }
            chunks.push((k, e, heavy(k)));
            k = e;
        }
        for &(i0, i1, _) in chunks.iter().filter(|c| !c.2) {
            let m = i1 - i0;
            let mut old = 99999.0;
            for count in 0..=19001 {
                let (link, ext, q) = system(&t, i0, i1);
                // tridiagonal solution of the steady balance
                let (mut c, mut d) = (vec![0.0; m], vec![0.0; m]);
                for j in 0..m {
                    let below = if j > 0 { link[j - 1] } else { 0.0 };
                    let diag = below + if j + 1 < m { link[j] } else { 0.0 } + ext[j];
                    let den = if j > 0 { diag - below * c[j - 1] } else { diag };
                    c[j] = if j + 1 < m { link[j] / den } else { 0.0 };
                    d[j] = (q[j] + if j > 0 { below * d[j - 1] } else { 0.0 }) / den;
                }
                let mut x = vec![0.0; m];
                for j in (0..m).rev() {
                    x[j] = d[j] + if j + 1 < m { c[j] * x[j + 1] } else { 0.0 };
                }
                let err = (0..m).map(|j| (x[j] - t[i0 + j]).abs()).sum::<f64>() / m as f64;
                if err > old {
                    break;
                }
                for j in 0..m {
                    t[i0 + j] = 0.5 * (t[i0 + j] + x[j]);
                }
                if err < if count < 100 { 0.01 } else { 0.5 } || count > 19000 {
                    break;
                }
                old = err;
            }
        }
        for &(i0, i1, _) in chunks.iter().filter(|c| c.2) {
            let m = i1 - i0;
            let (link, ext, q) = system(&t, i0, i1);
            let rate = |x: &[f64]| -> Vec<f64> {
                (0..m)
                    .map(|j| {
                        let mut p = q[j] - ext[j] * x[j];
                        if j > 0 {
                            p += link[j - 1] * (x[j - 1] - x[j]);
                        }
                        if j + 1 < m {
                            p += link[j] * (x[j + 1] - x[j]);
                        }
                        p / w.mass[i0 + j]
                    })
                    .collect()
            };
            let x = t[i0..i1].to_vec();
            let ax = |k: &[f64], s: f64| -> Vec<f64> { x.iter().zip(k).map(|(a, b)| a + s * b).collect() };
            let k1 = rate(&x);
            let k2 = rate(&ax(&k1, dt / 2.0));
            let k3 = rate(&ax(&k2, dt / 2.0));
            let k4 = rate(&ax(&k3, dt));
            for j in 0..m {
                t[i0 + j] = x[j] + dt / 6.0 * (k1[j] + 2.0 * k2[j] + 2.0 * k3[j] + k4[j]);
            }
        }
        t
    }

    fn rooms_and_walls<W: WeatherTrait>(&self, date: Date, weather: &W, st: &mut [f64]) {
        let mut d = date;
        for _ in 0..self.sub {
            d = later(d, self.dt);
            let w = weather.get_weather_data(d);
            let (out, wd, ws) = (w.dry_bulb_temperature, w.wind_direction, w.wind_speed);
            let before: Vec<f64> = self.t.iter().map(|k| st[*k]).collect();
            for group in [&self.walls, &self.windows] {
                // all of them at once, from the state before
                let mut new = vec![];
                for w in group {
                    let air = |s: &Side| match s {
                        Side::Outdoor => out,
                        Side::Ambient(t) => *t,
                        Side::Room(k) => before[*k],
                        Side::Adiabatic => f64::NAN,
                    };
                    let tf = if w.front == Side::Adiabatic { st[*w.node.last().unwrap()] } else { air(&w.front) };
                    let tb = if w.back == Side::Adiabatic { tf } else { air(&w.back) };
                    new.push((Self::wall(w, st, tf, tb, wd, ws, self.dt), tf, tb));
                }
                for (w, (t, tf, tb)) in group.iter().zip(new) {
                    for (k, v) in w.node.iter().zip(&t) {
                        st[*k] = *v;
                    }
                    let b = Self::borders(w, st, tf, tb, wd, ws);
                    st[w.at["FrontConvectionCoefficient"]] = b[0].3;
                    st[w.at["BackConvectionCoefficient"]] = b[1].3;
                    st[w.at["FrontConvectiveHeatFlow"]] = (t[0] - tf) * b[0].3;
                    st[w.at["BackConvectiveHeatFlow"]] = (t[t.len() - 1] - tb) * b[1].3;
                }
            }
            for k in 0..self.vol.len() {
                let rho = |t: f64| 101325.0 * 28.97 / (8314.46261815324 * (t + 273.15));
                let cp = |t: f64| 1002.7370 + 1.2324e-2 * (t + 273.15);
                let (mut a, mut b) = (0.0, 0.0);
                for (_, h) in self.heat.iter().filter(|h| h.0 == k) {
                    a += st[*h];
                }
                let ti = st[self.it[k]];
                let g = rho(ti) * cp(ti) * st[self.iv[k]];
                a += g * ti;
                b += g;
                for w in self.walls.iter().chain(&self.windows) {
                    for (s, key, node) in [(&w.front, "FrontConvectionCoefficient", w.node[0]), (&w.back, "BackConvectionCoefficient", *w.node.last().unwrap())] {
                        if *s == Side::Room(k) {
                            let g = st[w.at[key]] * w.area;
                            a += g * st[node];
                            b += g;
                        }
                    }
                }
                let t0 = before[k];
                let c = self.vol[k] * rho(t0) * cp(t0);
                st[self.t[k]] = if b.abs() > 1e-9 { a / b + (t0 - a / b) * (-b * self.dt / c).exp() } else { t0 + a * self.dt / c };
            }
        }
    }
}
fn later(d: Date, s: f64) -> Date {
    let h = d.hour + s / 3600.0;
    if h >= 24.0 {
        let e = hdate(date_hoy(Date { hour: 0.0, ..d }) + 24.0);
        Date { hour: h % 24.0, ..e }
    } else {
        Date { hour: h, ..d }
    }
}

/// Every step of a history of a building, driven through the coupled model, against the reference.
/// args.cmds/people: control; args.kick: [step, what, index, value] the state jumps before the step; args.jumps: weather faults.
pub fn phys(env: &Env) -> Result<Value, String> {
    let a = env.a();
    let (model, mut header) = load(env)?;
    let doc = &a["doc"];
    let n = un(&a["n"]).clamp(1, 60);
    let w = &a["w"];
    let wdoc = weather_doc(w);
    let meta = MetaOptions {
        latitude: wdoc["location"]["latitude"].as_f64().unwrap(),
        longitude: wdoc["location"]["longitude"].as_f64().unwrap(),
        standard_meridian: (time_zone(w) * 15.).to_radians(),
        elevation: wdoc["location"]["elevation"].as_f64().unwrap(),
    };
    let recs = records(w);
    let h0 = recs[0].hoy;
    let gw = Gusty {
        base: RefWeather::new(recs.clone()),
        jumps: arr(&a["jumps"]).iter().map(|j| (h0 + i(&j[0]) as f64 / 10.0, h0 + (i(&j[0]) + i(&j[1])) as f64 / 10.0, i(&j[2]), i(&j[3]) as f64 / 10.0)).collect(),
    };
    env.start();
    let pm = MultiphysicsModel::new(&meta, (), &model, &mut header, n)?;
    let el = header.elements.clone();
    let names: Vec<String> = el.iter().map(|e| elem_name(e, &model)).collect();
    let mut st: SimulationState = header.take_values().ok_or("no state")?;
    let rp = RefPhys::new(doc, &el, n, 0.0)?;
    let rp2 = RefPhys::new(doc, &el, n, 1e-15)?;
    // what the building sees of sky, ground and sun, as stored by the model
    let sight: Option<light::OpticalInfo> = match doc["solar_options"]["optical_data_path"].as_str() {
        Some(p) => {
            let t = std::fs::read_to_string(format!("{}/{p}", env.dir)).map_err(|e| format!("the optical data: {e}"))?;
            Some(serde_json::from_str(&t).map_err(|e| format!("the optical data: {e}"))?)
        }
        None => None,
    };
    let mf = un(&doc["solar_options"]["solar_sky_discretization"]).max(1);
    let place = super::skyref::Place { lat: meta.latitude, lon: meta.longitude.to_degrees(), mer: meta.standard_meridian.to_degrees() };
    let mut mem = pm.allocate_memory(&st)?;
    let people = if a["people"].as_bool().unwrap_or(false) { Some(OccupantBehaviour::new(&model)?) } else { None };
    let cs = super::run::cmds(&a["cmds"]);
    let mut date = hdate(h0);
    let steps = un(&a["steps"]).max(1);
    let (mut checked, mut skipped, mut sunny, mut murky, mut done) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut bad: Option<Value> = None;
    let mut seen = 0u64;
    'run: for k in 0..steps {
        date = later(date, 3600.0 / n as f64);
        if let Some(p) = &people {
            p.control(&model, &pm, &mut st)?;
        }
        for c in cs.iter().filter(|c| c.0 == k as u64) {
            apply_cmd(&model, &mut st, c)?;
        }
        for q in arr(&a["kick"]).iter().filter(|q| un(&q[0]) == k) {
            let v = i(&q[3]) as f64 / 10.0;
            match i(&q[1]) {
                0 => st[rp.t[un(&q[2]) % rp.t.len()]] = v,
                1 if !rp.walls.is_empty() => {
                    for j in &rp.walls[un(&q[2]) % rp.walls.len()].node {
                        st[*j] = v;
                    }
                }
                2 if !rp.windows.is_empty() => {
                    for j in &rp.windows[un(&q[2]) % rp.windows.len()].node {
                        st[*j] = v;
                    }
                }
                3 if !rp.walls.is_empty() => {
                    let w = &rp.walls[un(&q[2]) % rp.walls.len()];
                    st[w.node[un(&q[2]) % w.node.len()]] = v;
                }
                _ => {}
            }
        }
        let before = st.clone();
        pm.march(date, &gw, &model, &mut st, &mut mem)?;
        done += 1;
        // what must come out. Only the sun and the sky's infrared are taken from the step itself.
        let cw = gw.get_weather_data(date);
        let run = |rp: &RefPhys, eps: f64| -> Vec<f64> {
            let mut r: Vec<f64> = before.clone();
            if eps != 0.0 {
                for x in rp.t.iter() {
                    r[*x] *= 1.0 + eps;
                }
                for w in rp.walls.iter().chain(&rp.windows) {
                    for x in &w.node {
                        r[*x] *= 1.0 - eps;
                    }
                }
            }
            rp.infrared(&mut r);
            for w in rp.walls.iter().chain(&rp.windows) {
                for q in ["FrontSolarIrradiance", "BackSolarIrradiance"] {
                    r[w.at[q]] = st[w.at[q]];
                }
                for (s, q) in [(&w.front, "FrontIRIrradiance"), (&w.back, "BackIRIrradiance")] {
                    if *s == Side::Outdoor {
                        r[w.at[q]] = st[w.at[q]];
                    }
                }
            }
            rp.air(&cw, &mut r);
            rp.rooms_and_walls(date, &gw, &mut r);
            r
        };
        let (want, p, q) = (run(&rp, 0.0), run(&rp, 1e-12), run(&rp2, -3e-12));
        let day = cw.direct_normal_radiation + cw.diffuse_horizontal_radiation >= 1e-4;
        sunny += day as u64;
        let sky = cw.horizontal_infrared_radiation_intensity.unwrap_or_else(|| cw.derive_horizontal_ir());
        let black = SIGMA * (cw.dry_bulb_temperature + 273.15).powi(4);
        let beams = match &sight {
            Some(_) if day => {
                let sky = |nudge: f64| super::skyref::sky_vec(mf, &place, date, &cw, nudge);
                let v = sky(0.0);
                // at sunrise, or with patches equally near to the sun, rounding decides: not compared
                let firm = [1e-9, -1e-9].iter().all(|x| sky(*x).iter().zip(&v).all(|(p, q)| (p - q).abs() <= 1e-4 * (1.0 + q.abs())));
                firm.then_some(v)
            }
            _ => None,
        };
        murky += (day && sight.is_some() && beams.is_none()) as u64;
        if let Some(o) = &sight {
            for (group, f_vf, b_vf, f_dc, b_dc) in [
                (&rp.walls, &o.front_surfaces_view_factors, &o.back_surfaces_view_factors, &o.front_surfaces_dc, &o.back_surfaces_dc),
                (&rp.windows, &o.front_fenestrations_view_factors, &o.back_fenestrations_view_factors, &o.front_fenestrations_dc, &o.back_fenestrations_dc),
            ] {
                for w in group.iter() {
                    let x = w.index;
                    for (s, ir, sun, vf, dc) in [(&w.front, "FrontIRIrradiance", "FrontSolarIrradiance", &f_vf[x], f_dc), (&w.back, "BackIRIrradiance", "BackSolarIrradiance", &b_vf[x], b_dc)] {
                        let mut exact = vec![];
                        if *s == Side::Outdoor {
                            exact.push((ir, (vf.ground + vf.air) * black + vf.sky * sky));
                        }
                        match &beams {
                            Some(v) => {
                                let (mut now, mut old) = (0.0, 0.0);
                                for (j, l) in v.iter().enumerate() {
                                    now += dc.get(x, j)? * l;
                                }
                                if matches!(s, Side::Outdoor | Side::Room(_)) {
                                    old = before[w.at[sun]];
                                }
                                // the mean of the step
                                exact.push((sun, (now.max(0.0) + old) / 2.0));
                            }
                            None if day => {}
                            None => exact.push((sun, 0.0)),
                        }
                        for (q, y) in exact {
                            let g = st[w.at[q]];
                            seen += 1;
                            if !((g - y).abs() <= 1e-6 * (1.0 + y.abs())) {
                                bad = Some(json!({"step": k, "what": format!("{q} of '{}'", w.name), "got": g, "want": y}));
                                break 'run;
                            }
                        }
                    }
                }
            }
        }
        for w in rp.walls.iter().chain(&rp.windows) {
            for (s, q, r) in [(&w.front, "FrontIRIrradiance", "FrontSolarIrradiance"), (&w.back, "BackIRIrradiance", "BackSolarIrradiance")] {
                let (ir, sun) = (st[w.at[q]], st[w.at[r]]);
                if *s == Side::Outdoor {
                    let (lo, hi) = (sky.min(black), sky.max(black));
                    if !(ir >= lo - 1e-6 * hi && ir <= hi * (1.0 + 1e-6)) {
                        bad = Some(json!({"step": k, "what": format!("{q} of '{}'", w.name), "got": ir, "want": format!("between {lo} and {hi}")}));
                        break 'run;
                    }
                    // half of the first second past sunset still holds yesterday's average: only the sign and the night are exact
                    if !(sun >= -1e-9) || (!day && sun != 0.0) {
                        bad = Some(json!({"step": k, "what": format!("{r} of '{}' ({})", w.name, if day { "day" } else { "night" }), "got": sun, "want": if day { ">= 0" } else { "0" }}));
                        break 'run;
                    }
                } else if matches!(s, Side::Ambient(_) | Side::Adiabatic) && sun != 0.0 {
                    bad = Some(json!({"step": k, "what": format!("{r} of '{}', which the sun cannot reach", w.name), "got": sun, "want": 0}));
                    break 'run;
                }
            }
        }
        for j in 0..st.len() {
            let (x, y) = (st[j], want[j]);
            if x.is_nan() || y.is_nan() || (p[j] - y).abs() > 1e-8 * (1.0 + y.abs()) || (q[j] - y).abs() > 1e-8 * (1.0 + y.abs()) {
                skipped += 1;
                continue;
            }
            checked += 1;
            if (x - y).abs() > 1e-6 * (1.0 + y.abs()) {
                let all: Vec<Value> = (0..st.len()).filter(|q| (st[*q] - want[*q]).abs() > 1e-6 * (1.0 + want[*q].abs())).map(|q| json!([names[q], before[q], st[q], want[q]])).collect();
                bad = Some(json!({"step": k, "what": names[j], "got": x, "want": y, "all": all}));
                break 'run;
            }
        }
        if st.iter().any(|x| !x.is_finite() || x.abs() > 1e6) {
            break;
        }
    }
    crate::rt::stop();
    Ok(json!({"bad": bad, "checked": checked, "skipped": skipped, "sunny": sunny, "murky": murky, "seen": seen, "steps": done, "sub": rp.sub}))
}
