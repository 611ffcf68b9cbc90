//! Running simulations through the public entry points, and the reference loop.
use crate::bldg::*;
use crate::child::{panic_text, Env};
use air::air_model::AirFlowModel;
use calendar::Date;
use heat::heat_model::ThermalModel;
use light::solar_model::SolarModel;
use communication::{MetaOptions, SimulationModel};
use model::{Model, SimulationState, SimulationStateElement, SimulationStateHeader, HVAC};
use serde_json::{json, Value};
use simple::control_trait::SimpleControl;
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::{MultiphysicsModel, OccupantBehaviour, VoidControl};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Write};
use std::rc::Rc;
use weather::{CurrentWeather, WeatherTrait};

// ------------------------------------------------------------------ sink
#[derive(Default)]
pub struct SinkLog {
    pub durable: Vec<u8>,
    pub pending: Vec<u8>,
    pub writes: u64,
    pub flushes: u64,
    pub fired: Vec<String>,
    pub hard: u64,
}
/// A result sink with a scripted behaviour per call.
/// plan: [[call index, kind, arg]]; kinds: 0 short(arg) 1 interrupted 2 zero 3 error(kind arg, this call)
/// 4 capacity: after arg bytes every further byte fails; 5 short(arg) on every call from this one on
pub struct Sink {
    pub log: Rc<RefCell<SinkLog>>,
    pub plan: Vec<(u64, i64, i64)>,
    pub buffered: bool,
    /// -1 never; k: the k-th flush fails
    pub flush_fail: i64,
    pub cap: Option<usize>,
}
fn ekind(k: i64) -> Error {
    match k % 5 {
        0 => Error::from_raw_os_error(28), // no space
        1 => Error::from_raw_os_error(5),  // I/O
        2 => Error::from_raw_os_error(32), // broken pipe
        3 => Error::from_raw_os_error(11), // would block
        _ => Error::new(ErrorKind::Other, "sink failure"),
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut l = self.log.borrow_mut();
        let k = l.writes;
        l.writes += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len();
        for (at, kind, arg) in self.plan.clone() {
            if kind == 5 && k >= at {
                n = n.min((arg.max(1)) as usize);
                if k == at {
                    l.fired.push("short".into());
                }
            }
            if at != k {
                continue;
            }
            match kind {
                0 => {
                    n = n.min((arg.max(1)) as usize);
                    l.fired.push("short".into());
                }
                1 => {
                    l.fired.push("interrupted".into());
                    return Err(Error::from(ErrorKind::Interrupted));
                }
                2 => {
                    l.fired.push("zero".into());
                    l.hard += 1;
                    return Ok(0);
                }
                3 => {
                    l.fired.push("error".into());
                    l.hard += 1;
                    return Err(ekind(arg));
                }
                _ => {}
            }
        }
        if let Some(c) = self.cap {
            let have = l.durable.len() + l.pending.len();
            if have >= c {
                l.fired.push("full".into());
                l.hard += 1;
                return Err(ekind(0));
            }
            n = n.min(c - have);
        }
        if self.buffered {
            l.pending.extend_from_slice(&b[..n]);
        } else {
            l.durable.extend_from_slice(&b[..n]);
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        let mut l = self.log.borrow_mut();
        let k = l.flushes as i64;
        l.flushes += 1;
        if k == self.flush_fail {
            l.fired.push("flush_error".into());
            l.hard += 1;
            return Err(ekind(1));
        }
        let p = std::mem::take(&mut l.pending);
        l.durable.extend_from_slice(&p);
        Ok(())
    }
}

// ------------------------------------------------------------------ probe controller
pub struct Probe {
    pub log: Rc<RefCell<ProbeLog>>,
    /// (step, target kind 0 lum 1 hvac 2 fen, index, value)
    pub cmds: Vec<(u64, i64, usize, f64)>,
    pub fail_at: i64,
    pub inner_people: Option<OccupantBehaviour>,
    pub sink: Rc<RefCell<SinkLog>>,
}
#[derive(Default)]
pub struct ProbeLog {
    pub calls: u64,
    pub before: Vec<Vec<u64>>,
    pub after: Vec<Vec<u64>>,
    /// bytes the sink had received when the call was made
    pub seen: Vec<u64>,
}
pub fn bits(s: &[f64]) -> Vec<u64> {
    s.iter().map(|x| x.to_bits()).collect()
}
pub fn apply_cmd(m: &Model, st: &mut SimulationState, c: &(u64, i64, usize, f64)) -> Result<(), String> {
    match c.1 {
        0 if !m.luminaires.is_empty() => m.luminaires[c.2 % m.luminaires.len()].set_power_consumption(st, c.3)?,
        1 if !m.hvacs.is_empty() => match &m.hvacs[c.2 % m.hvacs.len()] {
            HVAC::ElectricHeater(h) => h.set_heating_cooling_consumption(st, c.3)?,
            HVAC::IdealHeaterCooler(h) => h.set_heating_cooling_consumption(st, c.3)?,
        },
        2 => {
            let l: Vec<_> = m.fenestrations.iter().filter(|f| f.open_fraction_index().is_some()).collect();
            if !l.is_empty() {
                l[c.2 % l.len()].set_open_fraction(st, (c.3.abs() / 2000.0).min(1.0))?
            }
        }
        _ => {}
    }
    Ok(())
}
impl SimpleControl for Probe {
    fn control<M: Borrow<Model>>(&self, model: M, pm: &MultiphysicsModel, state: &mut SimulationState) -> Result<(), String> {
        let k = {
            let mut l = self.log.borrow_mut();
            let k = l.calls;
            l.calls += 1;
            l.before.push(bits(state));
            let s: std::cell::Ref<SinkLog> = RefCell::borrow(&self.sink);
            l.seen.push((s.durable.len() + s.pending.len()) as u64);
            k
        };
        let m: &Model = model.borrow();
        if self.fail_at == k as i64 {
            return Err("probe controller failed".into());
        }
        if let Some(p) = &self.inner_people {
            p.control(m, pm, state)?;
        }
        for c in self.cmds.iter().filter(|c| c.0 == k) {
            apply_cmd(m, state, c)?;
        }
        self.log.borrow_mut().after.push(bits(state));
        Ok(())
    }
}

pub fn load(env: &Env) -> Result<(Model, SimulationStateHeader), String> {
    let m = &env.a()["model"];
    if let Some(f) = m.as_str() {
        if f.ends_with(".spl") {
            Model::from_file(f.to_string())
        } else {
            Model::from_json_file(f.to_string())
        }
    } else {
        Model::from_json(&json_ordered(m))
    }
}

/// [step, kind, object, value, e]: the value is scaled by 2^-e
pub fn cmds(v: &Value) -> Vec<(u64, i64, usize, f64)> {
    arr(v).iter().map(|c| (i(&c[0]) as u64, i(&c[1]), un(&c[2]), i(&c[3]) as f64 / (1u64 << c[4].as_i64().unwrap_or(0).clamp(0, 40)) as f64)).collect()
}

/// Runs a simulation through `run` / `run_rhai` with a scripted sink.
pub fn sim(env: &Env) -> Result<Value, String> {
    let a = env.a();
    let (model, mut header) = load(env)?;
    let opts = SimOptions {
        input_file: "model.json".into(),
        weather_file: a["weather"].as_str().map(|s| s.to_string()),
        n: un(&a["n"]),
        research_mode: a["research"].as_bool().unwrap_or(false),
        ..SimOptions::default()
    };
    let slog: Rc<RefCell<SinkLog>> = Default::default();
    let plog: Rc<RefCell<ProbeLog>> = Default::default();
    let sp = &a["sink"];
    let sink = Sink {
        log: slog.clone(),
        plan: arr(&sp["plan"]).iter().map(|p| (i(&p[0]) as u64, i(&p[1]), i(&p[2]))).collect(),
        buffered: sp["buffered"].as_bool().unwrap_or(false),
        flush_fail: sp["flush_fail"].as_i64().unwrap_or(-1),
        cap: sp["cap"].as_u64().map(|c| c as usize),
    };
    let mk = |people: bool| Probe {
        log: plog.clone(),
        cmds: cmds(&a["cmds"]),
        fail_at: a["fail_at"].as_i64().unwrap_or(-1),
        inner_people: if people { Some(OccupantBehaviour::new(&model).unwrap()) } else { None },
        sink: slog.clone(),
    };
    let ctl = a["control"].as_str().unwrap_or("void").to_string();
    let m2 = model.clone();
    env.start();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match ctl.as_str() {
        "void" => run(&model, &mut header, &opts, sink, VoidControl {}),
        "people" => run(&model, &mut header, &opts, sink, OccupantBehaviour::new(&model)?),
        "probe" => run(&model, &mut header, &opts, sink, mk(false)),
        "probe_people" => run(&model, &mut header, &opts, sink, mk(true)),
        _ => run_rhai(m2, &mut header, &opts, &ctl, sink),
    }));
    crate::rt::stop();
    let (res, err) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", e),
        Err(e) => ("panic", panic_text(&*e)),
    };
    let s: std::cell::Ref<SinkLog> = RefCell::borrow(&slog);
    let p: std::cell::Ref<ProbeLog> = RefCell::borrow(&plog);
    let mut out = json!({"res": res, "err": err, "out": String::from_utf8_lossy(&s.durable), "pending": s.pending.len(), "writes": s.writes, "flushes": s.flushes, "fired": s.fired, "hard": s.hard,
        "calls": p.calls, "seen": p.seen});
    if a["snap"].as_bool().unwrap_or(false) {
        out["before"] = json!(p.before);
        out["after"] = json!(p.after);
        out["elements"] = json!(header.elements.iter().map(|e| elem_name(e, &model)).collect::<Vec<_>>());
    }
    Ok(out)
}

/// The column name of a state element, independently of the code under test.
pub fn elem_name(e: &SimulationStateElement, m: &Model) -> String {
    use SimulationStateElement as E;
    let sp = |k: &usize| m.spaces[*k].name.clone();
    let su = |k: &usize| m.surfaces[*k].name.clone();
    let fe = |k: &usize| m.fenestrations[*k].name.clone();
    let one = |v: &str, n: String| format!("{{\"{v}\":{}}}", serde_json::to_string(&n).unwrap());
    match e {
        E::FenestrationOpenFraction(k) => one("FenestrationOpenFraction", fe(k)),
        E::HeatingCoolingPowerConsumption(k) => one(
            "HeatingCoolingPowerConsumption",
            match &m.hvacs[*k] {
                HVAC::ElectricHeater(h) => h.name.clone(),
                HVAC::IdealHeaterCooler(h) => h.name.clone(),
            },
        ),
        E::LuminairePowerConsumption(k) => one("LuminairePowerConsumption", m.luminaires[*k].name().clone()),
        E::SurfaceFrontConvectionCoefficient(k) => one("SurfaceFrontConvectionCoefficient", su(k)),
        E::SurfaceBackConvectionCoefficient(k) => one("SurfaceBackConvectionCoefficient", su(k)),
        E::SurfaceFrontConvectiveHeatFlow(k) => one("SurfaceFrontConvectiveHeatFlow", su(k)),
        E::SurfaceBackConvectiveHeatFlow(k) => one("SurfaceBackConvectiveHeatFlow", su(k)),
        E::SurfaceFrontSolarIrradiance(k) => one("SurfaceFrontSolarIrradiance", su(k)),
        E::SurfaceBackSolarIrradiance(k) => one("SurfaceBackSolarIrradiance", su(k)),
        E::SurfaceFrontIRIrradiance(k) => one("SurfaceFrontIRIrradiance", su(k)),
        E::SurfaceBackIRIrradiance(k) => one("SurfaceBackIRIrradiance", su(k)),
        E::FenestrationFrontConvectionCoefficient(k) => one("FenestrationFrontConvectionCoefficient", fe(k)),
        E::FenestrationBackConvectionCoefficient(k) => one("FenestrationBackConvectionCoefficient", fe(k)),
        E::FenestrationFrontConvectiveHeatFlow(k) => one("FenestrationFrontConvectiveHeatFlow", fe(k)),
        E::FenestrationBackConvectiveHeatFlow(k) => one("FenestrationBackConvectiveHeatFlow", fe(k)),
        E::FenestrationFrontSolarIrradiance(k) => one("FenestrationFrontSolarIrradiance", fe(k)),
        E::FenestrationBackSolarIrradiance(k) => one("FenestrationBackSolarIrradiance", fe(k)),
        E::FenestrationFrontIRIrradiance(k) => one("FenestrationFrontIRIrradiance", fe(k)),
        E::FenestrationBackIRIrradiance(k) => one("FenestrationBackIRIrradiance", fe(k)),
        E::SpaceDryBulbTemperature(k) => one("SpaceDryBulbTemperature", sp(k)),
        E::SpaceInfiltrationVolume(k) => one("SpaceInfiltrationVolume", sp(k)),
        E::SpaceInfiltrationTemperature(k) => one("SpaceInfiltrationTemperature", sp(k)),
        E::SpaceVentilationVolume(k) => one("SpaceVentilationVolume", sp(k)),
        E::SpaceVentilationTemperature(k) => one("SpaceVentilationTemperature", sp(k)),
        other => other.stringify(m),
    }
}

// ------------------------------------------------------------------ reference loop
/// Piecewise-linear weather over a cyclic year, written independently.
pub struct RefWeather {
    /// relative perturbation of every value, to find out how sensitive a trajectory is to rounding
    pub eps: f64,
    recs: Vec<(f64, Rec)>, // sorted by day of the year
}
impl RefWeather {
    pub fn new(mut r: Vec<Rec>) -> Self {
        r.sort_by(|a, b| a.hoy.partial_cmp(&b.hoy).unwrap());
        RefWeather { eps: 0.0, recs: r.into_iter().map(|r| (doy(hdate(r.hoy)), r)).collect() }
    }
    pub fn at(&self, d: Date) -> Rec {
        let n = self.recs.len();
        let h = doy(d);
        if let Some(x) = self.recs.iter().find(|x| x.0 == h) {
            return x.1.clone();
        }
        let after = self.recs.iter().position(|x| x.0 > h);
        let (a, b, ha, hb, hh) = match after {
            Some(k) if k > 0 => (&self.recs[k - 1].1, &self.recs[k].1, self.recs[k - 1].0, self.recs[k].0, h),
            Some(_) => (&self.recs[n - 1].1, &self.recs[0].1, self.recs[n - 1].0, self.recs[0].0 + 365.0, h + 365.0),
            None => (&self.recs[n - 1].1, &self.recs[0].1, self.recs[n - 1].0, self.recs[0].0 + 365.0, h),
        };
        let x = (hh - ha) / (hb - ha);
        let l = |p: f64, q: f64| p + x * (q - p);
        Rec {
            hoy: h * 24.0,
            dry: l(a.dry, b.dry),
            dew: l(a.dew, b.dew),
            ghi: l(a.ghi, b.ghi),
            dni: l(a.dni, b.dni),
            dif: l(a.dif, b.dif),
            ws: l(a.ws, b.ws),
            wd: l(a.wd, b.wd),
            ir: match (a.ir, b.ir) {
                (Some(p), Some(q)) => Some(l(p, q)),
                _ => None,
            },
            cover: l(a.cover, b.cover),
            rh: l(a.rh, b.rh),
            pres: l(a.pres, b.pres),
        }
    }
}
/// Fractional day of the year, in the order of operations the engine uses so that rounding agrees.
pub fn doy(d: Date) -> f64 {
    MLEN[..d.month as usize - 1].iter().sum::<i64>() as f64 + d.day as f64 + d.hour / 24.0 - 1.0
}
pub fn hdate(h: f64) -> Date {
    let (month, day, hour) = hoy(h);
    Date { month, day, hour }
}
pub fn date_hoy(d: Date) -> f64 {
    MLEN[..d.month as usize - 1].iter().sum::<i64>() as f64 * 24.0 + (d.day as f64 - 1.0) * 24.0 + d.hour
}
impl WeatherTrait for RefWeather {
    fn get_weather_data(&self, d: Date) -> CurrentWeather {
        let mut r = self.at(d);
        if self.eps != 0.0 {
            let (p, q) = (1.0 + self.eps, 1.0 - self.eps);
            r.dry *= p;
            r.ghi *= q;
            r.dni *= p;
            r.dif *= q;
            r.ws *= q;
            r.wd += 100.0 * self.eps; // the side the wind blows on is a threshold

            r.ir = r.ir.map(|x| x * p);
            r.cover *= q;
        }
        CurrentWeather {
            date: d,
            dry_bulb_temperature: r.dry,
            dew_point_temperature: r.dew,
            global_horizontal_radiation: r.ghi,
            direct_normal_radiation: r.dni,
            diffuse_horizontal_radiation: r.dif,
            wind_speed: r.ws,
            wind_direction: r.wd,
            horizontal_infrared_radiation_intensity: r.ir,
            opaque_sky_cover: r.cover,
            relative_humidity: r.rh,
            pressure: r.pres,
        }
    }
}
/// Dates of the rows: every multiple of the timestep after the first record, up to 0.1 h before the last.
pub fn ref_dates(w: &Value, n: usize) -> Vec<f64> {
    let rs = records(w);
    let n = n.min(60);
    let span = (i(&w["n"]).max(1) - 1) as f64 * i(&w["step"]).max(1) as f64;
    let mut v = vec![];
    let mut k = 1u64;
    loop {
        let t = k as f64 / n as f64;
        if t > span - 0.1 + 1e-9 {
            break;
        }
        v.push(rs[0].hoy + t);
        k += 1;
    }
    v
}

pub fn reference(env: &Env) -> Result<Value, String> {
    let a = env.a();
    let (model, mut header) = load(env)?;
    let w = &a["w"];
    let n = un(&a["n"]).min(60);
    let doc = weather_doc(w);
    let meta = MetaOptions {
        latitude: doc["location"]["latitude"].as_f64().unwrap(),
        longitude: doc["location"]["longitude"].as_f64().unwrap(),
        standard_meridian: (time_zone(w) * 15.).to_radians(),
        elevation: doc["location"]["elevation"].as_f64().unwrap(),
    };
    let mut rw = RefWeather::new(records(w));
    env.start();
    // the three physics modules, driven one by one
    let heat = ThermalModel::new(&meta, (), &model, &mut header, n)?;
    let air = AirFlowModel::new(&meta, (), &model, &mut header, n)?;
    let opt = model.solar_options.clone().ok_or("no solar options")?;
    let sun = SolarModel::new(&meta, opt, &model, &mut header, n)?;
    // the occupants' rule asks for a coupled model: give it one of a copy of the building
    let spare = if a["control"].as_str().unwrap_or("void").ends_with("people") {
        let (m2, mut h2) = load(env)?;
        Some(MultiphysicsModel::new(&meta, (), &m2, &mut h2, n)?)
    } else {
        None
    };
    let names: Vec<String> = header.elements.iter().map(|e| elem_name(e, &model)).collect();
    let mut st = header.take_values().ok_or("no state")?;
    let cs = cmds(&a["cmds"]);
    let pr = if a["prog"].is_array() { crate::prog::stmts(&a["prog"], &build(&a["b"])) } else { vec![] };
    let elements = header.elements.clone();
    let people = OccupantBehaviour::new(&model)?;
    let init = st.clone();
    let lim = a["max_rows"].as_u64().unwrap_or(u64::MAX) as usize;
    let mut trajs: Vec<Vec<(f64, Vec<f64>)>> = vec![];
    for eps in [0.0, 1e-13, -3e-13] {
        rw.eps = eps;
        st = init.clone();
        let mut hm = heat.allocate_memory(&st)?;
        #[allow(clippy::let_unit_value)]
        let mut am = air.allocate_memory(&st)?;
        #[allow(clippy::let_unit_value)]
        let mut sm = sun.allocate_memory(&st)?;
        let mut rows = vec![];
        let mut date = hdate(records(w)[0].hoy);
        for (k, h) in ref_dates(w, n).into_iter().take(lim).enumerate() {
            // accumulate the date as a sequence of steps, so that rounding agrees too
            let hr = date.hour + (3600.0 / n as f64) / 3600.0;
            date = if hr >= 24.0 {
                let d = hdate(date_hoy(Date { hour: 0.0, ..date }) + 24.0);
                Date { hour: hr % 24.0, ..d }
            } else {
                Date { hour: hr, ..date }
            };
            if let Some(pm) = &spare {
                people.control(&model, pm, &mut st)?;
            }
            for c in cs.iter().filter(|c| c.0 == k as u64) {
                apply_cmd(&model, &mut st, c)?;
            }
            crate::prog::exec(&pr, &elements, &mut st)?;
            sun.march(date, &rw, &model, &mut st, &mut sm)?;
            air.march(date, &rw, &model, &mut st, &mut am)?;
            heat.march(date, &rw, &model, &mut st, &mut hm)?;
            rows.push((h, st.clone()));
        }
        trajs.push(rows);
    }
    crate::rt::stop();
    // rows up to which the trajectory does not depend on rounding
    let mut stable = trajs[0].len();
    for t in &trajs[1..] {
        for (k, (_, v)) in t.iter().enumerate() {
            if v.iter().zip(&trajs[0][k].1).any(|(p, q)| !((p - q).abs() <= 1e-6 + 1e-9 * q.abs()) && !(p.is_nan() && q.is_nan())) {
                stable = stable.min(k);
                break;
            }
        }
    }
    let rows: Vec<Value> = trajs[0].iter().map(|(h, v)| json!({"h": h, "v": v})).collect();
    Ok(json!({"names": names, "rows": rows, "init": init, "stable": stable}))
}
