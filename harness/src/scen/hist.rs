//! Simulations advanced step by step with saved states: checkpoints, restarts and branches.
use super::run::*;
use crate::bldg::*;
use crate::child::Env;
use calendar::Period;
use communication::{MetaOptions, SimulationModel};
use model::{Model, SimulationState, SimulationStateHeader};
use serde_json::{json, Value};
use simple::control_trait::SimpleControl;
use simple::{MultiphysicsModel, OccupantBehaviour};
use std::io::Write;
use weather::Weather;

struct World {
    model: Model,
    phys: MultiphysicsModel,
    weather: Weather,
    people: Option<OccupantBehaviour>,
    cmds: Vec<(u64, i64, usize, f64)>,
    dates: Vec<calendar::Date>,
}
impl World {
    fn new(env: &Env) -> Result<(World, SimulationState, SimulationStateHeader), String> {
        let a = env.a();
        let (model, mut header) = load(env)?;
        let n = un(&a["n"]).clamp(1, 60);
        let text = std::fs::read_to_string("w.sw").map_err(|e| format!("harness: {e}"))?;
        let mut weather: Weather = serde_json::from_str(&text).map_err(|e| format!("harness: {e}"))?;
        let place = serde_json::from_str::<Value>(&text).map_err(|e| format!("harness: {e}"))?["location"].clone();
        let start = weather.data[0].date;
        weather.sort_data();
        let meta = MetaOptions {
            latitude: weather.location.latitude,
            longitude: weather.location.longitude,
            standard_meridian: (time_zone(&json!({"tz": place["timezone"], "tm": place["timezone_minutes"]})) * 15.).to_radians(),
            elevation: weather.location.elevation,
        };
        let phys = MultiphysicsModel::new(&meta, (), &model, &mut header, n)?;
        let steps = un(&a["steps"]).max(1);
        // an end far enough; only the first dates are used
        let mut end = start;
        end.add_hours((steps as f64 / n as f64 + 2.0).min(200.0));
        let mut per = Period::new(start, end, 3600.0 / n as f64);
        let mut dates = vec![];
        while dates.len() < steps {
            match per.next() {
                Some(d) => dates.push(d),
                None => break,
            }
        }
        let st = header.take_values().ok_or("no state")?;
        let people = if a["people"].as_bool().unwrap_or(false) { Some(OccupantBehaviour::new(&model)?) } else { None };
        let cmds = super::run::cmds(&a["cmds"]);
        Ok((World { model, phys, weather, people, cmds, dates }, st, header))
    }
    fn step(&self, k: usize, st: &mut SimulationState, mem: &mut <MultiphysicsModel as SimulationModel>::AllocType) -> Result<(), String> {
        if let Some(p) = &self.people {
            p.control(&self.model, &self.phys, st)?;
        }
        for c in self.cmds.iter().filter(|c| c.0 == k as u64) {
            apply_cmd(&self.model, st, c)?;
        }
        self.phys.march(self.dates[k], &self.weather, &self.model, st, mem)
    }
}
fn unbits(v: &Value) -> Vec<f64> {
    arr(v).iter().map(|x| f64::from_bits(x.as_u64().unwrap_or(0))).collect()
}
fn save(k: usize, st: &SimulationState) -> std::io::Result<()> {
    let mut f = std::fs::File::create("cp.tmp")?;
    f.write_all(json!({"k": k, "st": bits(st)}).to_string().as_bytes())?;
    f.sync_all()?;
    drop(f);
    std::fs::rename("cp.tmp", "cp.json")
}

/// args.from/init: where to start; args.realloc: steps before which the memory is allocated anew;
/// args.branch: [step, length, same] lists: at that step a copy of the state takes a detour (1: with the same memory); args.every: checkpoints.
pub fn hist(env: &Env) -> Result<Value, String> {
    let a = env.a();
    env.start();
    let (w, mut st, _header) = World::new(env)?;
    let mut k0 = 0;
    if a["resume"].as_bool().unwrap_or(false) {
        if let Ok(t) = std::fs::read_to_string("cp.json") {
            let v: Value = serde_json::from_str(&t).map_err(|e| format!("harness: checkpoint {e}"))?;
            k0 = un(&v["k"]);
            let s = unbits(&v["st"]);
            if s.len() != st.len() {
                return Err(format!("scenario: a fresh model has a state of {} values, the saved one {}", st.len(), s.len()));
            }
            st = s;
        }
    }
    let realloc: Vec<usize> = arr(&a["realloc"]).iter().map(un).collect();
    let branch: Vec<(usize, usize, bool)> = arr(&a["branch"]).iter().map(|b| (un(&b[0]), un(&b[1]), un(&b[2]) == 1)).collect();
    let every = un(&a["every"]);
    let mut mem = w.phys.allocate_memory(&st)?;
    let mut rows = vec![];
    for k in k0..w.dates.len() {
        if realloc.contains(&k) {
            mem = w.phys.allocate_memory(&st)?;
        }
        for (_, len, same) in branch.iter().filter(|b| b.0 == k) {
            let mut s2 = st.clone();
            let mut other = w.phys.allocate_memory(&s2)?;
            let m2 = if *same { &mut mem } else { &mut other };
            // a different future: everything that can be switched is
            for j in 0..6 {
                apply_cmd(&w.model, &mut s2, &(0, j % 3, (j / 3) as usize, 99.0))?;
            }
            for q in k..(k + len).min(w.dates.len()) {
                w.phys.march(w.dates[q], &w.weather, &w.model, &mut s2, m2)?;
            }
        }
        w.step(k, &mut st, &mut mem)?;
        rows.push(json!(bits(&st)));
        if every > 0 && (k + 1) % every == 0 {
            save(k + 1, &st).map_err(|e| format!("harness: {e}"))?;
        }
    }
    crate::rt::stop();
    Ok(json!({"from": k0, "rows": rows}))
}
