//! Several simulations at the same time, one per thread of the same process.
use crate::bldg::*;
use crate::child::{panic_text, Env};
use model::Model;
use serde_json::{json, Value};
use simple::run_simulation::{run, run_rhai, SimOptions};
use simple::{OccupantBehaviour, VoidControl};
use std::io::Write;
use std::sync::{Arc, Mutex};

#[derive(Clone, Default)]
struct Shared(Arc<Mutex<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn one(j: &Value) -> Value {
    if i(&j["delay_ns"]) > 0 {
        std::thread::sleep(std::time::Duration::from_nanos(i(&j["delay_ns"]) as u64));
    }
    let sink = Shared::default();
    let s2 = sink.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || -> Result<(), String> {
        let f = j["model"].as_str().unwrap_or("model.json").to_string();
        let (model, mut header) = if f.ends_with(".spl") { Model::from_file(f)? } else { Model::from_json_file(f)? };
        let opts = SimOptions { input_file: "m".into(), weather_file: j["weather"].as_str().map(|s| s.to_string()), n: un(&j["n"]), ..SimOptions::default() };
        match j["control"].as_str().unwrap_or("void") {
            "void" => run(&model, &mut header, &opts, s2, VoidControl {}),
            "people" => {
                let c = OccupantBehaviour::new(&model)?;
                run(&model, &mut header, &opts, s2, c)
            }
            f => run_rhai(model, &mut header, &opts, &f.to_string(), s2),
        }
    }));
    let (res, err) = match r {
        Ok(Ok(())) => ("ok", String::new()),
        Ok(Err(e)) => ("err", e),
        Err(e) => ("panic", panic_text(&*e)),
    };
    let out = sink.0.lock().map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    json!({"res": res, "err": err, "out": out})
}

/// args.jobs: one simulation per entry; args.serial: one after the other instead of concurrently.
pub fn multi(env: &Env) -> Result<Value, String> {
    let jobs: Vec<Value> = arr(&env.a()["jobs"]).to_vec();
    let serial = env.a()["serial"].as_bool().unwrap_or(false);
    env.start();
    let res: Vec<Value> = if serial {
        jobs.iter().map(one).collect()
    } else {
        let hs: Vec<_> = jobs.into_iter().map(|j| std::thread::spawn(move || one(&j))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or(json!({"res": "panic"}))).collect()
    };
    crate::rt::stop();
    Ok(json!({ "runs": res }))
}
