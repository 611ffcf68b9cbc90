//! Library scenarios executed inside a child process.
use crate::child::Env;
use serde_json::Value;

pub mod files;
pub mod hist;
pub mod multi;
pub mod par;
pub mod phys;
pub mod skyref;
pub mod run;

pub fn dispatch(env: &Env) -> Result<Value, String> {
    match env.job.scenario.as_str() {
        "sim" => run::sim(env),
        "ref" => run::reference(env),
        "dc" => par::dc(env),
        "render" => par::render(env),
        "matmul" => par::matmul(env),
        "files" => files::files(env),
        "multi" => multi::multi(env),
        "hist" => hist::hist(env),
        "phys" => phys::phys(env),
        "optical" => par::optical(env),
        s => Err(format!("unknown scenario {s}")),
    }
}
