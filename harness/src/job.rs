//! What one simulated run is: configuration, faults, and how a child process executes it.
use serde::{Deserialize, Serialize};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub op: i32,
    pub label: String,
    pub nth: i64,
    pub kind: i32,
    pub arg: i64,
    #[serde(default)]
    pub sticky: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SimCfg {
    pub seed: u64,
    pub strategy: i32,
    pub quantum: i64,
    pub workers: usize,
    pub ent_seed: u64,
    pub ent_mode: i32,
    pub spurious: i32,
    pub step_limit: u64,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub powerloss: bool,
    #[serde(default)]
    pub crash_seed: u64,
    #[serde(default)]
    pub explicit: Option<Vec<(i64, i32, i32)>>,
}
impl Default for SimCfg {
    fn default() -> Self {
        SimCfg {
            seed: 1,
            strategy: 0,
            quantum: 1000,
            workers: 1,
            ent_seed: 7,
            ent_mode: 0,
            spurious: 0,
            step_limit: 3_000_000_000,
            faults: vec![],
            powerloss: false,
            crash_seed: 0,
            explicit: None,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Job {
    /// library scenario name, or "cli:<tool>"
    pub scenario: String,
    pub args: Value,
    pub sim: SimCfg,
    /// command line for CLI scenarios
    #[serde(default)]
    pub argv: Vec<String>,
}
