//! Child process: executes one simulated run.
use crate::job::*;
use crate::{rt, scen};
use serde_json::{json, Value};

#[allow(dead_code, unused_imports, clippy::all)]
mod cli_simple {
    include!("/repo/bin/simple.rs");
    pub fn go() {
        main()
    }
}

#[allow(dead_code, unused_imports, clippy::all)]
mod cli_spict {
    include!("/repo/bin/spict.rs");
    pub fn go() {
        super::finish(main())
    }
}
#[allow(dead_code, unused_imports, clippy::all)]
mod cli_sfluxmtx {
    include!("/repo/bin/sfluxmtx.rs");
    pub fn go() {
        super::finish(main())
    }
}
#[allow(dead_code, unused_imports, clippy::all)]
mod cli_scompare {
    include!("/repo/bin/scompare.rs");
    pub fn go() {
        super::finish(main())
    }
}
#[allow(dead_code, unused_imports, clippy::all)]
mod cli_sfalsecolor {
    include!("/repo/bin/sfalsecolor.rs");
    pub fn go() {
        super::finish(main())
    }
}
/// What the standard library does with the Result of main.
fn finish(r: Result<(), String>) {
    if let Err(e) = r {
        eprintln!("Error: {e:?}");
        std::process::exit(1);
    }
}

pub struct Env {
    pub job: Job,
    pub dir: String,
}
impl Env {
    pub fn start(&self) {
        rt::start(&self.job.sim, &self.dir)
    }
    pub fn a(&self) -> &Value {
        &self.job.args
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}

pub fn main() {
    let jp = std::env::var("VSIM_JOB").unwrap();
    let job: Job = serde_json::from_slice(&std::fs::read(&jp).expect("job")).expect("job json");
    let res = std::env::var("VSIM_RES").unwrap();
    let dir = std::env::var("VSIM_DIR").unwrap();
    rt::child_begin(&std::env::var("VSIM_SHM").unwrap(), &job.sim);
    let env = Env { job, dir };
    if let Some(tool) = env.job.scenario.strip_prefix("cli:") {
        let tool = tool.to_string();
        env.start();
        match tool.as_str() {
            "simple" => cli_simple::go(),
            "spict" => cli_spict::go(),
            "sfluxmtx" => cli_sfluxmtx::go(),
            "scompare" => cli_scompare::go(),
            "sfalsecolor" => cli_sfalsecolor::go(),
            _ => panic!("unknown tool"),
        }
        std::process::exit(0);
    }
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VSIM_DEBUG").is_ok() {
            eprintln!("{i}");
        }
    }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scen::dispatch(&env)));
    if rt::active() {
        rt::stop();
    }
    let v = match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"harness_error": e}),
        Err(e) => json!({"panic": panic_text(&*e)}),
    };
    std::fs::write(&res, serde_json::to_vec(&v).unwrap()).expect("result");
    rt::done();
    // worker threads may still be parked: leave without joining anything
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(0) }
}
