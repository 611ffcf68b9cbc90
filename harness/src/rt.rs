//! Binding to the C runtime (rt/simrt.c): control calls and the shared log.
use crate::job::SimCfg;
use std::ffi::CString;
use std::os::raw::{c_char, c_int};

extern "C" {
    fn sim_cfg_shm(path: *const c_char);
    fn sim_entropy_always(seed: u64, mode: c_int);
    fn sim_add_fault(op: c_int, label: *const c_char, nth: i64, kind: c_int, arg: i64, sticky: c_int);
    fn sim_crash_mode(powerloss: c_int, seed: u64);
    fn sim_explicit(a: *const u64, tid: *const i32, next: *const i32, n: c_int);
    fn sim_start(ss: u64, es: u64, em: c_int, strat: c_int, q: i64, spur: c_int, limit: u64, scr: *const c_char);
    fn sim_stop();
    fn sim_done();
    fn sim_pause();
    fn sim_resume();
    fn sim_is_active() -> c_int;
    fn sim_steps() -> u64;
}

pub const MAXEV: usize = 60000;
pub const MAXDEC: usize = 200000;
pub const NFAULTKIND: usize = 24;
pub const MAXLABEL: usize = 96;
pub const LABELLEN: usize = 96;
pub const MAXOP: usize = 24;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ev {
    pub step: u64,
    pub tid: i32,
    pub kind: i32,
    pub op: i32,
    pub label: i32,
    pub arg: i64,
    pub res: i64,
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dec {
    pub a: u64,
    pub tid: i32,
    pub next: i32,
}
#[repr(C)]
pub struct ShmHead {
    pub magic: u32,
    pub status: u32,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub yields: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub spurious: u64,
    pub vtime_ns: u64,
    pub sleeps_ns: u64,
    pub sched_hash: u64,
    pub event_hash: u64,
    pub cov_edges: u64,
    pub threads: u64,
    pub entropy_calls: u64,
    pub clock_calls: u64,
    pub fault_fired: [u64; NFAULTKIND],
    pub opcount: [[u64; MAXLABEL]; MAXOP],
    pub opbytes: [[u64; MAXLABEL]; MAXOP],
    pub nlabel: u32,
    pub nev: u32,
    pub nev_total: u32,
    pub ndec: u32,
    pub dec_overflow: u32,
    pub crash_op: u32,
    pub label: [[u8; LABELLEN]; MAXLABEL],
    pub note: [u8; 512],
}

pub mod op {
    pub const OPEN_R: i32 = 1;
    pub const OPEN_W: i32 = 2;
    pub const READ: i32 = 3;
    pub const WRITE: i32 = 4;
    pub const CLOSE: i32 = 5;
    pub const FSYNC: i32 = 6;
    pub const RENAME: i32 = 7;
    pub const UNLINK: i32 = 8;
    pub const THREAD: i32 = 11;
    pub const ANY: i32 = 13;
    pub fn name(o: i32) -> &'static str {
        match o {
            1 => "open-read",
            2 => "open-write",
            3 => "read",
            4 => "write",
            5 => "close",
            6 => "fsync",
            7 => "rename",
            8 => "unlink",
            11 => "thread-start",
            _ => "op",
        }
    }
}
pub mod fk {
    pub const ERRNO: i32 = 0;
    pub const SHORT: i32 = 1;
    pub const EINTR: i32 = 2;
    pub const DISKCAP: i32 = 3;
    pub const CRASH_BEFORE: i32 = 4;
    pub const CRASH_TORN: i32 = 5;
    pub const CRASH_AFTER: i32 = 6;
    pub const STALL: i32 = 7;
    pub const CLOCKJUMP: i32 = 8;
    pub const ZERO: i32 = 11;
    pub const NAMES: [&str; 12] = [
        "io_error", "short_transfer", "interrupted_call", "disk_full", "crash_before_op", "crash_torn_op",
        "crash_after_op", "stall", "clock_jump", "spurious_wakeup", "power_loss_truncation", "zero_transfer",
    ];
}

pub fn child_begin(shm: &str, cfg: &SimCfg) {
    let p = CString::new(shm).unwrap();
    unsafe {
        sim_cfg_shm(p.as_ptr());
        sim_entropy_always(cfg.ent_seed, cfg.ent_mode);
        for f in &cfg.faults {
            let l = CString::new(f.label.as_str()).unwrap();
            sim_add_fault(f.op, l.as_ptr(), f.nth, f.kind, f.arg, f.sticky as c_int);
        }
        sim_crash_mode(cfg.powerloss as c_int, cfg.crash_seed);
        if let Some(x) = &cfg.explicit {
            let a: Vec<u64> = x.iter().map(|d| if d.0 < 0 { (1u64 << 63) | ((-(d.0 + 1)) as u64) } else { d.0 as u64 }).collect();
            let t: Vec<i32> = x.iter().map(|d| d.1).collect();
            let n: Vec<i32> = x.iter().map(|d| d.2).collect();
            sim_explicit(a.as_ptr(), t.as_ptr(), n.as_ptr(), x.len() as c_int);
        }
    }
}
pub fn start(cfg: &SimCfg, scratch: &str) {
    let p = CString::new(scratch).unwrap();
    unsafe {
        sim_start(cfg.seed, cfg.ent_seed, cfg.ent_mode, cfg.strategy, cfg.quantum, cfg.spurious, cfg.step_limit, p.as_ptr())
    }
}
pub fn stop() {
    unsafe { sim_stop() }
}
pub fn done() {
    unsafe { sim_done() }
}
pub fn active() -> bool {
    unsafe { sim_is_active() != 0 }
}
pub fn steps() -> u64 {
    unsafe { sim_steps() }
}
/// Runs harness code with interception suspended (the caller keeps the token).
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    unsafe { sim_pause() };
    let r = f();
    unsafe { sim_resume() };
    r
}
