//! Driver: executes simulated runs in child processes, searches over seeded cases,
//! minimises violations, writes replay files and evidence.
use crate::job::*;
use crate::rng::*;
use crate::rt;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub detail: String,
}
pub fn viol(key: impl Into<String>, detail: impl Into<String>) -> Viol {
    Viol { key: key.into(), detail: detail.into() }
}
#[derive(Default, Clone, Debug)]
pub struct CaseOut {
    pub violations: Vec<Viol>,
    /// signature used to count distinct non-trivial cases
    pub signature: String,
    pub nontrivial: bool,
    /// free counters, summed into the evidence
    pub counters: BTreeMap<String, u64>,
}
impl CaseOut {
    pub fn v(&mut self, key: impl Into<String>, detail: impl Into<String>) {
        if self.violations.len() < 8 {
            self.violations.push(viol(key, detail));
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.to_string()).or_default() += n;
    }
}
pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, Tier) -> Value,
    pub check: fn(&Ctx, &Value) -> Result<CaseOut, String>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub steps: u64,
    pub vtime_ns: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub threads: u64,
    pub ops: u64,
    pub faults: BTreeMap<String, u64>,
    pub scheds: HashSet<u64>,
    pub execs: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub max_steps: u64,
}
pub struct Global {
    pub exe: PathBuf,
    pub work: PathBuf,
    pub stats: Mutex<Stats>,
    pub counter: AtomicU64,
}
pub struct Ctx<'a> {
    pub g: &'a Global,
    pub hashes: std::cell::RefCell<Vec<u64>>,
    pub last_dec: std::cell::RefCell<Vec<(i64, i32, i32)>>,
    pub trace: std::cell::RefCell<Option<Vec<Value>>>,
}
pub struct Scratch(pub PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
impl Scratch {
    pub fn p(&self, f: &str) -> PathBuf {
        self.0.join(f)
    }
    pub fn write(&self, f: &str, c: impl AsRef<[u8]>) {
        std::fs::write(self.0.join(f), c).expect("scratch write");
    }
    pub fn read(&self, f: &str) -> Option<Vec<u8>> {
        std::fs::read(self.0.join(f)).ok()
    }
    pub fn text(&self, f: &str) -> String {
        String::from_utf8_lossy(&self.read(f).unwrap_or_default()).to_string()
    }
    pub fn list(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(&self.0)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect())
            .unwrap_or_default();
        v.sort();
        v
    }
    /// the whole content, for "is anything different" comparisons
    pub fn copy_to(&self, o: &Scratch) {
        for f in self.list() {
            if self.p(&f).is_file() {
                std::fs::copy(self.p(&f), o.p(&f)).expect("copy");
            }
        }
    }
}
pub struct RunOut {
    pub exit: Option<i32>,
    pub signal: Option<i32>,
    pub status: u32,
    pub note: String,
    pub result: Option<Value>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub head: Box<rt::ShmHead>,
    pub timed_out: bool,
}
impl RunOut {
    pub fn count(&self, op: i32, label: &str) -> u64 {
        self.lab(label).map(|l| self.head.opcount[op as usize][l]).unwrap_or(0)
    }
    pub fn bytes(&self, op: i32, label: &str) -> u64 {
        self.lab(label).map(|l| self.head.opbytes[op as usize][l]).unwrap_or(0)
    }
    fn lab(&self, label: &str) -> Option<usize> {
        self.labels().iter().position(|x| x == label)
    }
    pub fn labels(&self) -> Vec<String> {
        (0..self.head.nlabel as usize)
            .map(|i| {
                let l = &self.head.label[i];
                let n = l.iter().position(|x| *x == 0).unwrap_or(l.len());
                String::from_utf8_lossy(&l[..n]).to_string()
            })
            .collect()
    }
    pub fn crashed(&self) -> bool {
        self.status == 4
    }
    pub fn stuck(&self) -> Option<&'static str> {
        match self.status {
            2 => Some("deadlock"),
            3 => Some("no-progress"),
            _ if self.timed_out => Some("no-progress"),
            _ => None,
        }
    }
    pub fn fired(&self, k: i32) -> u64 {
        self.head.fault_fired[k as usize]
    }
    pub fn fired_any(&self) -> u64 {
        self.head.fault_fired.iter().sum()
    }
    pub fn err_text(&self) -> String {
        let s = String::from_utf8_lossy(&self.stderr).to_string();
        s.chars().rev().take(400).collect::<String>().chars().rev().collect()
    }
    pub fn panicked(&self) -> bool {
        self.exit == Some(101) || self.result.as_ref().map_or(false, |r| r["panic"].is_string())
    }
    pub fn exit_desc(&self) -> String {
        match (self.exit, self.signal) {
            (Some(c), _) => format!("exit {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
}

fn read_head(f: &mut std::fs::File) -> Option<Box<rt::ShmHead>> {
    let n = std::mem::size_of::<rt::ShmHead>();
    unsafe {
        let mut b: Box<rt::ShmHead> = Box::new(std::mem::zeroed());
        let sl = std::slice::from_raw_parts_mut(&mut *b as *mut _ as *mut u8, n);
        f.read_exact(sl).ok()?;
        Some(b)
    }
}

extern "C" {
    fn personality(p: std::os::raw::c_ulong) -> std::os::raw::c_int;
}

impl<'a> Ctx<'a> {
    pub fn new(g: &'a Global) -> Self {
        Ctx { g, hashes: Default::default(), last_dec: Default::default(), trace: Default::default() }
    }
    pub fn scratch(&self) -> Scratch {
        let id = self.g.counter.fetch_add(1, Ordering::SeqCst);
        let p = self.g.work.join(format!("s{id}"));
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    /// One simulated run: a child process executing real code under the simulator.
    pub fn run(&self, job: &Job, dir: &Scratch) -> Result<RunOut, String> {
        let id = self.g.counter.fetch_add(1, Ordering::SeqCst);
        let meta = Scratch(self.g.work.join(format!("m{id}")));
        std::fs::create_dir_all(&meta.0).map_err(|e| e.to_string())?;
        meta.write("job.json", serde_json::to_vec(job).unwrap());
        let shm = meta.p("shm");
        let so = std::fs::File::create(meta.p("stdout")).map_err(|e| e.to_string())?;
        let se = std::fs::File::create(meta.p("stderr")).map_err(|e| e.to_string())?;
        let mut c = Command::new(&self.g.exe);
        c.args(&job.argv)
            .env_clear()
            .env("VSIM_JOB", meta.p("job.json"))
            .env("VSIM_SHM", &shm)
            .env("VSIM_RES", meta.p("result.json"))
            .env("VSIM_DIR", &dir.0)
            .env("VSIM_COV", self.g.work.join("cov"))
            .env("RAYON_NUM_THREADS", job.sim.workers.to_string())
            .current_dir(&dir.0)
            .stdin(Stdio::null())
            .stdout(so)
            .stderr(se);
        unsafe {
            c.pre_exec(|| {
                personality(0x0040000); // no address randomisation
                Ok(())
            });
        }
        let mut ch = c.spawn().map_err(|e| format!("spawn: {e}"))?;
        let t0 = Instant::now();
        let mut timed_out = false;
        let mut nap = 200u64;
        let st = loop {
            match ch.try_wait().map_err(|e| e.to_string())? {
                Some(s) => break s,
                None => {
                    if t0.elapsed() > Duration::from_secs(120) {
                        timed_out = true;
                        let _ = ch.kill();
                    }
                    std::thread::sleep(Duration::from_micros(nap));
                    nap = (nap * 5 / 4).min(4000);
                }
            }
        };
        let mut f = std::fs::File::open(&shm).map_err(|_| {
            format!("run left no log ({:?}): {}", st, String::from_utf8_lossy(&std::fs::read(meta.p("stderr")).unwrap_or_default()))
        })?;
        let head = read_head(&mut f).ok_or("short log")?;
        let evn = std::mem::size_of::<rt::Ev>();
        {
            // decisions
            let off = std::mem::size_of::<rt::ShmHead>() + evn * rt::MAXEV;
            use std::os::unix::fs::FileExt;
            let n = head.ndec as usize;
            let mut b = vec![0u8; n * 16];
            f.read_exact_at(&mut b, off as u64).map_err(|e| e.to_string())?;
            *self.last_dec.borrow_mut() = b
                .chunks(16)
                .map(|c| {
                    let a = u64::from_le_bytes(c[0..8].try_into().unwrap());
                    let t = i32::from_le_bytes(c[8..12].try_into().unwrap());
                    let x = i32::from_le_bytes(c[12..16].try_into().unwrap());
                    let a = if a >> 63 == 1 { -((a & !(1 << 63)) as i64) - 1 } else { a as i64 };
                    (a, t, x)
                })
                .collect();
            if let Some(tr) = self.trace.borrow_mut().as_mut() {
                let ne = (head.nev as usize).min(400);
                let mut b = vec![0u8; ne * evn];
                f.read_exact_at(&mut b, std::mem::size_of::<rt::ShmHead>() as u64).map_err(|e| e.to_string())?;
                let mut evs = vec![];
                for c in b.chunks(evn) {
                    let e: rt::Ev = unsafe { std::ptr::read_unaligned(c.as_ptr() as *const rt::Ev) };
                    let lab = {
                        let l = &head.label[(e.label.max(0) as usize).min(rt::MAXLABEL - 1)];
                        let n = l.iter().position(|x| *x == 0).unwrap_or(l.len());
                        String::from_utf8_lossy(&l[..n]).to_string()
                    };
                    evs.push(match e.kind {
                        1 => format!("step {} t{} -> t{}", e.step, e.tid, e.arg),
                        2 => format!("step {} t{} {} {} ({}) = {}", e.step, e.tid, rt::op::name(e.op), lab, e.arg, e.res),
                        3 => format!("step {} t{} FAULT {} on {} {}", e.step, e.tid, rt::fk::NAMES.get(e.arg as usize).unwrap_or(&"?"), rt::op::name(e.op), lab),
                        4 => format!("step {} thread {} {}", e.step, e.arg, if e.op == 1 { "started" } else { "ended" }),
                        _ => format!("step {} ev {}", e.step, e.kind),
                    });
                }
                tr.push(json!({"scenario": job.scenario, "argv": job.argv, "faults": job.sim.faults, "events": evs}));
            }
        }
        let note = {
            let n = head.note.iter().position(|x| *x == 0).unwrap_or(512);
            String::from_utf8_lossy(&head.note[..n]).to_string()
        };
        if head.status == 5 {
            return Err(format!("simulator: {note}"));
        }
        let result = meta.read("result.json").and_then(|b| serde_json::from_slice(&b).ok());
        {
            let mut s = self.g.stats.lock().unwrap();
            s.runs += 1;
            s.steps += head.steps;
            s.max_steps = s.max_steps.max(head.steps);
            s.vtime_ns += head.vtime_ns;
            s.switches += head.switches;
            s.preemptions += head.preemptions;
            s.threads += head.threads;
            for (i, n) in head.fault_fired.iter().enumerate() {
                if *n > 0 && i < rt::fk::NAMES.len() {
                    *s.faults.entry(rt::fk::NAMES[i].to_string()).or_default() += n;
                }
            }
            for o in head.opcount.iter() {
                s.ops += o.iter().sum::<u64>();
            }
            if head.switches > 0 {
                s.scheds.insert(head.sched_hash);
            }
            s.execs.insert(mix(head.event_hash ^ mix(head.steps)));
        }
        self.hashes.borrow_mut().push(mix(head.event_hash ^ mix(head.sched_hash ^ mix(head.steps))));
        Ok(RunOut {
            exit: st.code(),
            signal: st.signal(),
            status: head.status,
            note,
            result,
            stdout: meta.read("stdout").unwrap_or_default(),
            stderr: meta.read("stderr").unwrap_or_default(),
            head,
            timed_out,
        })
    }
    /// Runs a library scenario; its JSON result is mandatory unless the run was crashed/stuck.
    pub fn lib(&self, scenario: &str, args: Value, sim: SimCfg, dir: &Scratch) -> Result<RunOut, String> {
        self.run(&Job { scenario: scenario.into(), args, sim, argv: vec![] }, dir)
    }
    pub fn cli(&self, tool: &str, argv: &[&str], sim: SimCfg, dir: &Scratch) -> Result<RunOut, String> {
        self.run(
            &Job { scenario: format!("cli:{tool}"), args: Value::Null, sim, argv: argv.iter().map(|s| s.to_string()).collect() },
            dir,
        )
    }
}

// ------------------------------------------------------------------ shrinking
fn candidates(v: &Value, out: &mut Vec<Value>, wrap: &dyn Fn(Value) -> Value, depth: usize) {
    match v {
        Value::Array(a) => {
            let n = a.len();
            if n > 0 {
                let mut size = n;
                while size >= 1 {
                    let mut i = 0;
                    while i < n {
                        let mut b = a.clone();
                        b.drain(i..(i + size).min(n));
                        out.push(wrap(Value::Array(b)));
                        i += size;
                    }
                    if size == 1 || n > 200 && size < n / 16 {
                        break;
                    }
                    size = (size + 1) / 2;
                }
            }
            if n <= 24 && depth < 8 {
                for i in 0..n {
                    let w = |x: Value| {
                        let mut b = a.clone();
                        b[i] = x;
                        wrap(Value::Array(b))
                    };
                    candidates(&a[i], out, &w, depth + 1);
                }
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                if k.starts_with('_') {
                    continue;
                }
                let w = |y: Value| {
                    let mut b = o.clone();
                    b.insert(k.clone(), y);
                    wrap(Value::Object(b))
                };
                candidates(x, out, &w, depth + 1);
            }
        }
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                for c in [0, 1, i / 2, i - 1] {
                    if c >= 0 && c < i {
                        out.push(wrap(json!(c)));
                    }
                }
            }
        }
        Value::Bool(true) => out.push(wrap(json!(false))),
        _ => {}
    }
}

/// Evaluates a case. An operation of the code under test that fails or dies where it never may is a violation;
/// anything else that goes wrong is an error of the machinery.
fn eval(p: &Prop, ctx: &Ctx, c: &Value) -> Result<CaseOut, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.check)(ctx, c))) {
        Ok(Err(e)) if e.starts_with("scenario: ") || e.starts_with("no result: ") => {
            let mut o = CaseOut { signature: "operation failed".into(), ..CaseOut::default() };
            o.v(if e.starts_with('s') { "operation-failed" } else { "operation-died" }, e);
            Ok(o)
        }
        Ok(r) => r,
        Err(e) => Err(format!("harness panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}

fn still(g: &Global, p: &Prop, c: &Value, key: &str) -> Option<Viol> {
    let ctx = Ctx::new(g);
    match eval(p, &ctx, c) {
        Ok(o) => o.violations.into_iter().find(|v| v.key == key),
        _ => None,
    }
}

fn size_of(v: &Value) -> usize {
    serde_json::to_string(v).map(|s| s.len()).unwrap_or(0)
}

fn shrink(g: &Global, p: &Prop, case: &Value, key: &str, budget: Duration) -> (Value, u64) {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut tried = 0u64;
    let nt = 8usize;
    'outer: loop {
        let mut cands = vec![];
        candidates(&best, &mut cands, &|x| x, 0);
        cands.retain(|c| c != &best);
        cands.sort_by_key(size_of);
        let mut i = 0;
        while i < cands.len() {
            if t0.elapsed() > budget {
                break 'outer;
            }
            let chunk = &cands[i..(i + nt).min(cands.len())];
            let res: Vec<bool> = std::thread::scope(|s| {
                let hs: Vec<_> = chunk.iter().map(|c| s.spawn(move || still(g, p, c, key).is_some())).collect();
                hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
            });
            tried += chunk.len() as u64;
            if let Some(k) = res.iter().position(|x| *x) {
                best = chunk[k].clone();
                continue 'outer;
            }
            i += nt;
        }
        break;
    }
    // schedule: replace the seeded schedule by the shortest explicit decision list
    if best.get("sched").is_some() && best["sched"]["strategy"] != json!(0) && t0.elapsed() < budget {
        let ctx = Ctx::new(g);
        if let Ok(_) = eval(p, &ctx, &best) {
            let dec = ctx.last_dec.borrow().clone();
            let mk = |d: &[(i64, i32, i32)]| {
                let mut c = best.clone();
                c["sched"]["explicit"] = json!(d);
                c
            };
            if dec.len() < 20000 && still(g, p, &mk(&dec), key).is_some() {
                let mut cur = dec;
                let mut chunk = cur.len().max(1);
                while chunk >= 1 && t0.elapsed() < budget {
                    let mut i = 0;
                    let mut any = false;
                    while i < cur.len() && t0.elapsed() < budget {
                        let mut t = cur.clone();
                        t.drain(i..(i + chunk).min(cur.len()));
                        tried += 1;
                        if still(g, p, &mk(&t), key).is_some() {
                            cur = t;
                            any = true;
                        } else {
                            i += chunk;
                        }
                    }
                    if chunk == 1 && !any {
                        break;
                    }
                    if !any || chunk > 1 {
                        chunk = if chunk == 1 { 1 } else { (chunk + 1) / 2 };
                    }
                }
                best = mk(&cur);
            }
        }
    }
    (best, tried)
}

// ------------------------------------------------------------------ search
pub fn known_findings(verif: &Path, id: &str) -> Vec<(String, String)> {
    // lines: finding: property=<id> key=<key> <text>
    let s = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.trim();
            let r = l.strip_prefix(&format!("finding: property={id} key="))?;
            let (k, t) = r.split_once(' ').unwrap_or((r, ""));
            Some((k.to_string(), t.to_string()))
        })
        .collect()
}

pub fn workdir() -> PathBuf {
    let base = if std::fs::write(format!("/dev/shm/.vsim{}", std::process::id()), b"x").is_ok() {
        let _ = std::fs::remove_file(format!("/dev/shm/.vsim{}", std::process::id()));
        PathBuf::from("/dev/shm")
    } else {
        let p = PathBuf::from("/verif/.work");
        let _ = std::fs::create_dir_all(&p);
        p
    };
    let p = base.join(format!("vsim-{}", std::process::id()));
    std::fs::create_dir_all(&p).expect("work dir");
    p
}
pub fn global() -> Global {
    Global {
        exe: std::env::current_exe().unwrap(),
        work: workdir(),
        stats: Default::default(),
        counter: AtomicU64::new(0),
    }
}
impl Drop for Global {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.work);
    }
}

pub fn case_rng(seed: u64, id: &str, i: u64) -> Rng {
    let mut h = 0u64;
    for b in id.bytes() {
        h = mix(h ^ b as u64);
    }
    Rng::new(mix(seed) ^ mix(h) ^ mix(i.wrapping_mul(0x1234567)))
}

pub fn check_property(p: &Prop, tier: Tier, seed: u64, verif: &Path) -> i32 {
    let t0 = Instant::now();
    let g = global();
    let known = known_findings(verif, p.id);
    let total = std::env::var("VSIM_CASES").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    });
    let cap = Duration::from_secs(std::env::var("VSIM_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 300,
        Tier::Thorough => 6 * 3600,
    }));
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let found: Mutex<Vec<(u64, Value, Viol)>> = Default::default();
    let errs: Mutex<Vec<String>> = Default::default();
    let sigs: Mutex<HashSet<String>> = Default::default();
    let samples: Mutex<Vec<Value>> = Default::default();
    let kf: Mutex<BTreeMap<String, u64>> = Default::default();
    let redo: Mutex<(u64, u64)> = Mutex::new((0, 0)); // replays done, replays identical
    let nthreads: usize = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    std::thread::scope(|s| {
        for _ in 0..nthreads {
            s.spawn(|| loop {
                if stop.load(Ordering::SeqCst) || t0.elapsed() > cap {
                    break;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= total {
                    break;
                }
                let case = (p.gen)(&mut case_rng(seed, p.id, i), i, tier);
                let ctx = Ctx::new(&g);
                let r = eval(p, &ctx, &case);
                match r {
                    Err(e) => {
                        errs.lock().unwrap().push(format!("case {i}: {e}"));
                        if errs.lock().unwrap().len() > 20 {
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    Ok(o) => {
                        evals.fetch_add(1, Ordering::SeqCst);
                        {
                            let mut st = g.stats.lock().unwrap();
                            for (k, n) in &o.counters {
                                *st.counters.entry(k.clone()).or_default() += n;
                            }
                        }
                        if o.nontrivial {
                            sigs.lock().unwrap().insert(o.signature.clone());
                        }
                        if i % 97 == 3 {
                            let mut sm = samples.lock().unwrap();
                            if sm.len() < 4 && size_of(&case) < 6000 {
                                sm.push(json!({"index": i, "case": case, "signature": o.signature}));
                            }
                        }
                        for v in o.violations {
                            if let Some(k) = known.iter().find(|k| k.0 == v.key) {
                                *kf.lock().unwrap().entry(k.0.clone()).or_default() += 1;
                                continue;
                            }
                            found.lock().unwrap().push((i, case.clone(), v));
                            if std::env::var("VSIM_ALL").is_err() {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        // determinism self-test: some cases are executed twice
                        if i % 53 == 7 {
                            let ctx2 = Ctx::new(&g);
                            if let Ok(_) = eval(p, &ctx2, &case) {
                                let mut r = redo.lock().unwrap();
                                r.0 += 1;
                                if *ctx2.hashes.borrow() == *ctx.hashes.borrow() {
                                    r.1 += 1;
                                } else if std::env::var("VSIM_DEBUG").is_ok() {
                                    eprintln!("nondeterministic: case {i}");
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|f| f.0);
    let errs = errs.into_inner().unwrap();
    let mut code = 0;
    let mut nviol = 0u64;
    let mut unrepro = vec![];
    if std::env::var("VSIM_ALL").is_ok() {
        let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for (i, _, v) in &found {
            let e = by.entry(v.key.clone()).or_insert((0, *i, v.detail.clone()));
            e.0 += 1;
        }
        for (k, (n, i, d)) in by {
            println!("ALL key={k} n={n} first-case={i} {d}");
        }
    }
    for (i, case, v) in &found {
        // confirm before reporting
        let again = (0..3).filter(|_| still(&g, p, case, &v.key).is_some()).count();
        if again < 3 {
            unrepro.push(format!("case {i} key {} seen again {again}/3", v.key));
            continue;
        }
        nviol += 1;
        let budget = match tier {
            Tier::Quick => Duration::from_secs(40),
            Tier::Thorough => Duration::from_secs(300),
        };
        let (small, tried) = if std::env::var("VSIM_NOSHRINK").is_ok() { (case.clone(), 0) } else { shrink(&g, p, case, &v.key, budget) };
        let fin = still(&g, p, &small, &v.key).unwrap_or(v.clone());
        let ctx = Ctx::new(&g);
        *ctx.trace.borrow_mut() = Some(vec![]);
        let _ = eval(p, &ctx, &small);
        let trace = ctx.trace.borrow_mut().take().unwrap_or_default();
        let hashes: Vec<String> = ctx.hashes.borrow().iter().map(|h| format!("{h:016x}")).collect();
        let dir = verif.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}-{}.json", p.id, seed, i));
        let doc = json!({"property": p.id, "seed": seed, "case_index": i, "key": v.key, "detail": fin.detail, "case": small,
            "original_case": case, "shrink_evaluations": tried, "run_hashes": hashes, "trace": trace});
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&doc).unwrap());
        println!("violated: {} [{}]", fin.detail, v.key);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
        break;
    }
    for (k, t) in &known {
        let n = kf.lock().unwrap().get(k).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} {} (key {k}, met {n} times in this run)", p.id, t);
    }
    let wall = t0.elapsed().as_secs_f64();
    let st = g.stats.lock().unwrap();
    let cov_edges = std::fs::read(g.work.join("cov")).map(|b| b.iter().filter(|x| **x != 0).count()).unwrap_or(0);
    let evn = evals.load(Ordering::SeqCst);
    let rd = redo.lock().unwrap();
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evn,
            "distinct_nontrivial": sigs.lock().unwrap().len(),
            "rule": p.rule,
            "samples": *samples.lock().unwrap(),
            "exhaustive": false,
            "simulated_runs": st.runs,
            "cases_planned": total,
            "simulated_runs_per_hour": (st.runs as f64 / wall * 3600.0) as u64,
            "seeds_per_hour": (evn as f64 / wall * 3600.0) as u64,
            "scheduler_steps": st.steps,
            "simulated_time_s": st.vtime_ns as f64 / 1e9,
            "context_switches": st.switches,
            "preemptions": st.preemptions,
            "threads_started": st.threads,
            "io_operations_intercepted": st.ops,
            "faults_injected": st.faults,
            "distinct_interleavings": st.scheds.len(),
            "distinct_interleavings_measure": "hash of the sequence of (next thread, edges executed by both threads) over all context switches of a run",
            "distinct_executions": st.execs.len(),
            "code_edges_reached": cov_edges,
            "replays_compared": rd.0,
            "replays_identical": rd.1,
            "workload_counters": st.counters,
            "known_findings_met": *kf.lock().unwrap(),
            "unreproduced_events": unrepro,
            "harness_errors": errs.iter().take(5).collect::<Vec<_>>(),
            "components_real": p.real,
            "components_stub": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": nviol,
    });
    let ed = verif.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", p.id)), serde_json::to_vec_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{}: {} cases, {} simulated runs, {} violations, {:.1}s; faults {:?}; replays {}/{}",
        p.id, evn, st.runs, nviol, wall, st.faults, rd.1, rd.0
    );
    if !errs.is_empty() {
        for e in errs.iter().take(5) {
            eprintln!("harness error: {}", e.chars().take(400).collect::<String>());
        }
    }
    for u in &unrepro {
        eprintln!("unreproduced: {u}");
    }
    if code == 0 && (!errs.is_empty() || evn == 0) {
        code = 3;
    }
    code
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let doc: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(d) => d,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let id = doc["property"].as_str().unwrap_or("");
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let g = global();
    let ctx = Ctx::new(&g);
    *ctx.trace.borrow_mut() = Some(vec![]);
    let o = eval(p, &ctx, &doc["case"]);
    let hashes: Vec<String> = ctx.hashes.borrow().iter().map(|h| format!("{h:016x}")).collect();
    match o {
        Err(e) => {
            eprintln!("harness error: {e}");
            3
        }
        Ok(o) => {
            let same = json!(hashes) == doc["run_hashes"];
            for v in &o.violations {
                println!("violated: {} [{}]", v.detail, v.key);
            }
            println!("executions identical to the recorded ones: {same}");
            if o.violations.iter().any(|v| json!(v.key) == doc["key"]) {
                println!("VIOLATION property={id} replay={file}");
                1
            } else {
                println!("not reproduced");
                0
            }
        }
    }
}
