//! Deterministic simulator for the oaks crates: see /verif/DESIGN.md.
#![feature(thread_local)]
#![allow(static_mut_refs, non_upper_case_globals, unsafe_op_in_unsafe_fn)]
pub mod aio;
pub mod alloc;
pub mod decide;
pub mod fs;
pub mod interpose;
pub mod rng;
pub mod runner;
pub mod sched;
pub mod shm;
pub mod sys;

pub use decide::{Fault, choose, fault, fault_val, faults_off};
pub use rng::Rng;
pub use serde_json::{Value, json};

use std::collections::BTreeMap;

/// One workload family: `make` draws a case (never touching the code under test), `run` executes it in a simulated process.
pub struct Scenario {
    pub name: &'static str,
    pub about: &'static str,
    pub make: fn(&mut Rng, bool) -> Value,
    pub run: fn(&Value),
}
pub struct Prop {
    pub id: &'static str,
    /// (scenario, weight)
    pub scenarios: &'static [(&'static Scenario, u32)],
    pub quick_runs: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

// ---- reporting from inside a run ----
pub fn report(status: u32, class: &str, detail: &str) -> ! {
    let _g = sched::Rt::enter();
    sched::finish_stats();
    let sh = shm::get();
    let c = class.as_bytes();
    let n = c.len().min(sh.class.len());
    sh.class[..n].copy_from_slice(&c[..n]);
    sh.class_len = n as u32;
    let d = detail.as_bytes();
    let n = d.len().min(sh.detail.len());
    sh.detail[..n].copy_from_slice(&d[..n]);
    sh.detail_len = n as u32;
    sh.log_hash = rng::mix(rng::mix(sh.log_hash, sh.il_hash), rng::mix(sh.steps, sh.sim_ns));
    sh.log_hash = rng::mix(sh.log_hash, rng::hash_str(class));
    sh.status = status;
    sys::exit_now(0)
}
/// The property does not hold in this run.
pub fn violation(class: &str, detail: &str) -> ! {
    log_line(&format!("VIOLATION {class}: {detail}"));
    report(shm::ST_VIOLATION, class, detail)
}
pub fn harness_error(m: &str) -> ! {
    report(shm::ST_HARNESS, "harness", m)
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($a:tt)*) => { if !$cond { $crate::violation($class, &format!($($a)*)) } };
}
#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => { $crate::log_line(&{ let _g = $crate::sched::Rt::enter(); format!($($a)*) }) };
}
/// Append to the event log of the run.
pub fn log_line(m: &str) {
    let _g = sched::Rt::enter();
    let sh = shm::get();
    let line = format!("{:>12} t{} {}\n", sched::now().saturating_sub(1_000_000_000_000), sched::tid(), m);
    let mut h = sh.log_hash;
    for b in line.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3)
    }
    sh.log_hash = h;
    let n = sh.log_len as usize;
    if n + line.len() <= shm::LOG_CAP {
        sh.log[n..n + line.len()].copy_from_slice(line.as_bytes());
        sh.log_len += line.len() as u32
    }
}
/// Count a rare condition; `i` indexes the scenario's probe names.
pub fn probe(name: &'static str) {
    let _g = sched::Rt::enter();
    let i = probe_index(name);
    shm::get().probes[i] += 1
}
static mut PROBES: Vec<&'static str> = Vec::new();
/// Probe names are registered up front (in the parent) so that their numbers are stable.
pub fn register_probes(names: &[&'static str]) {
    unsafe {
        for n in names {
            if !PROBES.contains(n) {
                PROBES.push(n)
            }
        }
    }
}
fn probe_index(name: &str) -> usize {
    unsafe { PROBES.iter().position(|p| *p == name).unwrap_or_else(|| harness_error(&format!("probe {name} not registered"))) }
}
pub fn probe_names() -> Vec<&'static str> {
    unsafe { PROBES.clone() }
}
/// A state reached, by hash (a coverage measure for evidence).
pub fn state(h: u64) {
    let sh = shm::get();
    if (sh.state_n as usize) < sh.state.len() {
        sh.state[sh.state_n as usize] = h;
        sh.state_n += 1
    }
}

// ---- panics ----
#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub tid: i32,
    pub msg: String,
    pub loc: String,
}
static mut PANICS: Vec<PanicInfo> = Vec::new();
pub fn panics() -> Vec<PanicInfo> {
    let _g = sched::Rt::enter();
    unsafe { PANICS.clone() }
}
fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _g = sched::Rt::enter();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        }
        else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        }
        else {
            "?".into()
        };
        let loc = i
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/projects/").map(|x| x.1).or(f.rsplit_once("/library/").map(|x| x.1)).unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        if debug() {
            sys::eprint_raw(&format!("panic t{} {} at {}\n", sched::tid(), msg, loc));
            if debug_bt() {
                sys::eprint_raw(&format!("{}\n", std::backtrace::Backtrace::force_capture()));
            }
        }
        unsafe { PANICS.push(PanicInfo { tid: sched::tid(), msg, loc }) }
    }));
}
/// Run `f` in a simulated thread.
pub fn spawn<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> std::thread::JoinHandle<T> {
    std::thread::spawn(f)
}
/// Join; a panic of the thread is a violation of class `panic <where>`.
pub fn join<T>(h: std::thread::JoinHandle<T>) -> T {
    match h.join() {
        Ok(v) => v,
        Err(_) => panic_violation(),
    }
}
pub fn panic_violation() -> ! {
    let p = panics();
    let l = p.last();
    violation(&format!("panic at {}", l.map(|l| l.loc.as_str()).unwrap_or("?")), l.map(|l| l.msg.as_str()).unwrap_or("?"))
}
/// `catch_unwind` without the ceremony; Err holds the last panic.
pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(panics().last().cloned().unwrap_or(PanicInfo { tid: -1, msg: String::new(), loc: String::new() })),
    }
}

// ---- configuration of a run ----
/// Standard run configuration: scheduler mode, hash seed, CPU count, fault rates. Drawn per run ("swarm").
pub fn make_cfg(r: &mut Rng, threads: bool, faults: &[(Fault, u64)]) -> Value {
    let mut rates = BTreeMap::new();
    // A third of the runs are fault free; the others enable a random subset.
    if !faults.is_empty() && !r.chance(330) {
        for (f, max) in faults {
            if r.chance(450) {
                let top = *max;
                let v = 1 + r.below(top);
                rates.insert(f.name().to_string(), v);
            }
        }
    }
    let mode = if !threads {
        0
    }
    else {
        match r.below(10) {
            0 => 0,
            1..=5 => 1,
            _ => 2,
        }
    };
    let mean = 1u64 << r.range(2, 14);
    json!({
        "mode": mode, "mean": mean, "depth": 1 + r.below(5), "len": 1u64 << r.range(6, 18),
        "hash": r.below(1 << 48), "cpus": *r.pick(&[1u32, 2, 4, 8]), "rates": rates,
    })
}

// ---- one run ----
#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: u32,
    pub class: String,
    pub detail: String,
    pub hash: u64,
    pub decisions: Vec<(u64, u32)>,
    pub overflow: bool,
}
pub fn start_child(sc: &Scenario, case: &Value, seed: u64, play: Option<&[(u64, u32)]>) -> ! {
    let cfg = &case["cfg"];
    unsafe {
        interpose::HASH_SEED = cfg["hash"].as_u64().unwrap_or(1);
        interpose::CPUS = cfg["cpus"].as_u64().unwrap_or(4).clamp(1, 64) as u32;
        decide::RATES = [0; 48];
        if let Some(m) = cfg["rates"].as_object() {
            for (k, v) in m {
                if let Some(f) = decide::FAULTS.iter().find(|f| f.1 == k) {
                    decide::RATES[f.0 as usize] = v.as_u64().unwrap_or(0) as u32
                }
            }
        }
    }
    let c = sched::Cfg {
        mode: cfg["mode"].as_u64().unwrap_or(0) as u8,
        mean: cfg["mean"].as_u64().unwrap_or(64),
        depth: cfg["depth"].as_u64().unwrap_or(1),
        len: cfg["len"].as_u64().unwrap_or(1024),
        cap: cfg["cap"].as_u64().unwrap_or(60_000_000),
    };
    unsafe {
        PANICS = Vec::with_capacity(1024);
        libc::alarm(120);
    }
    decide::start(rng::mix(seed, 0x5ced), play);
    interpose::start();
    alloc::start();
    fs::start();
    install_hook();
    let w: &'static Value = unsafe { std::mem::transmute(&case["w"]) };
    let run = sc.run;
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            sched::enter_main(&c, seed);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(w))) {
                Ok(()) => report(shm::ST_OK, "", ""),
                Err(_) => panic_violation(),
            }
        })
        .unwrap();
    let _ = h.join();
    sys::exit_now(97)
}
/// Execute one run in a child process.
pub fn run_once(sc: &Scenario, case: &Value, seed: u64, play: Option<&[(u64, u32)]>) -> Outcome {
    shm::reset(interpose::edges());
    let _ = std::io::Write::flush(&mut std::io::stdout());
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        start_child(sc, case, seed, play);
    }
    if pid < 0 {
        return Outcome { status: shm::ST_HARNESS, class: "harness".into(), detail: "fork failed".into(), hash: 0, decisions: vec![], overflow: false };
    }
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid || std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
            break;
        }
    }
    // The child set an alarm for itself.
    let hung = libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM;
    let sh = shm::get();
    let mut o = Outcome {
        status: sh.status,
        class: String::from_utf8_lossy(&sh.class[..sh.class_len as usize]).into_owned(),
        detail: String::from_utf8_lossy(&sh.detail[..sh.detail_len as usize]).into_owned(),
        hash: sh.log_hash,
        decisions: sh.dec[..sh.ndec as usize].to_vec(),
        overflow: sh.dec_overflow != 0,
    };
    if hung {
        o.status = shm::ST_VIOLATION;
        o.class = "hang".into();
        o.detail = "the run did not end within 120 s of real time".into()
    }
    else if libc::WIFSIGNALED(st) {
        let sig = libc::WTERMSIG(st);
        if sig == libc::SIGKILL {
            o.status = shm::ST_HARNESS;
            o.class = "harness".into();
            o.detail = "child killed from outside".into()
        }
        else if sh.tolerant != 0 {
            o.status = shm::ST_OK
        }
        else {
            o.status = shm::ST_VIOLATION;
            o.class = format!("crash by signal {sig}");
            let p = sh.log_len as usize;
            let tail = String::from_utf8_lossy(&sh.log[p.saturating_sub(300)..p]).into_owned();
            o.detail = format!("the process died of signal {sig}; last events: {tail}")
        }
    }
    else if libc::WEXITSTATUS(st) != 0 {
        o.status = shm::ST_HARNESS;
        o.class = "harness".into();
        o.detail = format!("child exit status {}", libc::WEXITSTATUS(st))
    }
    else if sh.status == shm::ST_RUNNING {
        o.status = shm::ST_VIOLATION;
        o.class = "process exit".into();
        o.detail = "the code under test ended the process".into()
    }
    o.decisions.sort();
    o
}
pub fn log_text() -> String {
    let sh = shm::get();
    String::from_utf8_lossy(&sh.log[..sh.log_len as usize]).into_owned()
}
static mut DEBUG: u8 = 0;
pub fn debug() -> bool {
    unsafe { DEBUG > 0 }
}
pub fn debug_bt() -> bool {
    unsafe { DEBUG > 1 }
}
pub fn init_debug() {
    unsafe { DEBUG = std::env::var_os("SIM_STDERR").is_some() as u8 + std::env::var_os("SIM_BT").is_some() as u8 }
}
/// Spawn workers that may be killed by a simulated crash of the process; returns whether one happened.
/// The caller's thread plays the supervisor that goes on afterwards.
pub fn run_process(workers: Vec<Box<dyn FnOnce() + Send>>) -> bool {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let done: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    let n = workers.len();
    fs::fs().crash_to = Some(sched::tid() as usize);
    for f in workers {
        let h = std::thread::spawn(move || {
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
                panic_violation()
            }
            done.fetch_add(1, Ordering::SeqCst);
            sched::wake_wait(done as *const _ as usize)
        });
        std::mem::forget(h)
    }
    let mut crashed = false;
    while done.load(Ordering::SeqCst) < n {
        if sched::take_crash() {
            crashed = true;
            break;
        }
        sched::wait_on(done as *const _ as usize, None);
    }
    crashed |= sched::take_crash();
    fs::fs().crash_to = None;
    crashed
}
/// Did an injected fault fail a call of this thread since event number `from`?
/// The paths at which file system calls of the running thread failed since `from`.
pub fn failed_paths_since(from: u64) -> Vec<String> {
    let me = sched::tid();
    let _g = sched::Rt::enter();
    fs::fs().log.iter().rev().take_while(|e| e.seq >= from).filter(|e| e.hard && e.tid == me).map(|e| e.path.clone()).collect()
}
pub fn hard_fault_since(from: u64) -> bool {
    let me = sched::tid();
    let _g = sched::Rt::enter();
    fs::fs().log.iter().rev().take_while(|e| e.seq >= from).any(|e| e.hard && e.tid == me)
}
