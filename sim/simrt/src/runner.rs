//! Search, minimisation, replay and evidence.
use crate::{Outcome, Prop, Rng, Scenario, Value, decide, interpose, json, log_text, probe_names, rng, run_once, shm, sys};
use std::{
    collections::{BTreeMap, HashSet},
    io::{Read, Write},
    os::fd::FromRawFd,
};

pub fn seed_of(master: u64, sc: &str, i: u64) -> u64 {
    rng::mix(rng::mix(master, rng::hash_str(sc)), i)
}
/// Re-execute with address-space randomisation off.
pub fn no_aslr() {
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("OAKSIM_REEXEC").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let exe = std::env::current_exe().unwrap();
                let e = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("OAKSIM_REEXEC", "1").exec();
                eprintln!("re-exec failed: {e}");
            }
        }
    }
}
fn cpus() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1)
}
fn pin_to(i: usize) {
    unsafe {
        let mut have: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, size_of::<libc::cpu_set_t>(), &mut have) != 0 {
            return;
        }
        let list: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &have)).collect();
        if list.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(list[i % list.len()], &mut one);
        libc::sched_setaffinity(0, size_of::<libc::cpu_set_t>(), &one);
    }
}
#[derive(Default)]
struct Sum {
    runs: u64,
    violations: u64,
    steps: u64,
    /// The most steps a run took.
    longest: u64,
    switches: u64,
    preempts: u64,
    sim_ns: u128,
    threads: u64,
    faulty_runs: u64,
    faults: Vec<u64>,
    probes: Vec<u64>,
    il: HashSet<u64>,
    states: HashSet<u64>,
    cov: Vec<u8>,
    per_sc: BTreeMap<String, u64>,
    samples: Vec<Value>,
    harness: Vec<String>,
}
fn plan(p: &Prop) -> Vec<usize> {
    let mut v = vec![];
    let max = p.scenarios.iter().map(|s| s.1).max().unwrap_or(1);
    for k in 0..max {
        for (i, s) in p.scenarios.iter().enumerate() {
            // Spread the turns of a scenario evenly.
            if (k as u64 * s.1 as u64 / max as u64) != ((k as u64 + 1) * s.1 as u64 / max as u64) {
                v.push(i)
            }
        }
    }
    v
}
fn case_for(p: &Prop, pl: &[usize], master: u64, i: u64, thorough: bool) -> (&'static Scenario, Value, u64) {
    let sc = p.scenarios[pl[(i % pl.len() as u64) as usize]].0;
    let seed = seed_of(master, sc.name, i);
    let mut r = Rng::new(rng::mix(seed, 0xca5e));
    (sc, (sc.make)(&mut r, thorough), seed)
}
struct Found {
    i: u64,
    out: Outcome,
}
fn worker(p: &Prop, w: usize, n: usize, runs: u64, deadline: u64, master: u64, thorough: bool, stop: *mut u64, known: &[Known], out: i32) {
    shm::map();
    if std::env::var_os("OAKSIM_NOPIN").is_none() {
        pin_to(w);
    }
    let ncov = interpose::edges().min(shm::COV_CAP);
    let mut s = Sum { faults: vec![0; shm::MAX_FAULT], probes: vec![0; shm::MAX_PROBE], cov: vec![0; ncov], ..Default::default() };
    let pl = plan(p);
    let mut found: Vec<Found> = vec![];
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut i = w as u64;
    while i < runs && sys::real_now_ns() < deadline && unsafe { i < std::ptr::read_volatile(stop) } {
        let (sc, case, seed) = case_for(p, &pl, master, i, thorough);
        let o = run_once(sc, &case, seed, None);
        let sh = shm::get();
        s.runs += 1;
        *s.per_sc.entry(sc.name.into()).or_default() += 1;
        s.steps += sh.steps;
        s.longest = s.longest.max(sh.steps);
        s.switches += sh.switches;
        s.preempts += sh.preempts;
        s.sim_ns += sh.sim_ns as u128;
        s.threads += sh.threads as u64;
        let mut f = false;
        for k in 0..shm::MAX_FAULT {
            s.faults[k] += sh.faults[k] as u64;
            f |= sh.faults[k] != 0 && k != decide::Fault::Choice as usize
        }
        s.faulty_runs += f as u64;
        for k in 0..shm::MAX_PROBE {
            s.probes[k] += sh.probes[k] as u64
        }
        s.il.insert(rng::mix(rng::mix(sh.il_hash, o.hash), rng::hash_str(sc.name)));
        for h in &sh.state[..sh.state_n as usize] {
            if s.states.len() < 400_000 {
                s.states.insert(*h);
            }
        }
        for (a, b) in s.cov.iter_mut().zip(&sh.cov[..ncov]) {
            *a |= *b
        }
        if s.samples.len() < 2 {
            let t = log_text();
            let tail: Vec<&str> = t.lines().take(12).collect();
            s.samples.push(json!({"scenario": sc.name, "seed": seed, "case": case, "first_events": tail, "decisions": o.decisions.len()}));
        }
        match o.status {
            shm::ST_OK => {}
            shm::ST_VIOLATION => {
                if let Some(k) = known.iter().position(|k| k.matches(p.id, sc.name, &o)) {
                    *known_hits.entry(k).or_default() += 1;
                }
                else {
                    s.violations += 1;
                    if found.is_empty() {
                        found.push(Found { i, out: o });
                        unsafe {
                            // Others stop beyond this index.
                            if i < std::ptr::read_volatile(stop) {
                                std::ptr::write_volatile(stop, i)
                            }
                        }
                    }
                    break;
                }
            }
            _ => {
                s.harness.push(format!("{} seed {}: {}", sc.name, seed, o.detail));
                if s.harness.len() > 3 {
                    break;
                }
            }
        }
        i += n as u64;
    }
    let cov: Vec<usize> = s.cov.iter().enumerate().filter(|c| *c.1 != 0).map(|c| c.0).collect();
    let v = json!({
        "runs": s.runs, "violations": s.violations, "steps": s.steps, "longest": s.longest, "switches": s.switches, "preempts": s.preempts, "sim_ms": (s.sim_ns / 1_000_000) as u64,
        "threads": s.threads, "faulty": s.faulty_runs, "faults": s.faults, "probes": s.probes, "il": s.il.iter().collect::<Vec<_>>(),
        "states": s.states.iter().collect::<Vec<_>>(), "cov": cov, "per_sc": s.per_sc, "samples": s.samples, "harness": s.harness,
        "known": known_hits.iter().map(|k| (k.0.to_string(), *k.1)).collect::<BTreeMap<_, _>>(),
        "found": found.iter().map(|f| json!({"i": f.i, "class": f.out.class, "detail": f.out.detail})).collect::<Vec<_>>(),
    });
    let mut f = unsafe { std::fs::File::from_raw_fd(out) };
    let _ = f.write_all(v.to_string().as_bytes());
}
/// An entry of known-findings.txt.
#[derive(Debug, Clone)]
pub struct Known {
    pub property: String,
    pub scenario: String,
    pub class: String,
    pub detail: String,
    pub replay: String,
    pub what: String,
}
impl Known {
    fn matches(&self, p: &str, sc: &str, o: &Outcome) -> bool {
        self.property == p && self.scenario == sc && self.class == o.class && !self.detail.is_empty() && parts(&self.detail, &o.detail)
    }
}
/// Whether the parts of `pattern` between asterisks occur in `text`, in this order.
fn parts(pattern: &str, text: &str) -> bool {
    let mut t = text;
    pattern.split('*').all(|p| {
        let k = t.find(p);
        t = &t[k.map_or(0, |k| k + p.len())..];
        k.is_some()
    })
}
/// Lines `known: {json}`; every other line is prose or a `fixed:` record, which suppresses nothing.
pub fn read_known(dir: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{dir}/known-findings.txt"))
    else { return vec![] };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .map(|l| {
            let v: Value = serde_json::from_str(l).expect("known-findings.txt");
            let s = |k: &str| v[k].as_str().unwrap_or("").to_string();
            Known { property: s("property"), scenario: s("scenario"), class: s("class"), detail: s("detail"), replay: s("replay"), what: s("what") }
        })
        .collect()
}
pub struct Replay {
    pub property: String,
    pub sc: &'static Scenario,
    pub seed: u64,
    pub case: Value,
    pub dec: Vec<(u64, u32)>,
    pub class: String,
    pub hash: u64,
}
fn dec_json(d: &[(u64, u32)]) -> Value {
    Value::Array(
        d.iter()
            .map(|(k, v)| {
                let (c, t, n) = decide::unkey(*k);
                json!([c, t, n, v, decide::class_name(c)])
            })
            .collect(),
    )
}
pub fn read_replay(props: &[Prop], path: &str) -> Result<Replay, String> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
    let v: Value = serde_json::from_str(&t).map_err(|e| format!("{path}: {e}"))?;
    let name = v["scenario"].as_str().unwrap_or("");
    let sc = props.iter().flat_map(|p| p.scenarios).find(|s| s.0.name == name).ok_or(format!("{path}: no scenario {name}"))?.0;
    let mut dec: Vec<(u64, u32)> = v["decisions"].as_array().map(|a| a.iter().map(|d| (decide::key(d[0].as_u64().unwrap() as u8, d[1].as_u64().unwrap() as usize, d[2].as_u64().unwrap()), d[3].as_u64().unwrap() as u32)).collect()).unwrap_or_default();
    dec.sort();
    Ok(Replay {
        property: v["property"].as_str().unwrap_or("").into(),
        sc,
        seed: v["seed"].as_u64().unwrap_or(0),
        case: v["case"].clone(),
        dec,
        class: v["violation"].as_str().unwrap_or("").into(),
        hash: v["log_hash"].as_str().and_then(|s| u64::from_str_radix(s, 16).ok()).unwrap_or(0),
    })
}
fn write_replay(path: &str, prop: &str, sc: &Scenario, seed: u64, case: &Value, o: &Outcome, dec: &[(u64, u32)], found_at: u64, orig: usize) {
    let v = json!({
        "property": prop, "scenario": sc.name, "about": sc.about, "seed": seed, "found_at_run": found_at, "violation": o.class, "detail": o.detail,
        "log_hash": format!("{:016x}", o.hash), "decisions_before_minimisation": orig, "case": case, "decisions": dec_json(dec),
        "events": log_text().lines().map(|l| l.to_string()).collect::<Vec<_>>(),
    });
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let _ = std::fs::write(path, serde_json::to_string_pretty(&v).unwrap());
}

// ---- minimisation ----
struct Min<'a> {
    sc: &'a Scenario,
    seed: u64,
    class: String,
    deadline: u64,
    tries: u32,
}
impl Min<'_> {
    fn ok(&mut self, case: &Value, dec: &[(u64, u32)]) -> bool {
        if sys::real_now_ns() > self.deadline {
            return false;
        }
        self.tries += 1;
        let o = run_once(self.sc, case, self.seed, Some(dec));
        o.status == shm::ST_VIOLATION && o.class == self.class
    }
    fn ddmin(&mut self, case: &Value, dec: &mut Vec<(u64, u32)>) {
        if !dec.is_empty() && self.ok(case, &[]) {
            dec.clear();
            return;
        }
        let mut n = 2;
        while dec.len() >= 1 && sys::real_now_ns() < self.deadline {
            let size = dec.len().div_ceil(n);
            let mut cut = false;
            let mut a = 0;
            while a < dec.len() {
                let b = (a + size).min(dec.len());
                let mut d = dec.clone();
                d.drain(a..b);
                if self.ok(case, &d) {
                    *dec = d;
                    cut = true;
                }
                else {
                    a = b
                }
            }
            if size == 1 {
                if !cut {
                    break;
                }
            }
            else {
                n = (n * 2).min(dec.len().max(1));
            }
        }
    }
    fn shrink_case(&mut self, case: &mut Value, dec: &[(u64, u32)]) -> bool {
        let mut any = false;
        let mut paths = vec![];
        collect(&case["w"], &mut vec!["w".into()], &mut paths);
        for path in paths {
            loop {
                if sys::real_now_ns() > self.deadline {
                    return any;
                }
                let ptr = format!("/{}", path.join("/"));
                let Some(cur) = case.pointer(&ptr).cloned()
                else { break };
                let mut hit = false;
                for cand in smaller(&cur) {
                    let mut c = case.clone();
                    *c.pointer_mut(&ptr).unwrap() = cand;
                    if self.ok(&c, dec) {
                        *case = c;
                        hit = true;
                        any = true;
                        break;
                    }
                }
                if !hit {
                    break;
                }
            }
        }
        any
    }
}
fn collect(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Array(a) => {
            out.push(at.clone());
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                collect(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.replace('~', "~0").replace('/', "~1"));
                collect(x, at, out);
                at.pop();
            }
        }
        Value::Number(_) | Value::String(_) | Value::Bool(true) => out.push(at.clone()),
        _ => {}
    }
}
fn smaller(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Array(a) if !a.is_empty() => {
            let n = a.len();
            if n > 2 {
                out.push(Value::Array(a[n / 2..].to_vec()));
                out.push(Value::Array(a[..n / 2].to_vec()));
            }
            for i in (0..n).rev() {
                let mut b = a.clone();
                b.remove(i);
                out.push(Value::Array(b))
            }
        }
        Value::Number(n) => {
            if let Some(n) = n.as_u64() {
                if n > 0 {
                    out.push(json!(0));
                    if n > 1 {
                        out.push(json!(n / 2));
                        out.push(json!(n - 1))
                    }
                }
            }
        }
        Value::String(s) if !s.is_empty() => {
            let c: Vec<char> = s.chars().collect();
            let n = c.len();
            if n > 2 {
                out.push(json!(c[n / 2..].iter().collect::<String>()));
                out.push(json!(c[..n / 2].iter().collect::<String>()));
            }
            if n <= 40 {
                for i in (0..n).rev() {
                    let mut d = c.clone();
                    d.remove(i);
                    out.push(json!(d.iter().collect::<String>()))
                }
            }
        }
        Value::Bool(true) => out.push(json!(false)),
        _ => {}
    }
    out
}
pub fn minimise(sc: &Scenario, seed: u64, case: &Value, dec: &[(u64, u32)], class: &str, secs: u64) -> (Value, Vec<(u64, u32)>, u32) {
    let mut m = Min { sc, seed, class: class.into(), deadline: sys::real_now_ns() + secs * 1_000_000_000, tries: 0 };
    let mut case = case.clone();
    let mut dec = dec.to_vec();
    m.ddmin(&case, &mut dec);
    for _ in 0..4 {
        if !m.shrink_case(&mut case, &dec) {
            break;
        }
        m.ddmin(&case, &mut dec);
    }
    (case, dec, m.tries)
}

// ---- commands ----
fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
fn env_u64(k: &str) -> Option<u64> {
    std::env::var(k).ok()?.parse().ok()
}
pub fn main(props: &[Prop], probes: &[&'static str]) -> i32 {
    no_aslr();
    // Whether std's stdout and stderr are set up already must not differ between runs.
    let _ = (std::io::Write::write(&mut std::io::stdout(), b""), std::io::Write::flush(&mut std::io::stdout()), std::io::Write::write(&mut std::io::stderr(), b""));
    crate::init_debug();
    unsafe { std::env::remove_var("OAKSIM_REEXEC") };
    crate::register_probes(probes);
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(props, &a[2]),
        Some("replay") => replay(props, &a[2]),
        Some("determinism") => determinism(props),
        Some("one") => one(props, &a[2]),
        Some("hashes") => hashes(props, &a[2]),
        Some("list") => {
            for p in props {
                println!("{}: {}", p.id, p.scenarios.iter().map(|s| s.0.name).collect::<Vec<_>>().join(" "))
            }
            0
        }
        _ => {
            eprintln!("oaksim check PROP | replay FILE | determinism | one SCENARIO [--seed N] [--run I] | list");
            2
        }
    }
}
fn one(props: &[Prop], name: &str) -> i32 {
    shm::map();
    let sc = props.iter().flat_map(|p| p.scenarios).find(|s| s.0.name == name).expect("scenario").0;
    let master = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let from: u64 = arg("--run").and_then(|s| s.parse().ok()).unwrap_or(0);
    let n: u64 = arg("--n").and_then(|s| s.parse().ok()).unwrap_or(1);
    let quiet = arg("--quiet").is_some();
    let mut classes: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let t0 = sys::real_now_ns();
    let mut steps = 0;
    for i in from..from + n {
        let seed = seed_of(master, sc.name, i);
        let case = (sc.make)(&mut Rng::new(rng::mix(seed, 0xca5e)), false);
        let o = run_once(sc, &case, seed, None);
        steps += shm::get().steps;
        if n == 1 && !quiet {
            println!("case: {case}\n{}", log_text());
            println!("decisions: {} steps {} switches {} preempts {} sim {} ms", o.decisions.len(), shm::get().steps, shm::get().switches, shm::get().preempts, shm::get().sim_ns / 1_000_000);
            let (l1, il, st) = (log_text(), shm::get().il_hash, shm::get().steps);
            let b = run_once(sc, &case, seed, Some(&o.decisions));
            if b.hash != o.hash {
                let l2 = log_text();
                println!("steps {st} {} il {il} {}", shm::get().steps, shm::get().il_hash);
                for (x, y) in l1.lines().zip(l2.lines()).filter(|p| p.0 != p.1).take(3) {
                    println!("- {x}\n+ {y}");
                }
                for (a, b) in o.decisions.iter().zip(&b.decisions).filter(|p| p.0 != p.1).take(5) {
                    println!("{:?} {} / {:?} {}", decide::unkey(a.0), a.1, decide::unkey(b.0), b.1)
                }
                println!("{} {} decisions", o.decisions.len(), b.decisions.len());
            }
            println!("replay identical: {} ({} {})", b.hash == o.hash, b.class, o.class);
        }
        let k = format!("{} {}", o.status, o.class);
        let e = classes.entry(k).or_insert((0, i, o.detail.clone()));
        e.0 += 1;
    }
    println!("{:.0} runs/s, {} steps/run", n as f64 * 1e9 / (sys::real_now_ns() - t0) as f64, steps / n);
    for (k, v) in classes {
        println!("{k}: {} (first run {}): {}", v.0, v.1, v.2.chars().take(600).collect::<String>())
    }
    0
}
/// Event-log hashes of some runs: compared between processes by the determinism self-test.
fn hashes(props: &[Prop], name: &str) -> i32 {
    shm::map();
    let p = props.iter().find(|p| p.id == name).expect("property");
    let from: u64 = arg("--from").unwrap().parse().unwrap();
    let n: u64 = arg("--n").unwrap().parse().unwrap();
    let step: u64 = arg("--step").unwrap().parse().unwrap();
    let master = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let pl = plan(p);
    let mut i = from;
    while i < n {
        let (sc, case, seed) = case_for(p, &pl, master, i, false);
        let o = run_once(sc, &case, seed, None);
        let r = run_once(sc, &case, seed, Some(&o.decisions));
        println!("{} {} {:016x} {:016x} {}", i, sc.name, o.hash, if o.overflow { o.hash } else { r.hash }, o.class);
        i += step
    }
    0
}
/// Run many seeds in several processes, at different worker counts, and compare every event log.
fn determinism(props: &[Prop]) -> i32 {
    let n: u64 = arg("--n").and_then(|s| s.parse().ok()).unwrap_or(200);
    let only = arg("--prop");
    let exe = std::env::current_exe().unwrap();
    let mut bad = 0;
    for p in props {
        if only.as_ref().is_some_and(|o| o != p.id) {
            continue;
        }
        let mut all: Vec<BTreeMap<u64, String>> = vec![];
        for workers in [1u64, 3, 8] {
            let kids: Vec<_> = (0..workers)
                .map(|w| std::process::Command::new(&exe).args(["hashes", p.id, "--from", &w.to_string(), "--n", &n.to_string(), "--step", &workers.to_string()]).stdout(std::process::Stdio::piped()).spawn().unwrap())
                .collect();
            let mut m = BTreeMap::new();
            for k in kids {
                let o = k.wait_with_output().unwrap();
                for l in String::from_utf8_lossy(&o.stdout).lines() {
                    let f: Vec<&str> = l.split(' ').collect();
                    if f[2] != f[3] {
                        println!("{}: run {} differs from its own replay: {l}", p.id, f[0]);
                        bad += 1
                    }
                    m.insert(f[0].parse().unwrap(), l.to_string());
                }
            }
            all.push(m);
        }
        let mut diff = 0;
        for m in &all[1..] {
            for (k, v) in &all[0] {
                if m.get(k) != Some(v) {
                    diff += 1;
                    if diff < 4 {
                        println!("{}: {v} / {:?}", p.id, m.get(k))
                    }
                }
            }
        }
        println!("{}: {} runs x 3 worker counts, each also replayed: {} differences", p.id, all[0].len(), diff);
        bad += diff
    }
    (bad > 0) as i32
}
fn replay(props: &[Prop], path: &str) -> i32 {
    shm::map();
    let r = match read_replay(props, path) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let o = run_once(r.sc, &r.case, r.seed, Some(&r.dec));
    if arg("--quiet").is_none() {
        print!("{}", log_text());
    }
    println!("result: {} {} {}", o.status, o.class, o.detail);
    let same = o.status == shm::ST_VIOLATION && o.class == r.class;
    println!("same violation: {same}; identical event log: {}", o.hash == r.hash);
    if same { 1 } else { 0 }
}
fn check(props: &[Prop], id: &str) -> i32 {
    let t0 = sys::real_now_ns();
    let dir = arg("--dir").unwrap_or("/verif".into());
    let tier = arg("--tier").unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let master = env_u64("VERIF_SEED").unwrap_or(1);
    println!("property {id} tier {tier} VERIF_SEED {master}");
    let Some(p) = props.iter().find(|p| p.id == id)
    else {
        eprintln!("no property {id}");
        return 2;
    };
    let wall = arg("--wall").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 150u64 });
    let runs = arg("--runs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { p.quick_runs * 60 } else { p.quick_runs });
    let build_s = std::env::var("OAKSIM_BUILD_S").ok().and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
    let known = read_known(&dir);
    shm::map();

    // 1. Stored cases: known findings and past failures.
    let mut known_seen = vec![];
    for k in known.iter().filter(|k| k.property == id) {
        match read_replay(props, &format!("{dir}/{}", k.replay)) {
            Ok(r) => {
                let o = run_once(r.sc, &r.case, r.seed, Some(&r.dec));
                if o.status == shm::ST_VIOLATION && o.class == k.class {
                    println!("KNOWN-FINDING: property={id} {}", k.what);
                    known_seen.push(k.what.clone());
                }
                else {
                    println!("note: the known finding \"{}\" does not show up any more ({} {})", k.what, o.class, o.detail)
                }
            }
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        }
    }
    let mut corpus = 0u64;
    let mut hit: Option<(&'static Scenario, u64, Value, Outcome, u64)> = None;
    let mut files: Vec<_> = std::fs::read_dir(format!("{dir}/corpus/{id}")).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        match read_replay(props, f.to_str().unwrap()) {
            Ok(r) => {
                corpus += 1;
                let o = run_once(r.sc, &r.case, r.seed, Some(&r.dec));
                if o.status == shm::ST_VIOLATION && hit.is_none() {
                    hit = Some((r.sc, r.seed, r.case, o, 0))
                }
                else if o.status == shm::ST_HARNESS {
                    eprintln!("{}: {}", f.display(), o.detail);
                    return 2;
                }
            }
            Err(e) => {
                eprintln!("{e}");
                return 2;
            }
        }
    }

    // 2. Search.
    let n = arg("--jobs").and_then(|s| s.parse().ok()).unwrap_or(cpus());
    let stop = unsafe { sys::raw6(libc::SYS_mmap, 0, 4096, (libc::PROT_READ | libc::PROT_WRITE) as i64, (libc::MAP_SHARED | libc::MAP_ANONYMOUS) as i64, -1, 0) } as *mut u64;
    unsafe { *stop = if hit.is_some() { 0 } else { u64::MAX } };
    let t1 = sys::real_now_ns();
    let deadline = t1 + wall * 1_000_000_000;
    let mut pipes = vec![];
    let mut pids = vec![];
    for w in 0..n {
        let mut fd = [0; 2];
        unsafe { libc::pipe(fd.as_mut_ptr()) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::close(fd[0]) };
            worker(p, w, n, runs, deadline, master, thorough, stop, &known, fd[1]);
            sys::exit_now(0);
        }
        unsafe { libc::close(fd[1]) };
        pids.push(pid);
        pipes.push(fd[0]);
    }
    let mut sums = vec![];
    for fd in pipes {
        let mut t = String::new();
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        let _ = f.read_to_string(&mut t);
        match serde_json::from_str::<Value>(&t) {
            Ok(v) => sums.push(v),
            Err(e) => {
                eprintln!("a worker ended without a report: {e}");
                return 2;
            }
        }
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let search_s = (sys::real_now_ns() - t1) as f64 / 1e9;
    let add = |k: &str| sums.iter().map(|s| s[k].as_u64().unwrap_or(0)).sum::<u64>();
    let longest = sums.iter().filter_map(|s| s["longest"].as_u64()).max().unwrap_or(0);
    let set = |k: &str| sums.iter().flat_map(|s| s[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap())).collect::<HashSet<u64>>();
    let (il, states, cov) = (set("il"), set("states"), set("cov"));
    let vec_sum = |k: &str| {
        let mut v = vec![0u64; 256];
        for s in &sums {
            for (i, x) in s[k].as_array().unwrap().iter().enumerate() {
                v[i] += x.as_u64().unwrap()
            }
        }
        v
    };
    let fv = vec_sum("faults");
    let mut faults = BTreeMap::new();
    for f in decide::FAULTS {
        if fv[f.0 as usize] > 0 && f.1 != "choice" {
            faults.insert(f.1, fv[f.0 as usize]);
        }
    }
    let pv = vec_sum("probes");
    // The probes are global; list those this property's scenarios could reach by name prefix.
    let probes: BTreeMap<&str, u64> = probe_names().into_iter().enumerate().filter(|(i, n)| pv[*i] > 0 || p.scenarios.iter().any(|s| n.split_once(':').is_some_and(|x| x.0 == s.0.name))).map(|(i, n)| (n, pv[i])).collect();
    let mut per_sc: BTreeMap<String, u64> = BTreeMap::new();
    for s in &sums {
        for (k, v) in s["per_sc"].as_object().unwrap() {
            *per_sc.entry(k.clone()).or_default() += v.as_u64().unwrap()
        }
    }
    let mut harness: Vec<String> = sums.iter().flat_map(|s| s["harness"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string())).collect();
    let done = add("runs");
    for k in &known_seen {
        let _ = k;
    }
    let pl = plan(p);
    if hit.is_none() {
        let mut f: Vec<(u64, String)> = sums.iter().flat_map(|s| s["found"].as_array().unwrap().iter().map(|x| (x["i"].as_u64().unwrap(), x["class"].as_str().unwrap().to_string()))).collect();
        f.sort();
        if let Some((i, _)) = f.first() {
            let (sc, case, seed) = case_for(p, &pl, master, *i, thorough);
            // The same run again, here: a violation must not depend on which process executed it.
            let mut o = run_once(sc, &case, seed, None);
            for _ in 0..2 {
                if o.status == shm::ST_VIOLATION {
                    break;
                }
                o = run_once(sc, &case, seed, None);
            }
            if o.status == shm::ST_VIOLATION { hit = Some((sc, seed, case, o, *i)) } else { harness.push(format!("run {i} of {} did not reproduce", sc.name)) }
        }
    }
    let mut code = 0;
    if let Some((sc, seed, case, o, i)) = &hit {
        println!("violation: {} ({}), run {i}, seed {seed}, {} decisions; minimising", o.class, o.detail.chars().take(500).collect::<String>(), o.decisions.len());
        let secs = if thorough { 180 } else { 60 };
        let (mc, md, tries) = minimise(sc, *seed, case, &o.decisions, &o.class, secs);
        let m = run_once(sc, &mc, *seed, Some(&md));
        let path = format!("{dir}/replays/{id}-{:016x}.json", rng::mix(*seed, m.hash));
        let ok = m.status == shm::ST_VIOLATION && m.class == o.class;
        if ok {
            write_replay(&path, id, sc, *seed, &mc, &m, &md, *i, o.decisions.len());
        }
        else {
            let m = run_once(sc, case, *seed, Some(&o.decisions));
            write_replay(&path, id, sc, *seed, case, if m.status == shm::ST_VIOLATION { &m } else { o }, &o.decisions, *i, o.decisions.len());
        }
        // Fresh process.
        let exe = std::env::current_exe().unwrap();
        let again = std::process::Command::new(exe).args(["replay", &path, "--quiet", "1"]).output().map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default();
        println!("minimised in {tries} runs to {} decisions, case {}", md.len(), mc["w"].to_string().chars().take(1500).collect::<String>());
        println!("fresh-process replay: {}", again.lines().last().unwrap_or("?"));
        println!("VIOLATION property={id} replay={path}");
        code = 1;
    }
    else if !harness.is_empty() {
        for h in &harness {
            eprintln!("harness error: {h}")
        }
        code = 2;
    }
    let samples: Vec<&Value> = sums.iter().flat_map(|s| s["samples"].as_array().unwrap()).take(4).collect();
    let ev = json!({
        "property": id, "tier": tier, "seed": master, "level": "exploration",
        "coverage": {
            "evaluations": done + corpus,
            "distinct_nontrivial": il.len(),
            "rule": p.rule,
            "samples": samples,
            "runs_per_scenario": per_sc,
            "stored_cases_replayed": corpus,
            "runs_with_a_fault": add("faulty"),
            "simulated_runs_per_hour": (done as f64 / search_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (done as f64 / search_s.max(0.001) * 3600.0) as u64,
            "simulated_seconds": add("sim_ms") as f64 / 1000.0,
            "scheduling_points": add("steps"), "longest_run_scheduling_points": longest, "context_switches": add("switches"), "forced_preemptions": add("preempts"), "threads_simulated": add("threads"),
            "faults_injected": faults,
            "distinct_states": states.len(),
            "distinct_interleavings_measure": "distinct (event log, sequence of (from thread, to thread, basic block) switches) hashes; counted in distinct_nontrivial",
            "basic_block_edges_reached": cov.len(), "basic_block_edges_total": interpose::edges(),
            "probes": probes,
            "probes_never_hit": probe_names().into_iter().enumerate().filter(|(i, n)| pv[*i] == 0 && p.scenarios.iter().any(|s| n.split_once(':').is_some_and(|x| x.0 == s.0.name))).map(|x| x.1).collect::<Vec<_>>(),
            "real_code": p.real, "stubs": p.stub,
            "known_findings_seen": known_seen,
            "search_s": search_s, "build_s": build_s, "workers": n,
        },
        "assumptions": p.assumptions,
        "wall_s": (sys::real_now_ns() - t0) as f64 / 1e9 + build_s as f64,
        "violations": add("violations").max(code.min(1) as u64 * (hit.is_some() as u64)),
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(format!("{dir}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{done} runs in {search_s:.1} s, {} distinct, {} preemptions, faults {:?}, edges {}, longest {longest} steps", il.len(), add("preempts"), faults, cov.len());
    println!("probes {:?}", probes);
    code
}
