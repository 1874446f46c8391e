//! H01: the file helpers of oak-core and oak-testing over a simulated disk.
use crate::disk::{PATHS, content, path};
use oak_core::{
    errors::OakError,
    source::{Source, SourceText},
};
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, fs, json, sched};
use std::{
    collections::BTreeMap,
    fs::File,
    io::{Read, Write},
    path::Path,
    sync::Mutex,
};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    /// 0 text, 1 JSON, 2 open and read, 3 create and write, 4 create only, 5 another program rewrites or removes the file
    k: u32,
    p: usize,
    c: u32,
    /// The helper of oak-testing instead of oak-core's
    testing: bool,
    rel: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    initial: Vec<(usize, usize, u32)>,
    threads: Vec<Vec<Step>>,
}
/// A file that all threads read.
const COMMON: usize = PATHS.len();
fn name(t: usize, p: usize) -> String {
    if p == COMMON { "common.json".into() } else { path(t, p) }
}
fn data(c: u32) -> Vec<u8> {
    match c % 7 {
        3 => format!("{{\"a\": {c}}}{}", ["}", " x", "\n\n{}", ",", "\0", "\u{feff}"][c as usize / 7 % 6]).into_bytes(),
        4 => format!("{}[{c}]", ["\u{feff}", "//\n", "\0", "\n\t "][c as usize / 7 % 4]).into_bytes(),
        0 => format!("{{\"a\": [{c}, 1.5e3, \"é{}\", null]}}", "x".repeat(c as usize * 37 % 20000)).into_bytes(),
        1 => format!(" [{c}]\n").into_bytes(),
        2 => format!("[{c}, ").into_bytes(),
        _ => content(c),
    }
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let n = if r.chance(400) { 1 } else { r.range(2, 3) as usize };
    let mut some: Vec<usize> = (0..PATHS.len()).collect();
    r.shuffle(&mut some);
    some.truncate(r.range(1, 6) as usize);
    some.push(COMMON);
    let mut id = 0;
    let threads = (0..n)
        .map(|_| {
            (0..r.range(1, if thorough { 24 } else { 12 }))
                .map(|_| {
                    id += 1;
                    Step { k: *r.pick(&[0u32, 0, 0, 1, 1, 2, 3, 3, 3, 4, 5]), p: *r.pick(&some), c: id + 17 * r.below(3) as u32, testing: r.chance(500), rel: r.chance(300) }
                })
                .collect()
        })
        .collect();
    let mut initial = vec![(0, COMMON, r.below(60) as u32)];
    for t in 0..n {
        for p in 0..PATHS.len() {
            if r.chance(400) {
                initial.push((t, p, r.below(60) as u32))
            }
        }
    }
    let f = [
        (Fault::OpenErr, 150),
        (Fault::OpenEintr, 200),
        (Fault::ReadErr, 150),
        (Fault::ReadEintr, 400),
        (Fault::ReadShort, 700),
        (Fault::WriteErr, 200),
        (Fault::WriteEintr, 400),
        (Fault::WriteShort, 700),
        (Fault::NoSpace, 200),
        (Fault::StatErr, 150),
        (Fault::MkdirErr, 150),
        (Fault::IoDelay, 200),
    ];
    json!({"cfg": simrt::make_cfg(r, true, &f), "w": Case { initial, threads }})
}
const ROOT: &str = "/work/h";
fn all(s: SourceText) -> String {
    s.get_text_in((0..s.length()).into()).into_owned()
}
type Files = Mutex<BTreeMap<String, Vec<u8>>>;
fn worker(t: usize, steps: Vec<Step>, know: &Files) {
    for s in steps {
        let n = name(t, s.p);
        let fp = format!("{ROOT}/{n}");
        let given = if s.rel { format!("h/{n}") } else { fp.clone() };
        let given = Path::new(&given);
        let (kind, here) = (fs::kind(&fp), fs::get(&fp));
        // Everything above is a folder or not there yet.
        let parents_ok = fp.match_indices('/').skip(1).all(|(i, _)| fs::kind(&fp[..i]) != Some('f'));
        let text = here.clone().and_then(|h| String::from_utf8(h).ok());
        let from = sched::seq();
        let failed = || simrt::hard_fault_since(from);
        match s.k {
            0 => {
                let got = if s.testing { oak_testing::source_from_path(given) } else { oak_core::helpers::source_from_path(given) };
                let bad = failed();
                ev!("text of {n}: {:?}", got.as_ref().map(|s| s.length()).map_err(|e| e.to_string()));
                match (got.map(all), text) {
                    (Ok(g), w) => check!(Some(&g) == w.as_ref(), "read not exact", "{n}: got {g:?}, the file holds {w:?}"),
                    (Err(e), w) => check!(w.is_none() || bad, "read fails", "{n}: {e}, the file holds {w:?}"),
                }
            }
            1 => {
                let got = oak_testing::json_from_path(given);
                let bad = failed();
                ev!("json of {n}: {}", got.is_ok());
                let want = text.as_ref().and_then(|t| serde_json::from_str::<Value>(t).ok());
                match got {
                    Ok(g) => check!(Some(&g) == want.as_ref(), "read not exact", "{n}: got {g}, the file holds {text:?}"),
                    Err(e) => check!(want.is_none() || bad, "read fails", "{n}: {e}, the file holds {text:?}"),
                }
            }
            2 => {
                let got: Result<File, OakError> = if s.testing { oak_testing::open_file(given) } else { oak_core::helpers::open_file(given) };
                let bad = failed();
                ev!("open {n}: {}", got.is_ok());
                match got {
                    Ok(mut f) => {
                        check!(kind.is_some(), "opens nothing", "{n} does not exist, yet it was opened");
                        if kind == Some('f') {
                            let mut v = vec![];
                            let r = f.read_to_end(&mut v);
                            check!(r.is_err() && failed() || here.as_ref() == Some(&v), "read not exact", "{n}: got {v:?}, the file holds {here:?}")
                        }
                    }
                    Err(e) => check!(kind != Some('f') || bad, "open fails", "{n}: {e}"),
                }
            }
            3 | 4 if s.p != COMMON => {
                let got = if s.testing { oak_testing::create_file(given) } else { oak_core::helpers::create_file(given) };
                let bad = failed();
                let new = if s.k == 3 { data(s.c) } else { vec![] };
                let (now, is) = (fs::get(&fp), fs::kind(&fp));
                ev!("create {n}: {}", got.is_ok());
                match got {
                    Ok(mut f) => {
                        check!(now.as_ref().is_some_and(|n| n.is_empty()), "create not exact", "{n} was created and holds {now:?}");
                        let r = f.write_all(&new);
                        drop(f);
                        let end = fs::get(&fp);
                        let ok = end.as_ref() == Some(&new) || r.is_err() && failed() && end.as_ref().is_some_and(|e| new.starts_with(e));
                        check!(ok, "create not exact", "{n} holds {end:?} instead of {new:?}: {r:?}")
                    }
                    Err(e) => {
                        check!(bad || kind == Some('d') || !parents_ok, "create fails", "{n}: {e}");
                        check!(now == here && is == kind || bad && now.as_ref().is_some_and(|n| n.is_empty()), "create not exact", "{n} could not be created, and holds {now:?} instead of {here:?}");
                        simrt::probe("helpers:creation fails")
                    }
                }
                match fs::get(&fp) {
                    Some(v) => know.lock().unwrap().insert(fp, v),
                    None => know.lock().unwrap().remove(&fp),
                };
            }
            5 if s.p != COMMON => {
                // Another program replaces or removes the file between two calls.
                if kind != Some('d') && fs::kind(&fp[..fp.rfind('/').unwrap()]) == Some('d') {
                    if s.c % 4 == 0 {
                        fs::del(&fp);
                        know.lock().unwrap().remove(&fp);
                    }
                    else {
                        fs::put(&fp, &data(s.c));
                        know.lock().unwrap().insert(fp, data(s.c));
                    }
                    ev!("other program changes {n}")
                }
            }
            _ => (),
        }
    }
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    fs::mkdirs(ROOT);
    let know: &'static Files = Box::leak(Box::default());
    for (t, p, k) in &c.initial {
        let f = format!("{ROOT}/{}", name(*t, *p));
        // Paths 1 and 2 exclude each other.
        if *p == 2 && fs::kind(&f[..f.rfind('/').unwrap()]).is_some() || *p == 6 {
            continue;
        }
        fs::put(&f, &data(*k));
        know.lock().unwrap().insert(f, data(*k));
    }
    fs::put("/work/outside.txt", b"outside");
    know.lock().unwrap().insert("/work/outside.txt".into(), b"outside".to_vec());
    let ws: Vec<_> = c.threads.iter().cloned().enumerate().map(|(t, steps)| simrt::spawn(move || worker(t, steps, know))).collect();
    for w in ws {
        simrt::join(w);
    }
    let (got, want) = (fs::tree("/"), know.lock().unwrap().clone());
    for (p, v) in &want {
        check!(got.get(p) == Some(v), "other file changed", "{p} holds {:?} instead of {v:?}", got.get(p))
    }
    for p in got.keys() {
        check!(want.contains_key(p), "stray file", "{p} appeared")
    }
}
pub static HELPERS: Scenario = Scenario { name: "file-helpers", about: "Threads read and create files through the helpers while the disk fails", make, run };
