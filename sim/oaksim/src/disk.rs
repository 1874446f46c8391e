//! V03: the disk file system over a simulated disk.
use oak_core::{
    Arc,
    source::{Source, SourceText},
};
use oak_vfs::{DiskVfs, FileType, Vfs, WritableVfs};
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, fs, json, sched};
use std::{
    collections::BTreeMap,
    path::PathBuf,
    sync::{Mutex, atomic::AtomicUsize, atomic::Ordering},
};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    /// 0 write, 1 remove, 2 source, 3 exists, 4 metadata, 5 read_dir, 6 kind, 7 line map, 8 ids, 9 another program rewrites the file, 10 the root
    k: u32,
    p: usize,
    c: u32,
    abs: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    /// Files that exist at the start: (owner, path, content)
    initial: Vec<(usize, usize, u32)>,
    threads: Vec<Vec<Step>>,
    rel_root: bool,
    crash: bool,
    /// Use one DiskVfs per thread instead of a shared one.
    own_vfs: bool,
    /// Per thread, where its link points: 0 none, 1 its first file, 2 nowhere, 3 its directory
    links: Vec<u32>,
    /// Files in the directory of the first thread besides
    many: usize,
}
/// Paths of a thread; `{}` is the thread number. "d{}/x" and "d{}/x/y" conflict on purpose.
pub const PATHS: [&str; 16] = [
    "f{}.rs",
    "d{}/x",
    "d{}/x/y",
    "shared/s{}.txt",
    "shared/deep/er/t{}",
    "é {}%20.md",
    "d{}",
    "d{}/.hidden",
    "F{}.RS",
    "f{}.rs~",
    "d{}/z#q?r.rs",
    ".conf{}/a b",
    "d{}/back\\slash",
    "f{}.rs.tmp",
    "n{}/1/2/3/4/5/6/7/8/9/10/11/12/13/14/15/16/17/18/19/20/leaf",
    "d{}/Straße",
];
/// A symbolic link of a thread, to its first file, to nothing or to its directory.
const LINK: usize = PATHS.len();
pub fn path(t: usize, p: usize) -> String {
    if p == LINK {
        return format!("d{t}/link")
    }
    PATHS[p % PATHS.len()].replace("{}", &t.to_string())
}
pub fn content(c: u32) -> Vec<u8> {
    match c % 17 {
        0 => vec![],
        // Not UTF-8: cut in the middle of a character, or a lone byte.
        1 => b"abc \xc3".to_vec(),
        2 => [b"x".repeat(c as usize), b"\xff".to_vec(), b"tail".to_vec()].concat(),
        3 => format!("{c} {}", "long é\n".repeat(900 + c as usize)).into_bytes(),
        4 => format!("{c}\r\nline\rtwo\n\n").into_bytes(),
        5 => format!("{c}{}", "y".repeat(31)).into_bytes(),
        6 => format!("\u{feff}bom {c}\r\n").into_bytes(),
        7 => format!("nul \0 {c} \u{2028}\x1a").into_bytes(),
        8 => format!(" \n\n {c}\t  \n ").into_bytes(),
        9 => b"always the same".to_vec(),
        10 if c % 3 == 0 => format!("{c}{}", "0123456789é\n".repeat(6000 + c as usize)).into_bytes(),
        11 => b"\n".to_vec(),
        _ => format!("content {c}\n{}", "é".repeat(c as usize % 40)).into_bytes(),
    }
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let n = if r.chance(400) { 1 } else { r.range(2, 3) as usize };
    let mut threads = vec![];
    let mut id = 0;
    let mut some: Vec<usize> = (0..PATHS.len()).collect();
    if r.chance(600) {
        r.shuffle(&mut some)
    }
    some.truncate(r.range(1, 7) as usize);
    let links: Vec<u32> = (0..n).map(|_| if r.chance(800) { 0 } else { r.range(1, 3) as u32 }).collect();
    if links.iter().any(|l| *l > 0) {
        some.extend([LINK, 0])
    }
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..r.range(1, if thorough { 24 } else { 12 }) {
            id += 1;
            v.push(Step { k: *r.pick(&[0u32, 0, 0, 0, 1, 2, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10]), p: *r.pick(&some), c: id + 17 * r.below(3) as u32, abs: r.chance(300) })
        }
        threads.push(v)
    }
    let mut initial = vec![];
    for t in 0..n {
        for p in 0..PATHS.len() {
            if r.chance(if p < 6 { 350 } else { 120 }) && !(p == 2 && initial.contains(&(t, 1, 0))) {
                initial.push((t, p, r.below(40) as u32))
            }
        }
    }
    let crash = r.chance(200);
    let mut f = vec![
        (Fault::OpenErr, 150),
        (Fault::OpenEintr, 200),
        (Fault::ReadErr, 150),
        (Fault::ReadEintr, 400),
        (Fault::ReadShort, 700),
        (Fault::WriteErr, 200),
        (Fault::WriteEintr, 400),
        (Fault::WriteShort, 700),
        (Fault::NoSpace, 200),
        (Fault::StatErr, 150),
        (Fault::DirErr, 150),
        (Fault::MkdirErr, 150),
        (Fault::AcquireErr, 150),
        (Fault::IoDelay, 200),
        (Fault::ClockFwd, 50),
        (Fault::ClockBack, 50),
    ];
    if crash {
        f.push((Fault::Crash, 60))
    }
    let c = Case { initial, threads, rel_root: r.chance(300), crash, own_vfs: r.chance(300), links, many: if r.chance(20) { r.range(40, 400) as usize } else { 0 } };
    json!({"cfg": simrt::make_cfg(r, true, &f), "w": c})
}
/// What a thread knows about its own files: the possible contents (None: absent).
#[derive(Clone, Debug)]
enum May {
    Exactly(Option<Vec<u8>>),
    /// Interrupted or failed write over `old`: old, absent if it was, or any prefix of the new contents.
    Torn { old: Option<Vec<u8>>, new: Vec<u8> },
    /// Failed or interrupted removal.
    Maybe(Vec<u8>),
}
impl May {
    fn allows(&self, got: &Option<Vec<u8>>) -> bool {
        match self {
            May::Exactly(x) => x == got,
            May::Torn { old, new } => got == old || got.as_ref().is_some_and(|g| new.starts_with(g)),
            May::Maybe(x) => got.is_none() || got.as_ref() == Some(x),
        }
    }
}
fn root() -> &'static str {
    "/work/ws"
}
fn full(p: &str) -> String {
    format!("{}/{p}", root())
}
fn secs(path: &str) -> Option<u64> {
    fs::mtime(path).map(|n| n / 1_000_000_000)
}
static mut INFLIGHT: Vec<(String, May)> = vec![];
#[allow(static_mut_refs)]
fn worker(t: usize, steps: Vec<Step>, v: &DiskVfs, rel: bool, know: &Mutex<BTreeMap<String, May>>) {
    for s in steps {
        let rp = path(t, s.p);
        let fp = full(&rp);
        let uri = if s.abs { fp.clone() } else { rp.clone() };
        let here = fs::get(&fp);
        let kind = fs::kind(&fp);
        // What a link leads to
        let name = fp.clone();
        let link = s.p == LINK && fs::link(&fp).is_some();
        let fp = if link && matches!(s.k, 0 | 9) { fs::link(&fp).unwrap() } else { fp };
        if link {
            simrt::probe("vfs-disk:symbolic link")
        }
        let from = sched::seq();
        // The thread owns the path, so nobody else changes it during the call.
        let failed = || simrt::hard_fault_since(from);
        match s.k {
            0 => {
                let Ok(text) = String::from_utf8(content(s.c))
                else { continue };
                unsafe { INFLIGHT[t] = (fp.clone(), May::Torn { old: here.clone(), new: text.clone().into_bytes() }) }
                let parents_ok = {
                    // A file stands where a directory is needed?
                    let mut q = fp.clone();
                    let mut ok = true;
                    while let Some(i) = q.rfind('/') {
                        q.truncate(i);
                        if fs::kind(&q) == Some('f') {
                            ok = false
                        }
                    }
                    ok
                };
                v.write_file(&uri, Arc::from(text.as_str()));
                let bad = failed();
                let now = fs::get(&fp);
                ev!("write {uri} ({} bytes){}", text.len(), if bad { " under faults" } else { "" });
                let m = if kind == Some('d') || !parents_ok {
                    May::Exactly(here)
                }
                else if bad {
                    simrt::probe("vfs-disk:write under a failing disk");
                    May::Torn { old: here, new: text.into_bytes() }
                }
                else {
                    May::Exactly(Some(text.into_bytes()))
                };
                check!(m.allows(&now), "write not exact", "after writing {uri}: the file holds {:?}, allowed {:?}", now.map(|n| String::from_utf8_lossy(&n).into_owned()), m);
                know.lock().unwrap().insert(fp, May::Exactly(now));
                unsafe { INFLIGHT[t].0.clear() }
            }
            1 => {
                if !link {
                    unsafe { INFLIGHT[t] = (fp.clone(), here.clone().map(May::Maybe).unwrap_or(May::Exactly(None))) }
                }
                let first = fs::get(&full(&path(t, 0)));
                v.remove_file(&uri);
                let bad = failed();
                ev!("remove {uri}{}", if bad { " under faults" } else { "" });
                if link {
                    // The link goes, what it leads to stays.
                    check!(bad || fs::link(&name).is_none(), "remove not exact", "after removing the link {uri} it is still there");
                    let target = fs::get(&full(&path(t, 0)));
                    check!(target == first, "remove not exact", "removing a link changed the file it leads to from {first:?} to {target:?}");
                    unsafe { INFLIGHT[t].0.clear() }
                    continue;
                }
                let now = fs::get(&fp);
                if bad {
                    check!(now == here || now.is_none(), "remove not exact", "after removing {uri}: {now:?}")
                }
                else {
                    check!(now.is_none(), "remove not exact", "after removing {uri} the file is still there")
                }
                check!((kind == Some('d')) == (fs::kind(&fp) == Some('d')), "remove not exact", "removing {uri} as a file changed a directory");
                know.lock().unwrap().insert(fp, May::Exactly(now));
                unsafe { INFLIGHT[t].0.clear() }
            }
            2 | 7 => {
                let (got, lines) = if s.k == 2 {
                    let src = v.get_source(&uri);
                    (src.map(|s| s.get_text_in((0..s.length()).into()).into_owned()), None)
                }
                else {
                    let m = v.line_map(&uri);
                    (None, m)
                };
                let bad = failed();
                ev!("source {uri}: {:?} {:?}{}", got.as_ref().map(|g| g.len()), lines.as_ref().map(|m| m.line_count()), if bad { " under faults" } else { "" });
                let want = here.and_then(|h| String::from_utf8(h).ok());
                if bad {
                    simrt::probe("vfs-disk:read under a failing disk");
                }
                if s.k == 2 {
                    check!(got == want || bad && got.is_none(), "read not exact", "{uri}: got {got:?}, the file holds {want:?}, faults: {bad}");
                }
                else {
                    match (lines, want) {
                        (None, want) => check!(want.is_none() || bad, "read not exact", "{uri}: no line map, the file holds {want:?}"),
                        (Some(m), Some(w)) => {
                            let wrong = crate::lines::wrong(&m, &w, &SourceText::new(w.as_str()));
                            check!(wrong.is_none(), "line map not exact", "{uri}: {} in the line map of {w:?}", wrong.unwrap())
                        }
                        (Some(m), None) => simrt::violation("read not exact", &format!("{uri} is no text, yet {m:?}")),
                    }
                }
            }
            3 => {
                let got = v.exists(&uri);
                let bad = failed();
                ev!("exists {uri}: {got}");
                check!(got == kind.is_some() || bad && !got, "existence wrong", "{uri}: {got}, on disk: {kind:?}");
            }
            4 => {
                let got = v.metadata(&uri);
                let bad = failed();
                ev!("metadata {uri}: {got:?}");
                match (&got, kind) {
                    (None, None) => {}
                    (None, _) => check!(bad, "metadata wrong", "{uri}: nothing, on disk: {kind:?}"),
                    (Some(m), Some(k)) => {
                        check!(m.file_type == if k == 'd' { FileType::Directory } else { FileType::File }, "metadata wrong", "{uri}: {m:?} is {k}");
                        if k == 'f' {
                            check!(m.len == here.as_ref().unwrap().len() as u64, "metadata wrong", "{uri}: {m:?}, {} bytes on disk", here.as_ref().unwrap().len());
                            check!(m.modified == secs(&fp), "metadata wrong", "{uri}: {m:?}, modified {:?}", secs(&fp));
                        }
                    }
                    (Some(m), None) => simrt::violation("metadata wrong", &format!("{uri} does not exist, yet {m:?}")),
                }
            }
            5 => {
                // A directory only this thread changes: d{t} (or its own file: None).
                let dir = format!("d{t}");
                let fdir = full(&dir);
                let du = if s.abs { fdir.clone() } else { dir.clone() };
                let want = fs::list(&fdir);
                let got = v.read_dir(&du);
                let bad = failed();
                ev!("list {du}: {got:?}");
                match (&got, &want) {
                    (None, None) => {}
                    (None, Some(_)) => check!(bad, "listing wrong", "{du}: nothing, on disk {want:?}"),
                    (Some(g), None) => simrt::violation("listing wrong", &format!("{du} is no directory, yet {g:?}")),
                    (Some(g), Some(w)) => {
                        let mut names: Vec<String> = g.iter().map(|u| u.rsplit('/').next().unwrap().to_string()).collect();
                        names.sort();
                        let mut u = names.clone();
                        u.dedup();
                        check!(names == *w || bad && u.len() == names.len() && names.iter().all(|n| w.contains(n)), "listing wrong", "{du}: {names:?}, on disk {w:?}");
                        // Every entry is a URI of this file system for that very file.
                        for e in g {
                            let f2 = sched::seq();
                            let ok = v.metadata(e);
                            let name = e.rsplit('/').next().unwrap();
                            let kind = fs::kind(&format!("{fdir}/{name}"));
                            check!(ok.as_ref().map(|m| m.file_type == FileType::File) == kind.map(|k| k == 'f') || simrt::hard_fault_since(f2), "listing not usable", "{du} lists {e}, which names nothing");
                        }
                    }
                }
            }
            6 => {
                let (f, d) = (v.is_file(&uri), v.is_dir(&uri));
                let bad = failed();
                ev!("kind {uri}: {f} {d}");
                check!((f, d) == (kind == Some('f'), kind == Some('d')) || bad && !(f && kind != Some('f')) && !(d && kind != Some('d')), "kind wrong", "{uri}: file {f}, directory {d}, on disk {kind:?}");
            }
            8 => {
                // An id, where one is given out, leads back to the file.
                if let Some(id) = v.get_id(&uri) {
                    check!(v.get_uri(id).as_deref() == Some(&*uri), "id wrong", "id {id} of {uri} leads to {:?}", v.get_uri(id));
                }
            }
            10 => {
                let u = if s.abs { root() } else { "" };
                let (e, d, f) = (v.exists(u), v.is_dir(u), v.is_file(u));
                let bad = failed();
                ev!("root {u:?}: {e} {d} {f}");
                check!(!f && (e && d || bad), "kind wrong", "the root {u:?}: exists {e}, directory {d}, file {f}");
            }
            _ => {
                // Another program replaces or removes the file between two calls.
                if kind != Some('d') && fs::kind(&fp[..fp.rfind('/').unwrap()]) == Some('d') {
                    let old = here.clone();
                    unsafe { INFLIGHT[t] = (fp.clone(), if s.c % 4 == 0 { old.map(May::Maybe).unwrap_or(May::Exactly(None)) } else { May::Torn { old, new: content(s.c) } }) }
                    if s.c % 4 == 0 {
                        fs::del(&fp);
                        know.lock().unwrap().insert(fp, May::Exactly(None));
                    }
                    else {
                        fs::put(&fp, &content(s.c));
                        know.lock().unwrap().insert(fp, May::Exactly(Some(content(s.c))));
                    }
                    ev!("other program changes {rp}");
                    unsafe { INFLIGHT[t].0.clear() }
                }
            }
        }
    }
    let _ = rel;
}
#[allow(static_mut_refs)]
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    fs::mkdirs(root());
    let know: &'static Mutex<BTreeMap<String, May>> = Box::leak(Box::default());
    for (t, p, k) in &c.initial {
        let f = full(&path(*t, *p));
        // Paths 1 and 2 exclude each other.
        if *p == 2 && fs::kind(&full(&path(*t, 1))).is_some() || *p == 6 {
            continue;
        }
        fs::put(&f, &content(*k));
        know.lock().unwrap().insert(f, May::Exactly(Some(content(*k))));
    }
    fs::put("/work/outside.txt", b"outside");
    for k in 0..c.many {
        let f = full(&format!("d0/many {k}"));
        if fs::kind(&full("d0")) != Some('f') {
            fs::put(&f, b"m");
            know.lock().unwrap().insert(f, May::Exactly(Some(b"m".to_vec())));
        }
    }
    for (t, l) in c.links.iter().enumerate() {
        if *l > 0 && fs::kind(&full(&format!("d{t}"))) != Some('f') {
            fs::mkdirs(&full(&format!("d{t}")));
            fs::put_link(&full(&path(t, LINK)), &[full(&path(t, 0)), full(&format!("gone{t}")), full(&format!("d{t}"))][*l as usize - 1])
        }
    }
    let new = |rel: bool| DiskVfs::new(PathBuf::from(if rel { "ws" } else { root() }));
    unsafe { INFLIGHT = vec![(String::new(), May::Exactly(None)); c.threads.len()] }
    let shared: &'static DiskVfs = Box::leak(Box::new(new(c.rel_root)));
    let rel = c.rel_root;
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    let mut ws: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, steps) in c.threads.iter().cloned().enumerate() {
        let own = c.own_vfs;
        ws.push(Box::new(move || {
            LIVE.fetch_add(1, Ordering::SeqCst);
            if own {
                let v = DiskVfs::new(PathBuf::from(if rel { "ws" } else { root() }));
                worker(t, steps, &v, rel, know)
            }
            else {
                worker(t, steps, shared, rel, know)
            }
        }))
    }
    let crashed = simrt::run_process(ws);
    simrt::faults_off();
    sched::quiet(true);
    let mut m = match know.try_lock() {
        Ok(k) => k.clone(),
        // A thread died inside the harness's own lock.
        Err(_) => return,
    };
    if crashed {
        simrt::probe("vfs-disk:crash");
        for (p, may) in unsafe { INFLIGHT.clone() } {
            if !p.is_empty() {
                m.insert(p, may);
            }
        }
    }
    // After a restart: every file as last written; only files with an unfinished call may differ.
    let tree = fs::tree("/");
    let v = new(false);
    for (p, got) in &tree {
        if p == "/work/outside.txt" {
            check!(got == b"outside", "foreign file changed", "{p}");
            continue;
        }
        check!(m.contains_key(p), "stray file", "{p} appeared");
    }
    for (p, may) in &m {
        let got = tree.get(p).cloned();
        check!(may.allows(&got), "wrong contents in the end", "{p}: {:?}, allowed {may:?}", got.map(|g| String::from_utf8_lossy(&g).into_owned()));
        let src = v.get_source(p).map(|s| s.get_text_in((0..s.length()).into()).into_owned().into_bytes());
        let want = tree.get(p).cloned().filter(|g| std::str::from_utf8(g).is_ok());
        check!(src == want, "read not exact", "{p} after the faults ended");
    }
    let _ = c.crash;
}
pub static DISK: Scenario = Scenario { name: "vfs-disk", about: "caller threads use the disk file system while the disk fails, delays, and the process dies", make, run };
