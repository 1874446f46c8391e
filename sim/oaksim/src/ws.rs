//! W01, R01, R02: workspace folders, workspace symbols, import resolution under concurrent use.
use crate::lin::{self, Op};
use oak_lsp::{WorkspaceManager, types::InitializeParams};
use oak_resolver::{GlobalSymbolTable, ModuleResolver, StandardResolver};
use oak_symbols::SymbolInformation;
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, fs, json, sched};
use std::{
    collections::{BTreeMap, BTreeSet},
    path::PathBuf,
    sync::Mutex,
};

fn parse<T: serde::de::DeserializeOwned>(w: &Value) -> T {
    serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()))
}
type Hist<I, O> = Mutex<Vec<Op<I, O>>>;
fn record<I: std::fmt::Debug, O: std::fmt::Debug>(h: &Hist<I, O>, tid: usize, i: I, f: impl FnOnce() -> O) {
    let inv = sched::seq();
    let o = f();
    let ret = sched::seq();
    ev!("{inv} {i:?} -> {o:?}");
    h.lock().unwrap().push(Op { tid, inv, ret, i, o })
}

// ---- W01 ----
const FOLDERS: [&str; 16] = ["file:///a", "file:///a/b", "file:///a/b/c", "file:///ab", "file:///x%20y", "file:///a/b/", "file:///d/%C3%A9", "file:///", "file:///%61/", "file:///%78%20%79", "file:///x%20y/k", "file:///%64%2F%C3%A9", "file:///A", "file:///a/b?v#x", "file://localhost/ab", "file:///a/./x/../b"];
const FILES: [&str; 19] = ["file:///a/f.rs", "file:///a/b/g.rs", "file:///a/b/c/h", "file:///a/bc/i", "file:///ab/j", "file:///x%20y/k", "file:///d/%C3%A9/l", "file:///z", "untitled:none", "file:///x%20y/k/m", "file:///a/b%25", "file:///a/b%3Fc/d", "file:///a/b", "file:///A/F.rs", "file:///a/b/", "file:///a/f.rs?version=2", "file:///a/b/g.rs#L3", "file://localhost/ab/j", "file:///a/x/../b/g.rs"];
#[derive(Serialize, Deserialize, Clone, Debug)]
enum WOp {
    Add(usize),
    Remove(usize),
    Init(Vec<usize>, Option<usize>),
    Find(usize),
    Within(usize),
    List,
    /// An invalid folder
    AddBad(u32),
    RoundTrip(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct WCase {
    initial: Vec<usize>,
    threads: Vec<Vec<WOp>>,
}
fn make_w(r: &mut Rng, _: bool) -> Value {
    let n = r.range(2, 4);
    let wr = r.range(200, 800);
    let mut some: Vec<usize> = (0..FOLDERS.len()).collect();
    r.shuffle(&mut some);
    some.truncate(r.range(2, FOLDERS.len() as u64) as usize);
    let threads = (0..n)
        .map(|_| {
            (0..r.range(1, 8))
                .map(|_| {
                    if r.chance(wr) {
                        match r.below(10) {
                            0..=4 => WOp::Add(*r.pick(&some)),
                            5..=7 => WOp::Remove(*r.pick(&some)),
                            8 => WOp::Init((0..r.below(3)).map(|_| *r.pick(&some)).collect(), r.chance(500).then(|| *r.pick(&some))),
                            _ => WOp::AddBad(r.below(4) as u32),
                        }
                    }
                    else {
                        match r.below(8) {
                            0..=4 => WOp::Find(r.below(FILES.len() as u64) as usize),
                            5 => WOp::Within(r.below(FILES.len() as u64) as usize),
                            6 => WOp::List,
                            _ => WOp::RoundTrip(r.below(FILES.len() as u64) as usize),
                        }
                    }
                })
                .collect()
        })
        .collect();
    let c = WCase { initial: (0..r.below(4)).map(|_| *r.pick(&some)).collect(), threads };
    json!({"cfg": simrt::make_cfg(r, true, &[(Fault::SpuriousWake, 200)]), "w": c})
}
/// The decoded path components of a file URI.
fn comps(u: &str) -> Option<Vec<String>> {
    let p = u.strip_prefix("file://")?.split(['?', '#']).next()?;
    let p = p.strip_prefix("localhost").unwrap_or(p);
    let mut b = vec![];
    let mut it = p.bytes();
    while let Some(c) = it.next() {
        b.push(match c {
            b'%' => {
                let mut hex = || it.next().map_or(0, |h| (h as char).to_digit(16).unwrap_or(0) as u8);
                hex() * 16 + hex()
            }
            c => c,
        })
    }
    let mut v = vec![];
    for c in String::from_utf8(b).ok()?.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c.to_string()),
        }
    }
    Some(v)
}
fn contains(folder: &str, file: &str) -> bool {
    match (comps(folder), comps(file)) {
        (Some(a), Some(b)) => b.starts_with(&a),
        _ => false,
    }
}
#[derive(Clone, Debug)]
enum WOut {
    Unit,
    Found(Option<String>),
    Bool(bool),
    List(Vec<(String, String)>),
}
fn run_w(w: &Value) {
    let c: WCase = parse(w);
    let m: &'static WorkspaceManager = Box::leak(Box::new(WorkspaceManager::new()));
    let h: &'static Hist<WOp, WOut> = Box::leak(Box::default());
    let exec = |tid: usize, op: WOp| {
        record(h, tid, op.clone(), || match op {
            WOp::Add(f) => {
                m.add_folder(FOLDERS[f].into(), "n".into());
                WOut::Unit
            }
            WOp::Remove(f) => {
                m.remove_folder(FOLDERS[f]);
                WOut::Unit
            }
            WOp::AddBad(k) => {
                m.add_folder(["", "not a uri", "http://host/a", "untitled:x"][k as usize % 4].into(), "n".into());
                WOut::Unit
            }
            WOp::Init(fs, root) => {
                let p: InitializeParams = serde_json::from_value(json!({"root_uri": root.map(|r| FOLDERS[r]), "workspace_folders": fs.iter().map(|f| json!({"uri": FOLDERS[*f], "name": "n"})).collect::<Vec<_>>()})).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
                m.initialize(&p);
                WOut::Unit
            }
            WOp::Find(f) => WOut::Found(m.find_root(FILES[f])),
            WOp::Within(f) => WOut::Bool(m.is_within_workspace(FILES[f])),
            WOp::List => WOut::List(m.list_folders().into_iter().map(|(u, p)| (u, p.to_string_lossy().into_owned())).collect()),
            WOp::RoundTrip(f) => {
                // Pure, but other threads must not disturb it.
                let p = m.get_path(FILES[f]);
                match p {
                    None => check!(comps(FILES[f]).is_none(), "path of a file wrong", "{}: none", FILES[f]),
                    Some(p) => {
                        let want = format!("/{}", comps(FILES[f]).unwrap_or_default().join("/"));
                        check!(p.to_str().map(|p| p.trim_end_matches('/')) == Some(&want), "path of a file wrong", "{}: {p:?}", FILES[f]);
                        let back = m.path_to_uri(p);
                        // Other spellings do not come back.
                        check!(FILES[f].contains(['?', '#']) || FILES[f].contains("localhost") || FILES[f].contains("..") || FILES[f].ends_with('/') || back.as_deref() == Some(FILES[f]), "path of a file wrong", "{} comes back as {back:?}", FILES[f]);
                    }
                }
                WOut::Unit
            }
        })
    };
    for f in &c.initial {
        exec(99, WOp::Add(*f))
    }
    let js: Vec<_> = c.threads.iter().cloned().enumerate().map(|(t, ops)| simrt::spawn(move || ops.into_iter().for_each(|o| exec(t, o)))).collect();
    js.into_iter().for_each(simrt::join);
    sched::quiet(true);
    exec(99, WOp::List);
    for f in 0..FILES.len() {
        exec(99, WOp::Find(f));
        exec(99, WOp::Within(f));
    }
    let hist = h.lock().unwrap().clone();
    // Per folder: the intervals in which it was certainly / possibly registered. Folders are independent registers.
    let writes = |f: usize| -> Vec<(u64, u64, bool)> {
        hist.iter()
            .filter_map(|o| match &o.i {
                WOp::Add(g) if *g == f => Some((o.inv, o.ret, true)),
                WOp::Remove(g) if *g == f => Some((o.inv, o.ret, false)),
                WOp::Init(v, r) if v.contains(&f) || *r == Some(f) => Some((o.inv, o.ret, true)),
                _ => None,
            })
            .collect()
    };
    let all: Vec<_> = (0..FOLDERS.len()).map(writes).collect();
    // Could folder f be registered at some moment of (inv, ret)?
    let possible = |f: usize, inv: u64, ret: u64| all[f].iter().any(|a| a.2 && a.0 < ret && !all[f].iter().any(|r| !r.2 && a.1 < r.0 && r.1 < inv && !all[f].iter().any(|b| b.2 && b.1 > r.0 && b.0 < ret)));
    // Was folder f registered throughout (inv, ret) for certain?
    let certain = |f: usize, inv: u64, ret: u64| all[f].iter().any(|a| a.2 && a.1 < inv && !all[f].iter().any(|r| !r.2 && r.1 > a.0 && r.0 < ret));
    for o in &hist {
        match (&o.i, &o.o) {
            (WOp::Find(f), WOut::Found(got)) => {
                let file = FILES[*f];
                if let Some(u) = got {
                    let Some(k) = FOLDERS.iter().position(|x| x == u)
                    else { simrt::violation("unknown folder", &format!("{file}: {u}")) };
                    check!(contains(u, file), "folder does not contain the file", "{file}: {u}");
                    check!(possible(k, o.inv, o.ret), "folder not registered", "{file}: {u} was not registered at any moment of the call; history {hist:?}");
                }
                let len = got.as_deref().and_then(comps).map(|c| c.len() as i64).unwrap_or(-1);
                for k in 0..FOLDERS.len() {
                    if contains(FOLDERS[k], file) && certain(k, o.inv, o.ret) {
                        let l = comps(FOLDERS[k]).unwrap().len() as i64;
                        check!(l <= len, "not the innermost folder", "{file}: {got:?} although {} was registered throughout; history {hist:?}", FOLDERS[k]);
                    }
                }
            }
            (WOp::Within(f), WOut::Bool(b)) => {
                let file = FILES[*f];
                let c = (0..FOLDERS.len()).any(|k| contains(FOLDERS[k], file) && certain(k, o.inv, o.ret));
                let p = (0..FOLDERS.len()).any(|k| contains(FOLDERS[k], file) && possible(k, o.inv, o.ret));
                check!(if *b { p } else { !c }, "membership wrong", "{file}: {b}; history {hist:?}");
            }
            (WOp::List, WOut::List(l)) => {
                let mut seen = BTreeSet::new();
                for (u, p) in l {
                    check!(seen.insert(u.clone()), "folder listed twice", "{u}");
                    let Some(k) = FOLDERS.iter().position(|x| x == u)
                    else { simrt::violation("unknown folder", u) };
                    let want = format!("/{}", comps(u).unwrap().join("/"));
                    check!(p.trim_end_matches('/') == want.trim_end_matches('/'), "folder path wrong", "{u}: {p}");
                    check!(possible(k, o.inv, o.ret), "folder not registered", "{u} listed; history {hist:?}");
                }
                for k in 0..FOLDERS.len() {
                    check!(!certain(k, o.inv, o.ret) || seen.contains(FOLDERS[k]), "folder missing", "{}; history {hist:?}", FOLDERS[k]);
                }
            }
            _ => {}
        }
    }
}
pub static WORKSPACE: Scenario = Scenario { name: "workspace", about: "threads add, remove and look up workspace folders", make: make_w, run: run_w };

// ---- R01 ----
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum SOp {
    /// Replace the symbols of a file: (name, container) pairs; the version makes each symbol unique.
    Update { file: usize, ver: usize, syms: Vec<(usize, usize)> },
    Lookup(usize),
    Query(usize),
    File(usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct SCase {
    threads: Vec<Vec<SOp>>,
}
const NAMES: [&str; 7] = ["main", "run", "é", "Main", "B::run", "", "mai"];
const CONTAINERS: [Option<&str>; 5] = [None, Some("A"), Some("A::B"), Some(""), Some("a")];
const QUERIES: [&str; 8] = ["", "main", "A::", "B", "zzz", "::", "MAIN", "s1"];
/// The names from here on belong to files with many symbols.
const MANY: usize = 1000;
fn name_of(n: usize) -> String {
    if n >= MANY { format!("s{}", n - MANY) } else { NAMES[n % NAMES.len()].to_string() }
}
fn fqn(n: usize, c: usize) -> String {
    match CONTAINERS[c % CONTAINERS.len()] {
        Some(k) => format!("{k}::{}", name_of(n)),
        None => name_of(n),
    }
}
/// A lookup's key.
fn key(n: usize, c: usize) -> usize {
    n * CONTAINERS.len() + c % CONTAINERS.len()
}
fn key_fqn(k: usize) -> String {
    fqn(k / CONTAINERS.len(), k % CONTAINERS.len())
}
fn uri(f: usize) -> String {
    format!("file:///f{f}.rs")
}
fn make_s(r: &mut Rng, _: bool) -> Value {
    let n = r.range(2, 3);
    let files = r.range(1, 3);
    let mut pairs: Vec<(usize, usize)> = (0..NAMES.len()).flat_map(|n| (0..CONTAINERS.len()).map(move |c| (n, c))).collect();
    r.shuffle(&mut pairs);
    pairs.truncate(r.range(1, 6) as usize);
    let wr = r.range(250, 750);
    let mut ver = 0;
    let threads = (0..n)
        .map(|_| {
            (0..r.range(1, 6))
                .map(|_| {
                    if r.chance(wr) {
                        ver += 1;
                        SOp::Update { file: r.below(files) as usize, ver, syms: if r.chance(20) { (0..r.range(60, 300)).map(|n| (MANY + n as usize, 1)).collect() } else { (0..r.below(4)).map(|_| *r.pick(&pairs)).collect() } }
                    }
                    else {
                        match r.below(4) {
                            0 | 1 => {
                                let (n, c) = *r.pick(&pairs);
                                SOp::Lookup(key(n, c))
                            }
                            2 => SOp::Query(r.below(QUERIES.len() as u64) as usize),
                            _ => SOp::File(r.below(files) as usize),
                        }
                    }
                })
                .collect()
        })
        .collect();
    json!({"cfg": simrt::make_cfg(r, true, &[(Fault::SpuriousWake, 200)]), "w": SCase { threads }})
}
/// A symbol as the harness names it: (fqn, file, version, index)
type Sym = (String, usize, usize, usize);
fn sym(file: usize, ver: usize, k: usize, n: usize, c: usize) -> SymbolInformation {
    SymbolInformation {
        name: name_of(n).into(),
        role: oak_core::language::UniversalElementRole::Definition,
        uri: uri(file).into(),
        range: (ver * 1000 + k..ver * 1000 + k + 1).into(),
        container_name: CONTAINERS[c % CONTAINERS.len()].map(|s| s.to_string()),
    }
}
fn unsym(s: &SymbolInformation) -> Sym {
    let f = s.uri.trim_start_matches("file:///f").trim_end_matches(".rs").parse().unwrap_or(99);
    let name = match &s.container_name {
        Some(c) => format!("{c}::{}", s.name),
        None => s.name.clone(),
    };
    (name, f, s.range.start / 1000, s.range.start % 1000)
}
#[derive(Clone, Debug)]
enum SOut {
    Unit,
    One(Option<Sym>),
    Many(Vec<Sym>),
}
fn run_s(w: &Value) {
    let c: SCase = parse(w);
    let g: &'static GlobalSymbolTable = Box::leak(Box::new(GlobalSymbolTable::new()));
    let h: &'static Hist<SOp, SOut> = Box::leak(Box::default());
    let exec = |tid: usize, op: SOp| {
        record(h, tid, op.clone(), || match op {
            SOp::Update { file, ver, syms } => {
                g.update_file_symbols(uri(file), syms.iter().enumerate().map(|(k, s)| sym(file, ver, k, s.0, s.1)).collect());
                SOut::Unit
            }
            SOp::Lookup(k) => SOut::One(g.lookup(&key_fqn(k)).map(|s| unsym(&s))),
            SOp::Query(q) => SOut::Many(g.query(QUERIES[q % QUERIES.len()]).iter().map(unsym).collect()),
            SOp::File(f) => SOut::Many(g.query_file(&uri(f)).iter().map(unsym).collect()),
        })
    };
    let js: Vec<_> = c.threads.iter().cloned().enumerate().map(|(t, ops)| simrt::spawn(move || ops.into_iter().for_each(|o| exec(t, o)))).collect();
    js.into_iter().for_each(simrt::join);
    sched::quiet(true);
    let mut keys: BTreeSet<usize> = BTreeSet::new();
    for op in c.threads.iter().flatten() {
        match op {
            // Of many symbols, a few.
            SOp::Update { syms, .. } => keys.extend(syms.iter().enumerate().filter(|(k, s)| s.0 < MANY || *k == 0 || k + 1 == syms.len() || s.0 == MANY + 129).map(|(_, s)| key(s.0, s.1))),
            SOp::Lookup(k) => {
                keys.insert(*k);
            }
            _ => {}
        }
    }
    // Different names and containers may make the same qualified name.
    let mut names: BTreeSet<String> = BTreeSet::new();
    keys.retain(|k| names.insert(key_fqn(*k)));
    for k in keys.iter().copied() {
        exec(99, SOp::Lookup(k))
    }
    for f in 0..3 {
        exec(99, SOp::File(f))
    }
    exec(99, SOp::Query(0));
    let mut hist = h.lock().unwrap().clone();
    hist.sort_by_key(|o| o.inv);
    let syms_of = |o: &SOp| -> Vec<Sym> {
        match o {
            SOp::Update { file, ver, syms } => syms.iter().enumerate().map(|(k, s)| (fqn(s.0, s.1), *file, *ver, k)).collect(),
            _ => vec![],
        }
    };
    if hist.iter().any(|a| matches!(a.i, SOp::Update { .. }) && hist.iter().any(|b| matches!(b.i, SOp::Update { .. }) && a.tid != b.tid && a.inv < b.inv && b.inv < a.ret)) {
        simrt::probe("symbols:two updates overlap")
    }
    // Per file: the file's list is an atomic register.
    for f in 0..3 {
        let hf: Vec<_> = hist.iter().filter(|o| matches!(&o.i, SOp::Update { file, .. } if *file == f) || o.i == SOp::File(f)).cloned().collect();
        let ok = lin::check(Vec::<Sym>::new(), &hf, |s, o| match &o.o {
            SOut::Unit => Some(syms_of(&o.i)),
            SOut::Many(l) => (l == s).then(|| s.clone()),
            _ => None,
        });
        check!(ok, "symbols of a file wrong", "{}: {hf:?}", uri(f));
    }
    // Per name: each update takes effect at once; a lookup finds a current symbol exactly if there is one.
    for name in names {
        let hn: Vec<_> = hist
            .iter()
            .filter_map(|o| {
                let o2 = match (&o.i, &o.o) {
                    (SOp::Update { .. }, _) => SOut::Unit,
                    (SOp::Lookup(j), SOut::One(_)) if key_fqn(*j) == name => o.o.clone(),
                    (SOp::Query(q), SOut::Many(l)) if name.contains(QUERIES[*q % QUERIES.len()]) => SOut::Many(l.iter().filter(|s| s.0 == name).cloned().collect()),
                    (SOp::Query(_), SOut::Many(l)) => {
                        check!(!l.iter().any(|s| s.0 == name), "query matches too much", "{name}: {:?}", o);
                        return None;
                    }
                    _ => return None,
                };
                Some(Op { tid: o.tid, inv: o.inv, ret: o.ret, i: o.i.clone(), o: o2 })
            })
            .collect();
        // The files that define the name, in the order of their updates.
        let ok = lin::check(Vec::<(usize, Vec<Sym>)>::new(), &hn, |s, o| match &o.o {
            SOut::Unit => {
                let mut n = s.clone();
                if let SOp::Update { file, .. } = &o.i {
                    let v: Vec<Sym> = syms_of(&o.i).into_iter().filter(|s| s.0 == name).collect();
                    n.retain(|x| x.0 != *file);
                    if !v.is_empty() {
                        n.push((*file, v))
                    }
                }
                Some(n)
            }
            SOut::One(None) => s.is_empty().then(|| s.clone()),
            SOut::One(Some(x)) => s.last().is_some_and(|v| v.1.contains(x)).then(|| s.clone()),
            SOut::Many(l) => {
                let mut want: Vec<&Sym> = s.iter().flat_map(|x| &x.1).collect();
                let mut got: Vec<&Sym> = l.iter().collect();
                want.sort();
                got.sort();
                (want == got).then(|| s.clone())
            }
        });
        check!(ok, "lookup of a name wrong", "{name}: {hn:?}");
    }
}
pub static SYMBOLS: Scenario = Scenario { name: "symbols", about: "threads update and query the workspace symbol table", make: make_s, run: run_s };

// ---- R02 ----
const ROOTS: [&str; 4] = ["/work/r0", "/work/r1", "/work/r 2", "/work/missing"];
const BASES: [&str; 7] = ["file:///work/src/main.rs", "file:///work/src/sub/a.rs", "not a uri", "http://h/x.rs", "file:///work/r%202/q.rs", "file:///work/gone/x.rs", "file:///work/src/main.rs?v=2#top"];
const IMPORTS: [&str; 9] = ["m.rs", "sub/n.rs", "./m.rs", "o p.rs", "nowhere", "sub", "../m.rs", "/work/r1/m.rs", "link.rs"];
#[derive(Serialize, Deserialize, Clone, Debug)]
enum ROp {
    Resolve(usize, usize),
    SetRoots(Vec<usize>),
    /// A workspace is initialized with these folders, the first one perhaps as its root.
    Init(Vec<usize>, bool),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct RCase {
    /// (directory: 0 src, 1 src/sub, 2.. root, import)
    files: Vec<(usize, usize)>,
    /// Symbolic links: (directory, whether the target exists)
    links: Vec<(usize, bool)>,
    roots: Vec<usize>,
    threads: Vec<Vec<ROp>>,
}
fn make_r(r: &mut Rng, _: bool) -> Value {
    let n = r.range(1, 4);
    let roots = |r: &mut Rng| (0..r.below(4)).map(|_| r.below(ROOTS.len() as u64) as usize).collect::<Vec<_>>();
    let wr = r.range(0, 500);
    let threads = (0..n).map(|_| (0..r.range(1, 8)).map(|_| if r.chance(wr) { if r.chance(500) { ROp::SetRoots(roots(r)) } else { ROp::Init(roots(r), r.chance(500)) } } else { ROp::Resolve(r.below(BASES.len() as u64) as usize, r.below(IMPORTS.len() as u64) as usize) }).collect()).collect();
    let c = RCase { files: (0..r.below(9)).map(|_| (r.below(5) as usize, r.below(4) as usize)).collect(), links: (0..r.below(3)).map(|_| (r.below(5) as usize, r.chance(600))).collect(), roots: roots(r), threads };
    let f = [(Fault::StatErr, 200), (Fault::IoDelay, 200), (Fault::SpuriousWake, 200)];
    json!({"cfg": simrt::make_cfg(r, true, &f), "w": c})
}
/// A path or URI without `.` and `..`; there are no links to directories.
fn norm(s: &str) -> String {
    let (scheme, path) = match s.strip_prefix("file://") {
        Some(p) => ("file://", p),
        None => ("", s),
    };
    let mut v: Vec<&str> = vec![];
    for c in path.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                v.pop();
            }
            c => v.push(c),
        }
    }
    format!("{scheme}/{}", v.join("/"))
}
fn file_uri(p: &str) -> String {
    format!("file://{}", norm(p).replace(' ', "%20"))
}
fn run_r(w: &Value) {
    let c: RCase = parse(w);
    fs::mkdirs("/work/src/sub");
    for r in &ROOTS[..3] {
        fs::mkdirs(r)
    }
    let dirs = ["/work/src", "/work/src/sub", ROOTS[0], ROOTS[1], ROOTS[2]];
    fs::put("/work/target.rs", b"x");
    for (d, live) in &c.links {
        let p = format!("{}/link.rs", dirs[*d % 5]);
        fs::del(&p);
        fs::put_link(&p, if *live { "/work/target.rs" } else { "/work/gone.rs" })
    }
    for (d, i) in &c.files {
        let d = dirs[*d % 5];
        fs::put(&format!("{d}/{}", IMPORTS[*i % 4].replace("./", "")), b"x")
    }
    let to = |v: &[usize]| v.iter().map(|r| PathBuf::from(ROOTS[*r % 4])).collect::<Vec<_>>();
    // The resolver is one of its own or, if a workspace is initialized, that of a workspace.
    let m: &'static WorkspaceManager = Box::leak(Box::new(WorkspaceManager::new()));
    let own: &'static StandardResolver = Box::leak(Box::new(StandardResolver::new(to(&c.roots))));
    let ws = c.threads.iter().flatten().any(|o| matches!(o, ROp::Init(..)));
    let r = if ws { &m.resolver } else { own };
    r.set_root_dirs(to(&c.roots));
    let h: &'static Hist<ROp, (Option<String>, bool)> = Box::leak(Box::default());
    let exec = move |tid: usize, op: ROp| {
        record(h, tid, op.clone(), || match op {
            ROp::Resolve(b, i) => {
                let from = sched::seq();
                let o = r.resolve(BASES[b % BASES.len()], IMPORTS[i % IMPORTS.len()]);
                (o, simrt::hard_fault_since(from))
            }
            ROp::Init(v, root) => {
                let uri = |k: usize| file_uri(ROOTS[k % 4]);
                let (first, rest) = if root && !v.is_empty() { (Some(uri(v[0])), &v[1..]) } else { (None, &v[..]) };
                let mut folders: Vec<Value> = rest.iter().map(|k| json!({"uri": uri(*k), "name": "n"})).collect();
                folders.insert(folders.len() / 2, json!({"uri": "untitled:x", "name": "ignored"}));
                m.initialize(&serde_json::from_value(json!({"root_uri": first, "workspace_folders": folders})).unwrap_or_else(|e| simrt::harness_error(&e.to_string())));
                (None, false)
            }
            ROp::SetRoots(v) => {
                r.set_root_dirs(v.iter().map(|r| PathBuf::from(ROOTS[*r % 4])).collect());
                (None, false)
            }
        })
    };
    let js: Vec<_> = c.threads.iter().cloned().enumerate().map(|(t, ops)| simrt::spawn(move || ops.into_iter().for_each(|o| exec(t, o)))).collect();
    js.into_iter().for_each(simrt::join);
    simrt::faults_off();
    sched::quiet(true);
    for b in 0..BASES.len() {
        for i in 0..IMPORTS.len() {
            exec(99, ROp::Resolve(b, i))
        }
    }
    let mut hist = h.lock().unwrap().clone();
    hist.sort_by_key(|o| o.inv);
    let dir_of = |b: usize| match b % BASES.len() {
        0 | 6 => Some("/work/src"),
        1 => Some("/work/src/sub"),
        4 => Some("/work/r 2"),
        5 => Some("/work/gone"),
        _ => None,
    };
    let step = |roots: &Vec<usize>, o: &Op<ROp, (Option<String>, bool)>| -> Option<Vec<usize>> {
        match &o.i {
            ROp::SetRoots(v) | ROp::Init(v, _) => Some(v.clone()),
            ROp::Resolve(b, i) => {
                let imp = IMPORTS[*i % IMPORTS.len()];
                let dirs: Vec<String> = dir_of(*b).map(|s| s.to_string()).into_iter().chain(roots.iter().map(|r| ROOTS[*r % 4].to_string())).collect();
                let cands: Vec<String> = dirs.iter().map(|d| if imp.starts_with('/') { imp.to_string() } else { format!("{d}/{imp}") }).filter(|p| fs::kind(p).is_some()).map(|p| file_uri(&p)).collect();
                let got = o.o.0.as_deref().map(norm);
                let good = if o.o.1 { got.as_ref().is_none_or(|g| cands.contains(g)) } else { got == cands.first().cloned() };
                good.then(|| roots.clone())
            }
        }
    };
    // The final resolutions happen after everything else; check them in a second, sequential pass.
    let (last, conc): (Vec<_>, Vec<_>) = hist.into_iter().partition(|o| o.tid == 99);
    let mut finals: Vec<Vec<usize>> = vec![];
    // Any root list that could be the last one must explain all final answers at once.
    for v in conc.iter().filter_map(|o| if let ROp::SetRoots(v) | ROp::Init(v, _) = &o.i { Some(v.clone()) } else { None }).chain([c.roots.clone()]) {
        if last.iter().all(|o| step(&v, o).is_some()) {
            finals.push(v)
        }
    }
    check!(!finals.is_empty(), "resolution wrong", "no root list explains the final answers {last:?}");
    let mut conc = conc;
    conc.truncate(40);
    check!(lin::check(c.roots.clone(), &conc, step), "resolution wrong", "no order of the calls explains {conc:?}");
}
pub static RESOLVE: Scenario = Scenario { name: "resolver", about: "threads resolve imports while roots change and the disk fails", make: make_r, run: run_r };
