//! V01, V02: the in-memory file system under concurrent callers.
use crate::lin::{self, Op};
use oak_core::{
    Arc,
    source::{Source, SourceText},
};
use oak_vfs::{LineMap, MemoryVfs, Vfs, WritableVfs};
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, json, sched};
use std::{
    collections::BTreeMap,
    sync::{Mutex, OnceLock},
};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    /// 0 write, 1 remove, 2 source, 3 exists, 4 metadata, 5 list, 6 id, 7 uri of an id seen before, 8 line map, 9 time passes
    k: u32,
    u: usize,
    c: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    initial: Vec<u32>,
    threads: Vec<Vec<Step>>,
    /// Call through the trait object style (generic) interface.
    generic: bool,
    /// The names in use.
    #[serde(default)]
    names: Vec<usize>,
}
/// Names that differ in ways which matter to some systems are names of different files.
const URIS: [&str; 14] = ["file:///a.rs", "file:///b.rs", "/dir/c", "d é.txt", "file:///A.rs", "file:///a.rs/", "file:///a%2Ers", "/dir/./c", "/dir//c", "/dir", "", "file:///a.rs#1", "d e\u{301}.txt", " /dir/c"];

fn make(r: &mut Rng, ids: bool) -> Value {
    let mut names: Vec<usize> = (0..URIS.len()).collect();
    if r.chance(500) {
        r.shuffle(&mut names);
    }
    let n = r.range(2, 4) as usize;
    let uris = r.range(1, 4);
    let max = if n == 2 { 9 } else { 6 };
    let wr = r.range(200, 700);
    let mut cid = 0;
    let mut threads = vec![];
    for _ in 0..n {
        let mut v = vec![];
        for _ in 0..r.range(1, max) {
            cid += 1;
            let k = if r.chance(wr) {
                if r.chance(350) { 1 } else { 0 }
            }
            else if ids {
                *r.pick(&[2u32, 6, 6, 7, 7])
            }
            else {
                *r.pick(&[2u32, 2, 3, 4, 4, 5, 8, 9])
            };
            v.push(Step { k, u: names[r.below(uris) as usize], c: cid + if k == 0 { odd(r) } else { 0 } });
        }
        threads.push(v)
    }
    let mut initial = vec![];
    for u in &names[..uris as usize] {
        if r.chance(500) {
            initial.push(*u as u32)
        }
    }
    names.truncate(uris as usize);
    let c = Case { initial, threads, generic: r.chance(500), names };
    let f: &[(Fault, u64)] = &[(Fault::SpuriousWake, 300), (Fault::ClockFwd, 50), (Fault::ClockBack, 50)];
    json!({"cfg": simrt::make_cfg(r, true, f), "w": c})
}
/// Kinds of contents, in thousands: usual, empty, with a byte order mark, with carriage returns, the same again, large.
fn odd(r: &mut Rng) -> u32 {
    if r.chance(650) { 0 } else if r.chance(60) { 5000 } else { 1000 * r.range(1, 4) as u32 }
}
/// Usual contents are unique per write, and so are their lengths.
fn content(c: u32) -> String {
    match c / 1000 {
        0 => usual(c),
        1 => String::new(),
        2 => format!("\u{feff}{}", usual(c % 1000)),
        3 => format!("\r\n{}\r\n \t\0\n\n", usual(c % 1000)).replace("x\n", "x\r\n"),
        4 => usual(7),
        _ => usual(c % 1000).repeat(1 + 70_000 / usual(c % 1000).len()),
    }
}
fn usual(c: u32) -> String {
    let mut s = format!("content {c}");
    for k in 0..c {
        s.push_str(if k % 7 == 4 { "😀" } else if k % 3 == 0 { "\n" } else if k % 5 == 0 { "é" } else { "x" })
    }
    s
}
#[derive(Clone, Debug)]
enum Out {
    Unit,
    Source(Option<(String, Option<u32>)>),
    Bool(bool),
    Meta(Option<(u64, u64, bool)>),
    List(Vec<String>),
    Id(Option<u32>),
    Uri(u32, Option<String>),
    Lines(Option<LineMap>),
}
type H = Vec<Op<(Step, u64, u64), Out>>;
/// The seconds the clock may have shown during a call.
fn seconds(inv: u64, t0: u64, ret: u64, t1: u64) -> (u64, u64) {
    let (lo, hi) = sched::wall_range((inv, t0), (ret, t1));
    (lo / 1_000_000_000, hi / 1_000_000_000)
}
fn write<V: WritableVfs>(v: &V, u: &str, c: &str) {
    v.write_file(u, Arc::from(c))
}
fn remove<V: WritableVfs>(v: &V, u: &str) {
    v.remove_file(u)
}
fn exec(v: &MemoryVfs, s: &Step, generic: bool, seen: &mut Vec<u32>) -> Out {
    let u = URIS[s.u % URIS.len()];
    match s.k {
        0 => {
            if generic { write(v, u, &content(s.c)) } else { v.write_file(u, content(s.c).as_str()) }
            Out::Unit
        }
        1 => {
            if generic { remove(v, u) } else { v.remove_file(u) }
            Out::Unit
        }
        2 => Out::Source(v.get_source(u).map(|t| {
            let id = t.source_id();
            if let Some(i) = id {
                seen.push(i)
            }
            (t.get_text_in((0..t.length()).into()).into_owned(), id)
        })),
        3 => Out::Bool(if s.c % 2 == 0 { v.exists(u) } else { v.is_file(u) }),
        4 => Out::Meta(v.metadata(u).map(|m| (m.len, m.modified.unwrap_or(0), m.file_type == oak_vfs::FileType::File))),
        5 => {
            let mut l: Vec<String> = v.read_dir("").unwrap_or_default().iter().map(|s| s.to_string()).collect();
            l.sort();
            Out::List(l)
        }
        6 => {
            let id = v.get_id(u);
            if let Some(i) = id {
                seen.push(i)
            }
            Out::Id(id)
        }
        9 => {
            std::thread::sleep(std::time::Duration::from_millis(s.c as u64 % 9 * 400));
            Out::Unit
        }
        7 => {
            let id = seen.get(s.c as usize % seen.len().max(1)).copied().unwrap_or(s.c % 3);
            Out::Uri(id, v.get_uri(id).map(|u| u.to_string()))
        }
        _ => Out::Lines(v.line_map(u)),
    }
}
fn history(c: &Case) -> H {
    let v = MemoryVfs::new();
    let h: &'static Mutex<H> = Box::leak(Box::new(Mutex::new(vec![])));
    for u in &c.initial {
        let s = Step { k: 0, u: *u as usize, c: 40 + u };
        let inv = sched::seq();
        let t0 = sched::wall();
        exec(&v, &s, false, &mut vec![]);
        let (t1, ret) = (sched::wall(), sched::seq());
        let (lo, hi) = seconds(inv, t0, ret, t1);
        h.lock().unwrap().push(Op { tid: 0, inv, ret, i: (s, lo, hi), o: Out::Unit })
    }
    let mut js = vec![];
    for (t, steps) in c.threads.iter().cloned().enumerate() {
        let v = v.clone();
        let g = c.generic;
        js.push(simrt::spawn(move || {
            let mut seen = vec![];
            let mut mine: H = vec![];
            for s in steps {
                let inv = sched::seq();
                let t0 = sched::wall();
                let o = exec(&v, &s, g, &mut seen);
                let t1 = sched::wall();
                let ret = sched::seq();
                let (t0, t1) = seconds(inv, t0, ret, t1);
                ev!("{} {:?} -> {:?}", inv, s, o);
                mine.push(Op { tid: t + 1, inv, ret, i: (s, t0, t1), o });
            }
            h.lock().unwrap().extend(mine);
        }));
    }
    for j in js {
        simrt::join(j)
    }
    sched::quiet(true);
    // Final state, sequentially.
    for u in if c.names.is_empty() { vec![0, 1, 2, 3] } else { c.names.clone() } {
        for k in [2, 6, 3] {
            let s = Step { k, u, c: 0 };
            let inv = sched::seq();
            let o = exec(&v, &s, false, &mut vec![]);
            h.lock().unwrap().push(Op { tid: 0, inv, ret: sched::seq(), i: (s, 0, 0), o })
        }
    }
    let mut m = h.lock().unwrap().clone();
    m.sort_by_key(|o| o.inv);
    m.truncate(64);
    m
}
type S1 = BTreeMap<usize, (u32, u64, u64)>;
fn run_content(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    let h = history(&c);
    overlap(&h);
    let ok = lin::check(S1::new(), &h, |s, op| {
        let u = op.i.0.u % URIS.len();
        let cur = s.get(&u);
        let good = match &op.o {
            Out::Unit => {
                let mut n = s.clone();
                match op.i.0.k {
                    0 => n.insert(u, (op.i.0.c, op.i.1, op.i.2)),
                    1 => n.remove(&u),
                    _ => None,
                };
                return Some(n);
            }
            Out::Source(x) => x.as_ref().map(|x| x.0.clone()) == cur.map(|c| content(c.0)),
            Out::Bool(b) => *b == cur.is_some(),
            Out::Meta(m) => match (m, cur) {
                (None, None) => true,
                (Some((len, t, file)), Some(c)) => *len == content(c.0).len() as u64 && *file && *t >= c.1 && *t <= c.2,
                _ => false,
            },
            Out::List(l) => {
                let mut want: Vec<String> = s.keys().map(|k| URIS[*k].to_string()).collect();
                want.sort();
                *l == want
            }
            Out::Lines(m) => match (m, cur) {
                (None, None) => true,
                (Some(m), Some(c)) => {
                    let t = content(c.0);
                    crate::lines::wrong(m, &t, &SourceText::new(t.as_str())).is_none()
                }
                _ => false,
            },
            _ => true,
        };
        good.then(|| s.clone())
    });
    check!(ok, "not linearizable", "no order of the operations explains these results: {:?}", h);
}
#[derive(Clone, PartialEq, Eq, Hash, Default)]
struct S2 {
    /// uri -> incarnation, contents
    live: BTreeMap<usize, (u32, u32)>,
    next: u32,
    /// incarnation -> id
    bind: BTreeMap<u32, u32>,
    /// id -> uri, for ever
    owner: BTreeMap<u32, usize>,
}
impl S2 {
    fn observe(&self, u: usize, id: u32) -> Option<S2> {
        let inc = self.live.get(&u)?.0;
        if let Some(b) = self.bind.get(&inc) {
            return (*b == id).then(|| self.clone());
        }
        if self.owner.get(&id).is_some_and(|o| *o != u) {
            return None;
        }
        let mut n = self.clone();
        n.bind.insert(inc, id);
        n.owner.insert(id, u);
        Some(n)
    }
}
fn run_ids(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    let h = history(&c);
    overlap(&h);
    let ok = lin::check(S2::default(), &h, |s, op| {
        let u = op.i.0.u % URIS.len();
        match &op.o {
            Out::Unit => {
                let mut n = s.clone();
                if op.i.0.k == 0 {
                    let inc = n.live.get(&u).map_or(n.next, |l| l.0);
                    n.next = n.next.max(inc + 1);
                    n.live.insert(u, (inc, op.i.0.c));
                }
                else if op.i.0.k == 1 {
                    n.live.remove(&u);
                }
                Some(n)
            }
            Out::Source(None) | Out::Id(None) => (!s.live.contains_key(&u)).then(|| s.clone()),
            Out::Source(Some((_, None))) => None,
            Out::Source(Some((text, Some(id)))) => s.observe(u, *id).filter(|s| *text == content(s.live[&u].1)),
            Out::Id(Some(id)) => s.observe(u, *id),
            Out::Uri(id, Some(uri)) => s.observe(URIS.iter().position(|x| x == uri)?, *id),
            Out::Uri(id, None) => {
                // No live file may have this id.
                (!s.live.values().any(|(inc, _)| s.bind.get(inc) == Some(id))).then(|| s.clone())
            }
            _ => Some(s.clone()),
        }
    });
    check!(ok, "ids not consistent", "no order of the operations explains these ids: {:?}", h);
}
fn overlap(h: &H) {
    static NAMES: OnceLock<()> = OnceLock::new();
    NAMES.get_or_init(|| ());
    for a in h {
        for b in h {
            if a.tid != b.tid && a.inv < b.inv && b.inv < a.ret && a.i.0.k <= 1 && a.i.0.u == b.i.0.u {
                simrt::probe(if b.i.0.k <= 1 { "vfs-memory:write overlaps write of the same file" } else { "vfs-memory:write overlaps read of the same file" });
                return;
            }
        }
    }
}
pub static CONTENT: Scenario = Scenario { name: "vfs-memory", about: "caller threads share one in-memory file system", make: |r, _| make(r, false), run: run_content };
pub static IDS: Scenario = Scenario { name: "vfs-memory-ids", about: "caller threads create, remove and identify files of one in-memory file system", make: |r, _| make(r, true), run: run_ids };
