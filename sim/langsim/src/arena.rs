//! A01: arenas that grow, move between threads and end anywhere; sessions that parse many times.
use crate::{docs, lang::source, langs};
use core::range::Range;
use oak_core::{
    memory::arena::SyntaxArena,
    source::TextEdit,
    tree::{ProvenancePart, TokenProvenance},
};
use serde::{Deserialize, Serialize};
use simrt::{Rng, Scenario, Value, alloc, check, ev, json};
use std::{
    collections::BTreeMap,
    num::NonZeroU32,
    sync::{Arc, Mutex},
};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    New(usize),
    Byte,
    Word,
    Triple,
    Slice(usize),
    Words(usize),
    /// Items, items the iterator yields too many, whether it allocates meanwhile
    Fill(usize, usize, bool),
    Meta(usize),
    /// Very many metadata without parts
    Metas(usize),
    Check,
    Pass,
    Take,
    Drop,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    threads: Vec<Vec<Op>>,
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let n = r.range(1, 3);
    let size = |r: &mut Rng| match r.below(8) {
        0 => r.range(60_000, 66_000),
        1 => r.range(65_500, 65_560),
        2 => r.range(66_000, 300_000),
        3 => r.range(20_000, 40_000),
        _ => r.range(0, 40),
    } as usize;
    let many = r.chance(150);
    let threads = (0..n)
        .map(|_| {
            let mut v = vec![Op::New(*r.pick(&[0, 1, 16]))];
            for _ in 0..r.range(3, if thorough { 60 } else { 25 }) {
                let o = match r.below(16) {
                    0 | 1 => Op::New(*r.pick(&[0, 1, 16])),
                    2 => Op::Byte,
                    3 => Op::Word,
                    4 => Op::Triple,
                    5 | 6 => Op::Slice(size(r)),
                    7 => Op::Words(size(r) / 4),
                    8 | 9 => Op::Fill(if r.chance(100) { size(r) / 16 } else { r.range(0, 20) as usize }, r.below(2) as usize, r.chance(500)),
                    10 => Op::Meta(r.range(1, 4) as usize),
                    11 => Op::Check,
                    12 => Op::Pass,
                    13 => Op::Take,
                    _ => Op::Drop,
                };
                v.push(o)
            }
            if many {
                // More chunks than a pool keeps, sometimes many more
                let k = r.below(v.len() as u64) as usize;
                for _ in 0..if r.chance(100) { r.range(250, 600) } else { r.range(60, 75) } {
                    v.insert(k, Op::Slice(40_000))
                }
            }
            if r.chance(15) {
                v.insert(1, Op::Metas(r.range(65_000, 140_000) as usize))
            }
            v
        })
        .collect();
    json!({"cfg": simrt::make_cfg(r, true, &[]), "w": Case { threads }})
}
enum Item {
    Bytes(&'static [u8], u8),
    Words(&'static [u32], u32),
    Word(&'static u64, u64),
    Triple(&'static [u64; 3], u64),
    Refs(&'static [(&'static u64, u64)], u64),
}
struct Job {
    arena: Option<SyntaxArena>,
    items: Vec<Item>,
    meta: Vec<(NonZeroU32, TokenProvenance)>,
    spans: Vec<usize>,
    bytes: usize,
    name: u64,
}
type Live = Arc<Mutex<BTreeMap<usize, (usize, u64)>>>;
impl Job {
    fn arena(&self) -> &'static SyntaxArena {
        // Items live as long as the arena and are dropped with it.
        unsafe { &*(self.arena.as_ref().unwrap() as *const _) }
    }
    fn place(&mut self, live: &Live, at: usize, len: usize) {
        self.bytes += len + 8;
        check!(at % 8 == 0 || len < 8, "alignment", "{len} bytes at {at:#x} in arena {}", self.name);
        if len == 0 {
            return;
        }
        let mut l = live.lock().unwrap();
        if let Some((a, (b, n))) = l.range(..at + len).next_back() {
            check!(*b <= at, "overlap", "{len} bytes of arena {} at {at:#x} overlap {a:#x}..{b:#x} of arena {n}", self.name)
        }
        l.insert(at, (at + len, self.name));
        self.spans.push(at)
    }
    fn check(&self) {
        for i in &self.items {
            let ok = match i {
                Item::Bytes(s, b) => *s == &vec![*b; s.len()][..],
                Item::Words(s, b) => *s == &vec![*b; s.len()][..],
                Item::Word(w, b) => **w == *b,
                Item::Triple(w, b) => **w == [*b, *b + 1, *b + 2],
                Item::Refs(s, b) => s.iter().all(|(w, c)| **w == *b && *c == *b + 1),
            };
            let n = match i {
                Item::Bytes(s, _) => s.len(),
                Item::Words(s, _) => s.len() * 4,
                Item::Refs(s, _) => s.len() * 16,
                Item::Word(..) => 8,
                Item::Triple(..) => 24,
            };
            check!(ok, "contents", "{n} bytes in arena {} were overwritten", self.name)
        }
        for (k, p) in &self.meta {
            let got = self.arena().get_metadata(*k);
            check!(got == Some(p), "metadata", "metadata {k} of arena {} is {got:?} instead of {p:?}", self.name)
        }
    }
    fn end(mut self, live: &Live) {
        self.check();
        self.items.clear();
        let mut l = live.lock().unwrap();
        for s in &self.spans {
            l.remove(s);
        }
        drop(l);
        drop(self.arena.take())
    }
    /// Chunks that the arena may hold at most: two that follow each other hold more than one chunk's bytes.
    /// A long list of metadata is a block of its own, and so is the harness's copy of it.
    fn chunks(&self) -> i64 {
        let lists = if self.meta.len() > 500 { 2 } else { 0 };
        lists + if self.bytes == 0 { 0 } else { 2 * (self.bytes as i64 / 65536) + 2 }
    }
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap();
    let base = alloc::stats();
    let live: Live = Default::default();
    let shared: Arc<Mutex<Vec<Job>>> = Default::default();
    let hs: Vec<_> = c
        .threads
        .into_iter()
        .enumerate()
        .map(|(t, ops)| {
            let (live, shared) = (live.clone(), shared.clone());
            simrt::spawn(move || {
                let mut own: Vec<Job> = vec![];
                let mut n = (t as u64 + 1) << 32;
                for op in ops {
                    n += 7;
                    ev!("{op:?}");
                    match op {
                        Op::New(c) => {
                            own.push(Job { arena: Some(SyntaxArena::new(c)), items: vec![], meta: vec![], spans: vec![], bytes: 0, name: n });
                            continue;
                        }
                        Op::Take => {
                            let j = shared.lock().unwrap().pop();
                            if let Some(j) = j {
                                simrt::probe("arena:moved between threads");
                                j.check();
                                own.push(j)
                            }
                            continue;
                        }
                        _ => (),
                    }
                    let Some(mut j) = own.pop() else { continue };
                    let a = j.arena();
                    match op {
                        Op::Byte => {
                            let p: &'static u8 = a.alloc(n as u8);
                            j.items.push(Item::Bytes(std::slice::from_ref(p), n as u8));
                            j.place(&live, p as *const _ as usize, 1)
                        }
                        Op::Word => {
                            let p: &'static u64 = a.alloc(n);
                            j.items.push(Item::Word(p, n));
                            j.place(&live, p as *const _ as usize, 8)
                        }
                        Op::Triple => {
                            let p: &'static [u64; 3] = a.alloc([n, n + 1, n + 2]);
                            j.items.push(Item::Triple(p, n));
                            j.place(&live, p as *const _ as usize, 24)
                        }
                        Op::Slice(len) => {
                            let p: &'static [u8] = a.alloc_slice_copy(&vec![n as u8; len][..]);
                            check!(p.len() == len, "length", "slice of {} instead of {len}", p.len());
                            j.place(&live, p.as_ptr() as usize, len);
                            j.items.push(Item::Bytes(p, n as u8))
                        }
                        Op::Words(len) => {
                            let p: &'static [u32] = a.alloc_slice_copy(&vec![n as u32; len][..]);
                            check!(p.len() == len, "length", "slice of {} instead of {len}", p.len());
                            j.place(&live, p.as_ptr() as usize, len * 4);
                            j.items.push(Item::Words(p, n as u32))
                        }
                        Op::Fill(len, more, nested) => {
                            let single: &'static u64 = a.alloc(n);
                            j.place(&live, single as *const _ as usize, 8);
                            let mut at = vec![];
                            let p: &'static [(&'static u64, u64)] = a.alloc_slice_fill_iter(
                                len,
                                (0..len + more).map(|k| {
                                    let r: &'static u64 = if nested && k < 30 { a.alloc(n) } else { single };
                                    if !std::ptr::eq(r, single) {
                                        at.push(r as *const _ as usize)
                                    }
                                    (r, n + 1)
                                }),
                            );
                            check!(p.len() == len, "length", "slice of {} instead of {len}", p.len());
                            j.place(&live, p.as_ptr() as usize, len * 16);
                            for k in at {
                                j.place(&live, k, 8)
                            }
                            j.items.push(Item::Refs(p, n))
                        }
                        Op::Meta(k) => {
                            let p = TokenProvenance { parts: vec![ProvenancePart::Source(Range { start: n as usize, end: n as usize + k }); k] };
                            let i = a.add_metadata(p.clone());
                            check!(i.get() as usize == j.meta.len() + 1, "metadata", "metadata {} got the index {i}", j.meta.len() + 1);
                            j.meta.push((i, p))
                        }
                        Op::Metas(k) => {
                            for _ in 0..k {
                                let p = TokenProvenance { parts: vec![] };
                                let i = a.add_metadata(p.clone());
                                check!(i.get() as usize == j.meta.len() + 1, "metadata", "metadata {} got the index {i}", j.meta.len() + 1);
                                j.meta.push((i, p))
                            }
                        }
                        Op::Check => j.check(),
                        Op::Pass => {
                            shared.lock().unwrap().push(j);
                            continue;
                        }
                        _ => {
                            simrt::state(j.bytes as u64);
                            j.end(&live);
                            continue;
                        }
                    }
                    own.push(j)
                }
                // What is left ends with some other thread, or with this one.
                for (k, j) in own.into_iter().enumerate() {
                    if k % 2 == 0 { shared.lock().unwrap().push(j) } else { j.end(&live) }
                }
            })
        })
        .collect();
    for h in hs {
        simrt::join(h)
    }
    let left = std::mem::take(&mut *shared.lock().unwrap());
    let max: i64 = left.iter().map(|j| j.chunks()).sum();
    let now = alloc::stats().big_blocks - base.big_blocks;
    check!(now <= max, "memory", "{now} chunks are held for arenas that need at most {max}, after all other threads ended");
    if left.len() > 0 {
        simrt::probe("arena:outlives its thread")
    }
    let l = live.clone();
    simrt::join(simrt::spawn(move || {
        for j in left {
            j.end(&l)
        }
        let now = alloc::stats().big_blocks - base.big_blocks;
        check!(now <= 64, "memory", "a thread without arenas holds {now} chunks");
        if now == 64 {
            simrt::probe("arena:pool full")
        }
    }));
    let now = alloc::stats().big_blocks - base.big_blocks;
    check!(now == 0, "memory", "{now} chunks are left after all arenas and threads ended")
}
pub static ARENAS: Scenario = Scenario { name: "arenas", about: "Arenas of several threads grow, are handed on and dropped", make, run };

// ---- sessions ----
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Long {
    lang: String,
    text: String,
    /// Replaced back and forth: start, length, new text
    edit: (usize, usize, String),
    parses: usize,
    threads: usize,
    /// Every n-th parse uses a session of its own.
    other: usize,
}
fn make_long(r: &mut Rng, thorough: bool) -> Value {
    let lang = if r.chance(600) { r.pick(&["json", "rust", "python", "von", "mojo"]).to_string() } else { langs::any(r) };
    let text = docs::soup(r, &lang, 150);
    let (a, b) = docs::span(r, &text, 10);
    let t = docs::soup(r, &lang, 12);
    let c = Long { lang, edit: (a, b - a, t), text, parses: if thorough { 300 } else { 160 }, threads: if r.chance(600) { 1 } else { 2 }, other: if r.chance(700) { 0 } else { r.range(2, 5) as usize } };
    json!({"cfg": simrt::make_cfg(r, c.threads > 1, &[]), "w": c})
}
fn run_long(w: &Value) {
    let c: Long = serde_json::from_value(w.clone()).unwrap();
    let l: &'static dyn crate::lang::Lang = Box::leak(langs::get(&c.lang));
    let start = docs::floor(&c.text, c.edit.0);
    let end = docs::floor(&c.text, c.edit.0 + c.edit.1).max(start);
    let other = format!("{}{}{}", &c.text[..start], c.edit.2, &c.text[end..]);
    let ok = simrt::sched::tolerant(400_000, || {
        [&c.text, &other].into_iter().all(|t| {
            let src = source(t, 0, 0);
            simrt::attempt(|| l.session(16).parse(&*src, &[])).is_ok()
        })
    });
    if !ok {
        return;
    }
    let base = alloc::stats();
    // (session, parses so far, memory after a parse of each text when half was done)
    let shared = Arc::new(Mutex::new((l.session(16), 0usize, [None::<alloc::AllocStats>; 2])));
    let text = Arc::new([c.text.clone(), other]);
    let hs: Vec<_> = (0..c.threads.max(1))
        .map(|_| {
            let (shared, text, c) = (shared.clone(), text.clone(), c.clone());
            simrt::spawn(move || {
                loop {
                    {
                        let mut g = shared.lock().unwrap();
                        let n = g.1;
                        if n >= c.parses {
                            break;
                        }
                        g.1 += 1;
                        let k = n % 2;
                        let e = if k == 1 { TextEdit { span: Range { start, end }, text: c.edit.2.clone().into() } } else { TextEdit { span: Range { start, end: start + c.edit.2.len() }, text: c.text[start..end].to_string().into() } };
                        let src = source(&text[k], 0, 0);
                        let edits = if n == 0 { vec![] } else { vec![e] };
                        let r = simrt::attempt(|| drop(g.0.parse(&*src, &edits)));
                        if let Err(p) = r {
                            // The properties I01 and I02 judge this.
                            ev!("panic {}", p.msg);
                            g.1 = usize::MAX;
                            break;
                        }
                        if c.other > 0 && n % c.other == 0 {
                            let _ = simrt::attempt(|| drop(l.session(1).parse(&*src, &[])));
                        }
                        drop((src, edits));
                        let s = alloc::stats();
                        let small = |s: &alloc::AllocStats| s.live_bytes - s.big_bytes;
                        if c.threads <= 1 {
                            match g.2[k] {
                                None if n > 12 => g.2[k] = Some(s),
                                Some(f) if n + 2 >= c.parses => {
                                    check!(s.big_blocks <= f.big_blocks + 1, "memory", "a session holds {} chunks after {n} parses, but {} before", s.big_blocks - base.big_blocks, f.big_blocks - base.big_blocks);
                                    check!(small(&s) <= small(&f) + 512, "memory", "a session uses {} bytes more after {n} parses of the same texts", small(&s) - small(&f));
                                    simrt::probe("arena:long session")
                                }
                                _ => (),
                            }
                        }
                    }
                    std::thread::yield_now()
                }
            })
        })
        .collect();
    for h in hs {
        simrt::join(h)
    }
    let s = alloc::stats();
    check!(s.big_blocks - base.big_blocks <= 8, "memory", "a session of a text of {} bytes holds {} chunks after {} parses by threads that ended", c.text.len(), s.big_blocks - base.big_blocks, c.parses);
    simrt::join(simrt::spawn(move || drop(shared)));
    let s = alloc::stats();
    check!(s.big_blocks <= base.big_blocks, "memory", "{} chunks are left after the session ended", s.big_blocks - base.big_blocks);
    simrt::state(simrt::rng::hash_str(&c.text))
}
pub static SESSIONS: Scenario = Scenario { name: "session-memory", about: "A session parses two texts in turn very often, on one or two threads", make: make_long, run: run_long };
