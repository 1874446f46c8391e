//! L01: the answers a language service gives by default.
use crate::mcp::slow;
use core::range::Range;
use oak_core::{
    Lexer, TextEdit,
    language::{ElementType, Language, TokenType, UniversalElementRole, UniversalTokenRole},
    lexer::{LexOutput, LexerCache, LexerState},
    parser::{ParseSession, ParserState},
    source::Source,
    tree::RedNode,
};
use oak_lsp::{LanguageService, WorkspaceManager, types::InitializeParams};
use oak_symbols::SymbolInformation;
use oak_vfs::{DiskVfs, MemoryVfs, Vfs, WritableVfs};
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, aio, check, ev, fs, json, sched};
use std::{

    future::Future,
    path::PathBuf,
    sync::{Arc, Mutex},
};

// ---- a small language: words, blanks, references (words beginning with r), groups (words beginning with g) ----
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Tok {
    Space,
    Word,
    Ref,
    Group,
    Eof,
}
impl TokenType for Tok {
    const END_OF_STREAM: Self = Tok::Eof;
    type Role = UniversalTokenRole;
    fn role(&self) -> Self::Role {
        UniversalTokenRole::None
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum El {
    Root,
    Ref,
    Group,
    Leaf,
}
impl ElementType for El {
    type Role = UniversalElementRole;
    fn role(&self) -> Self::Role {
        match self {
            El::Ref => UniversalElementRole::Reference,
            El::Group => UniversalElementRole::Container,
            _ => UniversalElementRole::None,
        }
    }
}
impl From<Tok> for El {
    fn from(_: Tok) -> El {
        El::Leaf
    }
}
#[derive(Clone, Debug)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = Tok;
    type ElementType = El;
    type TypedRoot = ();
}
struct ToyLexer;
impl Lexer<Toy> for ToyLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, _edits: &[TextEdit], _cache: &'a mut impl LexerCache<Toy>) -> LexOutput<Toy> {
        let mut s = LexerState::<S, Toy>::new(text);
        while let Some(c) = s.peek() {
            let a = s.get_position();
            s.take_while(|x| (x == ' ') == (c == ' '));
            s.add_token(
                match c {
                    ' ' => Tok::Space,
                    'r' => Tok::Ref,
                    'g' => Tok::Group,
                    _ => Tok::Word,
                },
                a,
                s.get_position(),
            )
        }
        s.add_eof();
        s.finish(Ok(()))
    }
}
fn toy_parse<S: Source + ?Sized>(text: &S) -> Option<RedNode<'static, Toy>> {
    let text = text.get_text_in((0..text.length()).into()).into_owned();
    let text: &'static oak_core::source::SourceText = Box::leak(Box::new(oak_core::source::SourceText::new(text)));
    let session: &'static mut ParseSession<Toy> = Box::leak(Box::default());
    let out = oak_core::parser::parse_with_lexer(&ToyLexer, text, &[], session, |s: &mut ParserState<'_, Toy, _>| {
        let all = s.checkpoint();
        while s.not_at_end() {
            let cp = s.checkpoint();
            let k = s.current().map(|t| t.kind);
            s.bump();
            match k {
                Some(Tok::Ref) => drop(s.finish_at(cp, El::Ref)),
                Some(Tok::Group) => drop(s.finish_at(cp, El::Group)),
                _ => {}
            }
        }
        Ok(s.finish_at(all, El::Root))
    });
    out.result.ok().map(|g| RedNode::new(g, 0))
}
struct Svc<V> {
    vfs: V,
    ws: WorkspaceManager,
}
impl<V: WritableVfs> LanguageService for Svc<V> {
    type Lang = Toy;
    type Vfs = V;
    fn vfs(&self) -> &V {
        &self.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.ws
    }
    fn get_root(&self, uri: &str) -> impl Future<Output = Option<RedNode<'_, Toy>>> + Send + '_ {
        let uri = uri.to_string();
        async move {
            slow().await;
            let r = self.vfs.get_source(&uri).and_then(|s| toy_parse(&s));
            slow().await;
            r
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    /// 0 rewrite a file of one's own, 1 remove it, 2 replace its symbols, 3 with_roots, 4 with_root, 5 document symbols,
    /// 6 workspace symbols, 7 definition, 8 list files
    k: u32,
    f: usize,
    c: u32,
    many: Vec<usize>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    threads: Vec<Vec<Step>>,
    /// Files that exist at the start, with symbols.
    initial: Vec<usize>,
    /// Modules on the disk: beside the referring file (0..2), in the first folder (3..5), in the second (6..8)
    modules: Vec<u32>,
    /// Files below the listed directory: depth-first names
    tree: Vec<u32>,
}
const N: usize = 5;
fn uri(f: usize) -> String {
    format!("file:///ws/src/f{f}.toy")
}
const REFS: &str = "file:///ws/src/refs.toy";
/// Words of the referring file; the r-words are looked up.
static REF_TEXT: &str = "word ra  rb gx rc rmod1 r.mod2 é rmod0 r/./mod end";
fn text(f: usize, c: u32) -> String {
    // Lengths are unique per (file, c).
    format!("f{f} r{c} {}", "x".repeat(N * c as usize + f))
}
fn len_of(f: usize, c: u32) -> usize {
    text(f, c).len()
}
fn symbols(f: usize, c: u32) -> Vec<SymbolInformation> {
    let sym = |name: &str, container: Option<&str>, k: usize| SymbolInformation {
        name: name.into(),
        role: if k % 2 == 0 { UniversalElementRole::Definition } else { UniversalElementRole::Statement },
        uri: uri(f).as_str().into(),
        range: (c as usize * 10 + k..c as usize * 10 + k + 3).into(),
        container_name: container.map(|c| c.into()),
    };
    let mut v = vec![];
    for (k, n) in ["ra", "rb", "rc", "other", "", "rmod1", "r.mod2"].iter().enumerate() {
        if k != 4 && (c >> k) & 1 == 1 {
            v.push(sym(n, if (c >> 4) & 1 == 1 && k != 1 { Some("box") } else { None }, k))
        }
    }
    v
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let n = r.range(1, 3) as usize;
    let mut c = 0;
    let threads = (0..n)
        .map(|_| {
            (0..r.range(2, if thorough { 16 } else { 9 }))
                .map(|_| {
                    c += 1;
                    Step {
                        k: *r.pick(&[0u32, 0, 1, 2, 2, 3, 3, 3, 4, 5, 5, 6, 7, 7, 7, 8]),
                        f: r.below(N as u64) as usize,
                        c: c + 37 * r.below(3) as u32,
                        many: (0..if r.chance(100) { r.range(7, 60) } else { r.below(7) }).map(|_| r.below(N as u64 + 1) as usize).collect(),
                    }
                })
                .collect()
        })
        .collect();
    let c = Case {
        threads,
        initial: (0..N).filter(|_| r.chance(650)).collect(),
        modules: (0..9).filter(|_| r.chance(300)).collect(),
        tree: {
            let files = if r.chance(150) { r.range(14, 200) } else { 0 };
            let at = r.below(10);
            (0..r.below(14)).map(|_| r.below(6) as u32).enumerate().flat_map(|(i, k)| std::iter::repeat_n(3, if i as u64 == at { files as usize } else { 0 }).chain([k]).collect::<Vec<_>>()).collect()
        },
    };
    let f = &[(Fault::TaskPending, 600), (Fault::TaskCancel, 40), (Fault::StatErr, 60), (Fault::DirErr, 60), (Fault::OpenErr, 60), (Fault::IoDelay, 60)];
    json!({"cfg": simrt::make_cfg(r, true, f), "w": c})
}
/// Versions of something: (value, begun, done); the last of those begun before a moment may be current then.
type Versions<T> = Vec<(T, u64, u64)>;
fn possible<T: Clone>(v: &Versions<T>, from: u64, to: u64) -> Vec<T> {
    let mut out = vec![];
    for (i, x) in v.iter().enumerate() {
        if x.1 <= to && v.get(i + 1).is_none_or(|n| n.2 >= from) {
            out.push(x.0.clone())
        }
    }
    out
}
struct World {
    files: Vec<Mutex<Versions<Option<u32>>>>,
    syms: Vec<Mutex<Versions<u32>>>,
    mem: Svc<MemoryVfs>,
    disk: Svc<DiskVfs>,
    listed: Vec<String>,
}
impl World {
    fn change<T>(v: &Mutex<Versions<T>>, x: T, f: impl FnOnce()) {
        v.lock().unwrap().push((x, sched::seq(), u64::MAX));
        f();
        let now = sched::seq();
        v.lock().unwrap().last_mut().unwrap().2 = now
    }
    fn files(&self, f: usize, from: u64, to: u64) -> Vec<Option<u32>> {
        if f >= N {
            return vec![None];
        }
        possible(&self.files[f].lock().unwrap(), from, to)
    }
    fn syms(&self, f: usize, from: u64, to: u64) -> Vec<u32> {
        possible(&self.syms[f].lock().unwrap(), from, to)
    }
}
fn same(a: &SymbolInformation, name: &str, u: &str, r: Range<usize>, container: &Option<String>) -> bool {
    a.name == name && &*a.uri == u && a.range == r && a.container_name == *container
}
fn go<T>(f: impl Future<Output = T>) -> Option<T> {
    let r = aio::block_on_cancel(f).ok();
    if r.is_none() {
        simrt::probe("service:call cancelled")
    }
    r
}
fn worker(t: usize, n: usize, steps: Vec<Step>, w: &'static World, modules: &[u32]) {
    let s = &w.mem;
    for st in steps {
        let own = (0..N).filter(|f| f % n == t).nth(st.f % (N / n).max(1)).unwrap_or(t);
        let from = sched::seq();
        match st.k {
            0 => World::change(&w.files[own], Some(st.c), || s.vfs.write_file(&uri(own), text(own, st.c))),
            1 => World::change(&w.files[own], None, || s.vfs.remove_file(&uri(own))),
            2 => World::change(&w.syms[own], st.c, || s.ws.symbols.update_file_symbols(uri(own), symbols(own, st.c))),
            3 => {
                let calls = Arc::new(Mutex::new(0));
                let uris: Vec<String> = st.many.iter().map(|f| uri(*f)).collect();
                let c2 = calls.clone();
                let Some(got) = go(s.with_roots(uris, move |root| {
                    *c2.lock().unwrap() += 1;
                    (root.span().start, root.span().end)
                }))
                else { continue };
                let to = sched::seq();
                ev!("with_roots {:?}: {got:?}", st.many);
                check!(*calls.lock().unwrap() == got.len(), "called too often", "{} results of {} calls", got.len(), calls.lock().unwrap());
                let mut g = got.iter().peekable();
                for f in &st.many {
                    let may = w.files(*f, from, to);
                    match g.peek() {
                        Some((0, e)) if may.iter().any(|m| m.is_some_and(|c| len_of(*f, c) == *e)) => drop(g.next()),
                        x => check!(may.contains(&None), "roots missing or out of order", "file {f} of {:?} has {may:?}, the next result is {x:?} of {got:?}", st.many),
                    }
                }
                check!(g.peek().is_none(), "roots missing or out of order", "{:?} gave {got:?}, too many from {:?}", st.many, g.peek());
                if got.len() > 1 {
                    simrt::probe("service:several roots")
                }
            }
            4 => {
                let u = uri(st.f);
                let Some(got) = go(s.with_root(&u, |root| root.span().end)) else { continue };
                let may = w.files(st.f, from, sched::seq());
                ev!("with_root {}: {got:?}", st.f);
                check!(may.iter().any(|m| m.map(|c| len_of(st.f, c)) == got), "wrong root", "file {}: a tree of {got:?} bytes, possible are {may:?}", st.f);
            }
            5 => {
                let u = uri(st.f);
                let Some(got) = go(s.document_symbols(&u)) else { continue };
                let to = sched::seq();
                let (files, syms) = (w.files(st.f, from, to), w.syms(st.f, from, to));
                ev!("document_symbols {}: {}", st.f, got.len());
                let is = |c: &u32| {
                    let want = symbols(st.f, *c);
                    want.len() == got.len() && want.iter().zip(&got).all(|(a, b)| a.name == b.name && a.range == b.range && a.role == b.role && b.selection_range.start >= a.range.start && b.selection_range.end <= a.range.end)
                };
                let ok = got.is_empty() && files.contains(&None) || files.iter().any(|f| f.is_some()) && syms.iter().any(is);
                check!(ok, "wrong document symbols", "file {} ({files:?}, symbols {syms:?}): {got:?}", st.f)
            }
            6 => {
                let q = ["r", "rb", "box", "", "box::r", "nothing"][st.c as usize % 6];
                let Some(got) = go(s.workspace_symbols(q.into())) else { continue };
                let to = sched::seq();
                ev!("workspace_symbols {q}: {}", got.len());
                let matches = |a: &SymbolInformation| format!("{}{}", a.container_name.as_ref().map(|c| format!("{c}::")).unwrap_or_default(), a.name).contains(q);
                let mut sure = vec![];
                let mut may = vec![];
                for f in 0..N {
                    let v = w.syms(f, from, to);
                    if v.len() == 1 {
                        sure.extend(symbols(f, v[0]).into_iter().filter(matches))
                    }
                    for c in v {
                        may.extend(symbols(f, c).into_iter().filter(matches))
                    }
                }
                for g in &got {
                    check!(may.iter().any(|a| same(a, &g.name, &g.location.uri, g.location.range, &g.container_name)), "wrong workspace symbols", "{q:?} found {g:?}, which no file defines")
                }
                for a in &sure {
                    let n = got.iter().filter(|g| same(a, &g.name, &g.location.uri, g.location.range, &g.container_name)).count();
                    check!(n == 1, "wrong workspace symbols", "{q:?} found {a:?} {n} times")
                }
            }
            7 => {
                let words: Vec<(usize, &str)> = REF_TEXT.split(' ').filter(|w| !w.is_empty()).map(|w| (w.as_ptr() as usize - REF_TEXT.as_ptr() as usize, w)).collect();
                let k = st.c as usize % (words.len() + 2);
                let (at, word) = words.get(k).copied().unwrap_or(if k == words.len() { (4, " ") } else { (REF_TEXT.len() + 3, "") });
                let ev0 = sched::seq();
                let Some(got) = go(s.definition(REFS, (at..at + word.len()).into())) else { continue };
                let to = sched::seq();
                let bad = simrt::hard_fault_since(ev0);
                let got: Vec<(String, Range<usize>)> = got.into_iter().map(|l| (l.uri.to_string(), l.range)).collect();
                ev!("definition of {word:?}: {got:?}");
                if !word.starts_with('r') {
                    let own: Vec<(String, Range<usize>)> = if word.starts_with('g') || word.is_empty() { vec![] } else if word == " " { vec![(REFS.into(), (4..5).into())] } else { vec![(REFS.into(), (at..at + word.len()).into())] };
                    check!(got == own, "wrong definition", "{word:?} at {at}: {got:?} instead of {own:?}");
                    continue;
                }
                let mut may = vec![];
                let mut sure = false;
                for f in 0..N {
                    let v = w.syms(f, from, to);
                    let has = |c: &u32| symbols(f, *c).iter().any(|a| a.name == word && a.container_name.is_none());
                    sure |= v.iter().all(has);
                    for c in &v {
                        may.extend(symbols(f, *c).into_iter().filter(|a| a.name == word && a.container_name.is_none()).map(|a| (uri(f), a.range)))
                    }
                }
                let num = MODULES.iter().position(|m| *m == word).map(|m| m as u32);
                let cands: Vec<(String, Range<usize>)> = num
                    .map(|m| (0..3).filter(|d| modules.contains(&(d * 3 + m))).map(|d| (format!("file://{}/{word}", MODULE_DIRS[d as usize]), (0..0).into())).collect())
                    .unwrap_or_default();
                let ok = match &got[..] {
                    [x] if may.contains(x) => true,
                    _ if sure => false,
                    [x] => cands.first() == Some(x) || bad && cands.contains(x),
                    [] => cands.is_empty() || bad,
                    _ => false,
                };
                check!(ok, "wrong definition", "{word:?}: {got:?}; symbols {may:?}, modules {cands:?}, faults {bad}")
            }
            _ => {
                let d = &w.disk;
                let root = ["/ws/list", "", "/ws/list/sub0", "/ws/list/none"][st.c as usize % 4];
                let f0 = sched::seq();
                let Some(mut got) = go(d.list_all_files(root)) else { continue };
                let failed = simrt::failed_paths_since(f0);
                got.sort();
                ev!("list_all_files {root}: {}", got.len());
                let full = if root.is_empty() { "/ws/list" } else { root };
                let want: Vec<&String> = w.listed.iter().filter(|p| *p == full || p.starts_with(&format!("{full}/"))).collect();
                let abs: Vec<String> = got.iter().map(|g| if g.starts_with('/') { g.clone() } else { format!("/ws/list/{g}") }).collect();
                let mut once = abs.clone();
                once.sort();
                once.dedup();
                check!(once.len() == abs.len(), "file listed twice", "{got:?}");
                check!(once.iter().all(|p| want.binary_search(&p).is_ok()), "listed what is no file", "{root:?}: {once:?}, on disk {want:?}");
                // What cannot be read is left out with all that is below it, and nothing else is.
                let hidden = |p: &str| failed.iter().map(|f| f.trim_end_matches('/')).any(|f| p == f || p.starts_with(&format!("{f}/")));
                for p in want {
                    check!(once.contains(p) || hidden(p), "file not listed", "{root:?}: {p:?} is missing in {once:?}; calls failed at {failed:?}")
                }
                if once.len() > 100 {
                    simrt::probe("service:many files listed")
                }
            }
        }
    }
}
const MODULES: [&str; 3] = ["rmod0", "rmod1", "r.mod2"];
const MODULE_DIRS: [&str; 3] = ["/ws/src", "/ws/one", "/ws/two"];
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    for d in MODULE_DIRS {
        fs::mkdirs(d)
    }
    for m in &c.modules {
        fs::put(&format!("{}/{}", MODULE_DIRS[*m as usize / 3], MODULES[*m as usize % 3]), b"")
    }
    fs::mkdirs("/ws/list");
    let mut listed = vec![];
    let mut dir = "/ws/list".to_string();
    for (n, k) in c.tree.iter().enumerate() {
        match k {
            0 => {
                dir = format!("{dir}/sub{n}");
                fs::mkdirs(&dir)
            }
            1 => {
                if dir != "/ws/list" {
                    dir.truncate(dir.rfind('/').unwrap())
                }
            }
            2 if n == 0 || !listed.contains(&"/ws/list/sub0".to_string()) => {
                dir = "/ws/list/sub0".into();
                fs::mkdirs(&dir)
            }
            _ => {
                let p = format!("{dir}/é{n}.toy");
                fs::put(&p, b"x");
                listed.push(p)
            }
        }
    }
    listed.sort();
    let ws = WorkspaceManager::new();
    let folder = |d: &str| oak_lsp::types::WorkspaceFolder { uri: format!("file://{d}"), name: d.into() };
    ws.initialize(&InitializeParams { root_uri: Some("file:///ws/one".into()), workspace_folders: vec![folder("/ws/two")] });
    let mem = Svc { vfs: MemoryVfs::new(), ws };
    mem.vfs.write_file(REFS, REF_TEXT);
    let disk = Svc { vfs: DiskVfs::new(PathBuf::from("/ws/list")), ws: WorkspaceManager::new() };
    let world: &'static World = Box::leak(Box::new(World {
        files: (0..N).map(|_| Mutex::new(vec![(None, 0, 0)])).collect(),
        syms: (0..N).map(|_| Mutex::new(vec![(0, 0, 0)])).collect(),
        mem,
        disk,
        listed,
    }));
    for f in &c.initial {
        let k = 30 + *f as u32;
        World::change(&world.files[*f], Some(k), || world.mem.vfs.write_file(&uri(*f), text(*f, k)));
        World::change(&world.syms[*f], k, || world.mem.ws.symbols.update_file_symbols(uri(*f), symbols(*f, k)))
    }
    let n = c.threads.len();
    let mut js = vec![];
    for (t, steps) in c.threads.iter().cloned().enumerate() {
        let m = c.modules.clone();
        js.push(simrt::spawn(move || worker(t, n, steps, world, &m)))
    }
    for j in js {
        simrt::join(j)
    }
}
pub static SERVICE: Scenario = Scenario { name: "service", about: "default answers of a language service while files and symbols change", make, run };
