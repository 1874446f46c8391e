//! T01: the file-driven test runners of oak-testing on a simulated disk.
use oak_core::{
    Builder, Lexer, Parser, TextEdit, TokenType,
    builder::{BuildOutput, BuilderCache},
    errors::{OakError, OakErrorKind},
    lexer::{LexOutput, LexerCache},
    parser::{ParseCache, ParseOutput, ParseSession},
    source::{Source, SourceText},
    tree::{GreenNode, GreenTree},
};
use oak_json::{JsonBuilder, JsonLanguage, JsonLexer, JsonParser};
use oak_testing::{building::BuilderTester, lexing::LexerTester, parsing::ParserTester};
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, fs, json, sched};
use std::{
    collections::BTreeMap,
    path::{Path, PathBuf},
    sync::Mutex,
    time::Duration,
};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct File {
    dir: usize,
    /// Index into EXTS.
    ext: usize,
    doc: u32,
    /// Per tester kind (lexer, parser, builder): 0, 1 right expectation, 2 wrong, 3 missing, 4 not JSON, 5 JSON of another shape,
    /// 6 right under the old name, 7 wrong under the old name, 8 right, and wrong under the old name
    state: [u8; 3],
    /// How the expectation is wrong.
    twist: u32,
    /// 0 at once, 1 a quarter of the timeout, 2 beyond the timeout, 3 panic
    pace: u8,
    link: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    files: Vec<File>,
    /// Kinds of the testers that run at the same time.
    kinds: Vec<u8>,
    /// Configured extensions.
    exts: Vec<usize>,
    /// None: the default of ten seconds
    timeout_ms: Option<u64>,
    force: bool,
    /// `REGENERATE_TESTS` is not set at all, when it is not to ask for anything.
    #[serde(default)]
    unset: bool,
    crash: bool,
    missing_root: bool,
}
const DIRS: [&str; 4] = ["", "sub/", "sub/deep é/", "d.json/"];
const EXTS: [&str; 4] = ["json", "jsonc", "tst", "x"];
const ROOT: &str = "/work/tests";
const SUFFIX: [&str; 3] = ["lexed", "parsed", "built"];

fn doc(d: u32) -> String {
    let n = d / 8;
    match d % 8 {
        0 => format!("{{\"id\": {n}}}"),
        1 => format!("[{n}, true, null, \"é\\n\", -1.5]\n"),
        2 => format!("{{\"id\": {n}, \"a\": [1, {{}}, []]}}"),
        3 => format!("{{\"id\": {n}, "),
        4 => format!("[{n}, ?, 中"),
        5 => format!("// {n}\n{{\"x\": 2}}"),
        6 => format!("  {n}  "),
        _ => format!("{{\"long\": \"{}\", \"n\": [{}]}}", "y".repeat(n as usize * 3), "1, ".repeat(n as usize) + "2"),
    }
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let kinds = if r.chance(700) { vec![r.below(3) as u8] } else { [vec![0, 1], vec![1, 2], vec![0, 2], vec![0, 1, 2]][r.below(4) as usize].clone() };
    let many = kinds.len() > 1;
    let clean = r.chance(400);
    let slow = r.chance(250);
    let files = (0..r.range(1, if thorough { 8 } else { 5 }))
        .map(|_| {
            let mut st = || match r.below(if clean { 12 } else { 20 }) {
                0..=8 => 1,
                9..=10 => 8,
                11 => {
                    if many {
                        1
                    }
                    else {
                        6
                    }
                }
                12..=13 => 2,
                14..=16 => 3,
                17 => 4,
                18 => 5,
                _ => {
                    if many {
                        2
                    }
                    else {
                        7
                    }
                }
            };
            let state = [st(), st(), st()].map(|s| if many && s == 8 { 1 } else { s });
            File {
                dir: r.below(4) as usize,
                ext: r.below(3) as usize,
                doc: r.below(8 * 9) as u32,
                state,
                twist: r.below(1 << 16) as u32,
                pace: if slow && r.chance(400) { *r.pick(&[1u8, 1, 2, 2, 3]) } else { 0 },
                link: r.chance(60),
            }
        })
        .collect();
    let crash = r.chance(80);
    let mut f = vec![
        (Fault::OpenErr, 80),
        (Fault::OpenEintr, 200),
        (Fault::ReadErr, 80),
        (Fault::ReadEintr, 400),
        (Fault::ReadShort, 700),
        (Fault::WriteErr, 150),
        (Fault::WriteEintr, 400),
        (Fault::WriteShort, 700),
        (Fault::NoSpace, 150),
        (Fault::StatErr, 60),
        (Fault::DirErr, 60),
        (Fault::MkdirErr, 60),
        (Fault::AcquireErr, 200),
        (Fault::IoDelay, 100),
        (Fault::ClockFwd, 50),
        (Fault::ClockBack, 50),
    ];
    if crash {
        f.push((Fault::Crash, 30))
    }
    let c = Case {
        files,
        kinds,
        exts: r.pick(&[vec![0], vec![0, 1], vec![2], vec![0, 1, 2], vec![1, 2, 3]]).clone(),
        timeout_ms: if r.chance(300) { None } else { Some(*r.pick(&[40u64, 300, 5000])) },
        force: r.chance(200),
        unset: r.chance(500),
        crash,
        missing_root: r.chance(20),
    };
    json!({"cfg": simrt::make_cfg(r, true, &f), "w": c})
}

// ---- the code under test of the testers ----
/// Text -> (nanoseconds, panics)
static PACE: Mutex<BTreeMap<String, (u64, bool)>> = Mutex::new(BTreeMap::new());
/// Texts given to (kind, text), with the time each took.
static SEEN: Mutex<Vec<(u8, String, u64)>> = Mutex::new(vec![]);
fn dawdle<S: Source + ?Sized>(kind: u8, s: &S) {
    let text = s.get_text_in((0..s.length()).into()).into_owned();
    let p = PACE.lock().unwrap().get(&text).copied();
    let (ns, bad) = p.unwrap_or((0, false));
    SEEN.lock().unwrap().push((kind, text, ns));
    if ns > 0 {
        std::thread::sleep(Duration::from_nanos(ns))
    }
    if bad {
        panic!("injected: the code under test panics")
    }
}
static CONFIG: JsonLanguage = JsonLanguage { trailing_comma: false, bare_keys: false, single_quotes: false, comments: true, hex_numbers: false, infinity_and_nan: false };
#[derive(Clone)]
struct SlowLexer;
impl Lexer<JsonLanguage> for SlowLexer {
    fn lex<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl LexerCache<JsonLanguage>) -> LexOutput<JsonLanguage> {
        dawdle(0, text);
        JsonLexer::new(&CONFIG).lex(text, edits, cache)
    }
}
struct SlowParser;
impl Parser<JsonLanguage> for SlowParser {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<JsonLanguage>) -> ParseOutput<'a, JsonLanguage> {
        dawdle(1, text);
        JsonParser::new(&CONFIG).parse(text, edits, cache)
    }
}
struct SlowBuilder;
impl Builder<JsonLanguage> for SlowBuilder {
    fn build<'a, S: Source + ?Sized>(&self, text: &S, edits: &[TextEdit], cache: &'a mut impl BuilderCache<JsonLanguage>) -> BuildOutput<JsonLanguage> {
        dawdle(2, text);
        JsonBuilder::new(&CONFIG).build(text, edits, cache)
    }
}
// ---- what the expectation files hold ----
fn ast(n: &GreenNode<JsonLanguage>) -> (Value, u64) {
    let mut ch = vec![];
    let (mut leaves, mut len, mut count) = (0, 0u64, 1);
    for c in n.children {
        match c {
            GreenTree::Node(n) => {
                let (v, k) = ast(n);
                ch.push(v);
                count += k
            }
            GreenTree::Leaf(l) => {
                leaves += 1;
                len += l.length as u64
            }
        }
    }
    if leaves > 0 {
        ch.push(json!({"kind": format!("Leaves({leaves})"), "children": [], "text_length": len, "is_leaf": true}));
        count += 1
    }
    (json!({"kind": format!("{:?}", n.kind), "children": ch, "text_length": n.text_len as u64, "is_leaf": false}), count)
}
fn golden(kind: u8, text: &str) -> Value {
    let s = SourceText::new(text);
    let mut cache = ParseSession::<JsonLanguage>::default();
    match kind {
        0 => {
            let o = JsonLexer::new(&CONFIG).lex(&s, &[], &mut cache);
            let mut errors: Vec<String> = o.diagnostics.iter().map(|e| e.to_string()).collect();
            let mut tokens = vec![];
            match &o.result {
                Ok(t) => {
                    for t in t.iter().filter(|t| !t.kind.is_ignored()) {
                        tokens.push(json!({"kind": format!("{:?}", t.kind), "text": &text[t.span.start..t.span.end], "start": t.span.start, "end": t.span.end}))
                    }
                }
                Err(e) => errors.push(e.to_string()),
            }
            json!({"success": errors.is_empty(), "count": tokens.len(), "tokens": tokens, "errors": errors})
        }
        1 => {
            let o = JsonParser::new(&CONFIG).parse(&s, &[], &mut cache);
            let mut errors: Vec<String> = o.diagnostics.iter().map(|e| e.to_string()).collect();
            let (a, n) = match &o.result {
                Ok(root) => ast(root),
                Err(e) => {
                    errors.push(e.to_string());
                    (json!({"kind": "Error", "children": [], "text_length": 0, "is_leaf": true}), 1)
                }
            };
            json!({"success": o.result.is_ok(), "node_count": n, "ast_structure": a, "errors": errors})
        }
        _ => {
            let o = JsonBuilder::new(&CONFIG).build(&s, &[], &mut cache);
            let mut errors: Vec<String> = o.diagnostics.iter().map(|e| e.to_string()).collect();
            let root = match &o.result {
                Ok(r) => json!({"type_name": std::any::type_name_of_val(r), "content": serde_json::to_value(r).unwrap()}),
                Err(e) => {
                    errors.push(e.to_string());
                    Value::Null
                }
            };
            json!({"success": o.result.is_ok(), "typed_root": root, "errors": errors})
        }
    }
}
/// Change one scalar or the length of one list.
fn twist(v: &mut Value, mut k: u32) {
    fn places(v: &Value) -> u32 {
        match v {
            Value::Array(a) => 1 + a.iter().map(places).sum::<u32>(),
            Value::Object(o) => o.values().map(places).sum(),
            _ => 1,
        }
    }
    fn go(v: &mut Value, k: &mut u32, grow: bool) {
        match v {
            Value::Array(a) => {
                if *k == 0 {
                    if grow || a.is_empty() { a.push(a.last().cloned().unwrap_or(json!("x"))) } else { drop(a.pop()) }
                    *k = u32::MAX;
                    return;
                }
                *k -= 1;
                a.iter_mut().for_each(|x| {
                    if *k != u32::MAX {
                        go(x, k, grow)
                    }
                })
            }
            Value::Object(o) => o.values_mut().for_each(|x| {
                if *k != u32::MAX {
                    go(x, k, grow)
                }
            }),
            _ => {
                if *k == 0 {
                    *v = match &*v {
                        Value::Bool(b) => json!(!b),
                        Value::Number(n) => json!(n.as_u64().map_or(7, |n| n + 1)),
                        Value::String(s) => json!(format!("{s}~")),
                        _ => json!({"type_name": "?", "content": 1}),
                    };
                    *k = u32::MAX;
                    return;
                }
                *k -= 1
            }
        }
    }
    let n = places(v);
    let grow = k % 2 == 0;
    k = (k / 2) % n.max(1);
    go(v, &mut k, grow)
}
#[derive(Clone, Debug)]
struct Made {
    path: String,
    text: String,
    run: bool,
    golden: [Value; 3],
    /// Contents of the expectation and of the one under the old name.
    new: [Option<Vec<u8>>; 3],
    old: Option<Vec<u8>>,
    f: File,
}
impl Made {
    fn new_path(&self, kind: u8) -> String {
        format!("{}.{}.json", self.path, SUFFIX[kind as usize])
    }
    fn old_path(&self) -> String {
        format!("{}.expected.json", &self.path[..self.path.rfind('.').unwrap()])
    }
    fn is_golden(&self, kind: u8, got: &[u8]) -> bool {
        serde_json::from_slice::<Value>(got).is_ok_and(|v| v == self.golden[kind as usize])
    }
}
#[derive(PartialEq, Debug, Clone, Copy)]
enum Want {
    Pass,
    /// A mismatch, or an expectation that cannot be read
    Fail,
    Regenerated,
    Late,
    Panic,
}
fn want(m: &Made, kind: u8, force: bool) -> Want {
    match m.f.pace {
        2 => return Want::Late,
        3 => return Want::Panic,
        _ => {}
    }
    if force {
        return Want::Pass;
    }
    match m.f.state[kind as usize] {
        2 | 4 | 5 | 7 => Want::Fail,
        3 if kind == 1 => Want::Regenerated,
        _ => Want::Pass,
    }
}
type Res = Result<Result<(), OakError>, simrt::PanicInfo>;
fn run_kind(kind: u8, c: &Case) -> Res {
    let t = c.timeout_ms.map(Duration::from_millis);
    macro_rules! go {
        ($t:ident, $x:expr) => {{
            let mut b = $t::new(ROOT);
            for e in &c.exts {
                b = b.with_extension(EXTS[*e])
            }
            if let Some(t) = t {
                b = b.with_timeout(t)
            }
            simrt::attempt(|| b.run_tests(&$x))
        }};
    }
    match kind {
        0 => go!(LexerTester, SlowLexer),
        1 => go!(ParserTester, SlowParser),
        _ => go!(BuilderTester, SlowBuilder),
    }
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    unsafe {
        match (c.force, c.unset) {
            (false, true) => std::env::remove_var("REGENERATE_TESTS"),
            (f, _) => std::env::set_var("REGENERATE_TESTS", if f { "1" } else { "0" }),
        }
    }
    if !c.missing_root {
        fs::mkdirs(ROOT);
    }
    let timeout = c.timeout_ms.unwrap_or(10_000) * 1_000_000;
    let mut made: Vec<Made> = vec![];
    let mut others: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    if !c.missing_root {
        for (n, f) in c.files.iter().enumerate() {
            let path = format!("{ROOT}/{}t{n}.{}", DIRS[f.dir % 4], EXTS[f.ext % 4]);
            // Each text once, so that the runs can be told apart.
            let text = format!("{}{}", doc(f.doc), " ".repeat(n));
            fs::mkdirs(&path[..path.rfind('/').unwrap()]);
            if f.link {
                let real = format!("/work/real/{n}");
                fs::mkdirs("/work/real");
                fs::put(&real, text.as_bytes());
                fs::put_link(&path, &real);
                others.insert(real, text.clone().into_bytes());
            }
            else {
                fs::put(&path, text.as_bytes());
            }
            let g = [0, 1, 2].map(|k| golden(k, &text));
            let mut m = Made { run: c.exts.contains(&(f.ext % 4)), path, text: text.clone(), golden: g, new: [None, None, None], old: None, f: f.clone() };
            let one = c.kinds.len() == 1;
            for k in 0..3usize {
                let right = serde_json::to_vec_pretty(&m.golden[k]).unwrap();
                let mut v = m.golden[k].clone();
                twist(&mut v, f.twist);
                let bad = serde_json::to_vec(&v).unwrap();
                let mine = c.kinds.contains(&(k as u8));
                m.new[k] = match f.state[k] {
                    3 | 6 | 7 => None,
                    2 => Some(bad.clone()),
                    4 => Some(right[..right.len() / 2].to_vec()),
                    5 => Some(b"[]".to_vec()),
                    _ => Some(right.clone()),
                };
                if one && mine {
                    m.old = match f.state[k] {
                        6 => Some(right),
                        7 | 8 => Some(bad),
                        _ => None,
                    }
                }
                if let Some(x) = &m.new[k] {
                    fs::put(&m.new_path(k as u8), x);
                }
            }
            if let Some(x) = &m.old {
                fs::put(&m.old_path(), x);
            }
            let ns = match f.pace {
                1 => timeout / 4,
                2 => timeout * 2 + 200_000_000,
                _ => 0,
            };
            PACE.lock().unwrap().insert(text, (ns, f.pace == 3));
            made.push(m)
        }
        // Things that are no test files.
        for (p, t) in [("readme.md", "# {"), ("noext", "{"), ("sub/a.json.parsed.json", "{"), ("b.expected.json", "{"), ("sub/c.tst.built.json", "?"), ("d.json.lexed.json", "[")] {
            let p = format!("{ROOT}/{p}");
            fs::mkdirs(&p[..p.rfind('/').unwrap()]);
            fs::put(&p, t.as_bytes());
            others.insert(p, t.as_bytes().to_vec());
        }
        fs::put_link(&format!("{ROOT}/gone.json"), "/work/nowhere");
    }
    fs::put("/work/outside.json", b"outside");
    others.insert("/work/outside.json".into(), b"outside".to_vec());
    let before = fs::tree("/");
    // Each tester: result, start and end, did a disk fault hit?
    let out: &'static Mutex<Vec<(u8, Res, u64, u64)>> = Box::leak(Box::default());
    let start = sched::seq();
    let mut ws: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for k in c.kinds.clone() {
        let c = c.clone();
        ws.push(Box::new(move || {
            let t0 = sched::now();
            let r = run_kind(k, &c);
            ev!("tester {k}: {}", match &r {
                Ok(Ok(())) => "passed".to_string(),
                Ok(Err(e)) => format!("error {e}").chars().take(200).collect(),
                Err(p) => format!("panic {}", p.msg),
            });
            out.lock().unwrap().push((k, r, t0, sched::now()));
        }))
    }
    let crashed = simrt::run_process(ws);
    let faulty = fs::events().iter().any(|e| e.seq >= start && e.hard);
    simrt::faults_off();
    sched::quiet(true);
    let after = fs::tree("/");
    if faulty {
        simrt::probe("testers:a disk fault")
    }
    if crashed {
        simrt::probe("testers:crash")
    }
    let out = if crashed { vec![] } else { std::mem::take(&mut *out.lock().unwrap()) };
    let passed = |k: u8| out.iter().any(|o| o.0 == k && matches!(o.1, Ok(Ok(()))));
    // ---- the files ----
    let mut known: Vec<String> = others.keys().cloned().collect();
    for (p, t) in &others {
        check!(after.get(p) == Some(t), "foreign file changed", "{p}: {:?}", after.get(p).map(|x| String::from_utf8_lossy(x).into_owned()))
    }
    for m in &made {
        if !m.f.link {
            check!(after.get(&m.path).map(|x| &x[..]) == Some(m.text.as_bytes()), "source changed", "{}", m.path);
        }
        known.push(m.path.clone());
        for k in 0..3u8 {
            let p = m.new_path(k);
            known.push(p.clone());
            let got = after.get(&p);
            let was = m.new[k as usize].as_ref();
            if !m.run || !c.kinds.contains(&k) {
                check!(got == was, "foreign file changed", "{p}, which no tester has to touch: {:?}", got.map(|x| String::from_utf8_lossy(x).into_owned()));
                continue;
            }
            let old_now = after.get(&m.old_path());
            let show = || format!("was {:?}, is {:?}, under the old name {:?}, right is {}", was.map(|x| String::from_utf8_lossy(x)), got.map(|x| String::from_utf8_lossy(x)), old_now.map(|x| String::from_utf8_lossy(x)), m.golden[k as usize]);
            let golden = got.is_some_and(|g| m.is_golden(k, g));
            let torn = (faulty || crashed) && got.is_some_and(|g| !golden && !g.is_empty() == (g[..1.min(g.len())] == *b"{") && serde_json::from_slice::<Value>(g).is_err());
            let late = matches!(m.f.pace, 2 | 3);
            let ok = match (was, &m.old) {
                // An expectation that exists changes only when this was asked for.
                (Some(_), None) => got == was || c.force && !late && (golden || torn),
                (Some(_), Some(o)) => old_now == Some(o) && (got == was || c.force && !late && (golden || torn)),
                (None, None) => got.is_none() || !late && (golden || torn),
                // Under the old name: it stays or moves.
                (None, Some(o)) => (got.is_none() && old_now == Some(o)) || (got == Some(o) && old_now.is_none()) || c.force && !late && (golden || torn),
            };
            check!(ok, if was.is_some() || m.old.is_some() { "expectation changed" } else { "expectation wrong" }, "{p}: {}", show());
            if passed(k) && (c.force || was.is_none() && m.old.is_none()) {
                check!(golden, "expectation not written", "{p}: {}", show())
            }
        }
        if m.old.is_some() {
            known.push(m.old_path())
        }
    }
    for p in after.keys() {
        check!(known.contains(p) || before.contains_key(p), "stray file", "{p} appeared")
    }
    // ---- the verdicts ----
    for (k, r, t0, t1) in &out {
        let k = *k;
        let todo: Vec<(&Made, Want)> = made.iter().filter(|m| m.run).map(|m| (m, want(m, k, c.force))).collect();
        let seen: Vec<String> = SEEN.lock().unwrap().iter().filter(|s| s.0 == k).map(|s| s.1.clone()).collect();
        for t in &seen {
            check!(todo.iter().any(|(m, _)| m.text == *t), "foreign file run", "tester {k} ran {t:?}");
            check!(seen.iter().filter(|x| *x == t).count() == 1, "run twice", "tester {k} ran {t:?} more than once")
        }
        let bad: Vec<_> = todo.iter().filter(|x| x.1 != Want::Pass).collect();
        let elapsed = t1 - t0;
        match r {
            Ok(Ok(())) => {
                check!(!c.missing_root, "passed without tests", "tester {k} passed although {ROOT} does not exist");
                for (m, w) in &todo {
                    check!(seen.contains(&m.text), "passed without running", "tester {k} passed and never ran {}", m.path);
                    check!(*w == Want::Pass, "passed", "tester {k} passed although {} must be {w:?} (state {})", m.path, m.f.state[k as usize]);
                }
            }
            Ok(Err(e)) => {
                let text = e.to_string();
                if faulty || c.missing_root {
                    continue;
                }
                match e.kind() {
                    OakErrorKind::TestFailure { path, .. } => check!(bad.iter().any(|(m, w)| *w == Want::Fail && Path::new(&m.path) == path), "wrong verdict", "tester {k} says that {} fails: {}", path.display(), clip(&text)),
                    OakErrorKind::TestRegenerated { path } => {
                        check!(bad.iter().any(|(m, w)| *w == Want::Regenerated && PathBuf::from(m.new_path(k)) == *path), "wrong verdict", "tester {k} says that it wrote {}", path.display());
                        check!(after.contains_key(&*path.to_string_lossy()), "expectation not written", "tester {k} says that it wrote {}", path.display())
                    }
                    _ => {
                        let timed = text.contains("timed out");
                        if timed {
                            check!(elapsed >= timeout, "wrong verdict", "tester {k} says after {elapsed} ns that a test took longer than {timeout} ns");
                            simrt::probe("testers:timeout")
                        }
                        check!(timed || !bad.is_empty(), "wrong verdict", "tester {k} fails with {} although every file is right", clip(&text));
                    }
                }
            }
            Err(p) => {
                let own = todo.iter().any(|x| x.1 == Want::Panic);
                check!(own, &format!("panic at {}", p.loc), "tester {k}: {}", p.msg);
                simrt::probe("testers:test panics")
            }
        }
    }
    // A test that takes too long does not hold up the run much longer than the timeout.
    for (k, r, t0, t1) in &out {
        if let Ok(Err(e)) = r {
            let n = made.iter().filter(|m| m.run && m.f.pace < 2).count() as u64 + 1;
            let text = e.to_string();
            if text.contains("timed out") && !faulty {
                check!(t1 - t0 <= n * timeout + 150_000_000, "run held up", "tester {k} reports a timeout of {} ms after {} ms, when the test had ended by itself", timeout / 1_000_000, (t1 - t0) / 1_000_000)
            }
        }
    }
}
fn clip(s: &str) -> String {
    s.chars().take(300).collect()
}
pub static TESTERS: Scenario = Scenario { name: "testers", about: "test runners over a directory on a failing disk, with slow and panicking code under test", make, run };
