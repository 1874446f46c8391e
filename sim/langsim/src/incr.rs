//! I01, I02: parse sessions over histories of edits.
use crate::{
    docs::{self, floor},
    lang::{Flaky, Lang, Outcome, Session, source},
    langs,
};
use core::range::Range;
use oak_core::source::TextEdit;
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, json};
use std::sync::{Arc, Mutex};

/// (start, length, new text)
pub type Ed = (usize, usize, String);
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    edits: Vec<Ed>,
    /// The edits are handed over from the last to the first.
    #[serde(default)]
    back: bool,
    /// How the text is held (see lang::source)
    kind: u32,
    /// The thread hands the session on afterwards.
    pass: bool,
    /// Takes the edits back again
    undo: bool,
    /// Accesses of this parse may panic.
    flaky: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Doc {
    text: String,
    capacity: usize,
    steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    lang: String,
    docs: Vec<Doc>,
    threads: usize,
}
static REUSE: &[&str] = &["json", "von", "rust", "python", "mojo", "toy", "toy"];
static ALIKE: &[&str] = &["do x;\n", "at+x;\n", "it+x;\n", "at+2;\n", "do 1;\n"];

fn make_doc(r: &mut Rng, lang: &str, thorough: bool, faulty: bool) -> Doc {
    let g = docs::grammar(lang);
    let invalid = g.is_none() || r.chance(if faulty { 400 } else { 150 });
    let mut cur = match g {
        // Statements that differ in nothing but their words.
        _ if lang == "toy" && r.chance(250) => (0..r.range(2, 25)).map(|_| *r.pick(ALIKE)).collect(),
        Some(g) if !invalid || r.chance(500) => {
            let mut s = String::new();
            for _ in 0..r.range(1, 4) {
                s.push_str(&docs::expand(g, "doc", 0, 0, r));
                if lang == "json" {
                    break;
                }
                if !s.ends_with('\n') && r.chance(800) {
                    s.push('\n')
                }
            }
            s
        }
        _ => docs::soup(r, lang, 300),
    };
    let k = floor(&cur, 700);
    cur.truncate(k);
    let text = cur.clone();
    let steps = (0..r.range(1, if thorough { 8 } else { 5 }))
        .map(|_| {
            let mut edits: Vec<Ed> = (0..*r.pick(&[1, 1, 1, 1, 2, 3, 0])).map(|_| edit(r, lang, &cur, invalid)).collect();
            edits.sort();
            let mut next: Vec<Ed> = Vec::new();
            for e in edits {
                if next.last().is_none_or(|l| e.0 >= l.0 + l.1 && e.0 > l.0) {
                    next.push(e)
                }
            }
            let s = Step { edits: next, back: r.chance(300), kind: if r.chance(600) { 0 } else { r.below(4) as u32 }, pass: r.chance(200), undo: r.chance(200), flaky: faulty && r.chance(500) };
            if !s.undo {
                cur = apply(&cur, &resolve(&cur, &s.edits));
            }
            s
        })
        .collect();
    Doc { text, capacity: *r.pick(&[0, 1, 16]), steps }
}
pub fn edit(r: &mut Rng, lang: &str, s: &str, invalid: bool) -> Ed {
    let b = s.as_bytes();
    let g = docs::grammar(lang);
    // A token of the text: a run of letters or digits, or one other character.
    let token = |r: &mut Rng| {
        let (a, _) = docs::span(r, s, 1);
        if a >= s.len() {
            return (a, a);
        }
        let w = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        if !w(b[a]) {
            return (a, a + s[a..].chars().next().unwrap().len_utf8());
        }
        let mut x = a;
        while x > 0 && w(b[x - 1]) {
            x -= 1
        }
        let mut y = a;
        while y < b.len() && w(b[y]) {
            y += 1
        }
        (x, y)
    };
    match r.below(12) {
        // Replace a word or number by another.
        0..=3 => {
            let (x, y) = token(r);
            let c = b.get(x).copied().unwrap_or(b' ');
            let t = if c.is_ascii_digit() { r.pick(&["7", "42", "0", "3.5", "1"]).to_string() } else if lang == "toy" && c.is_ascii_alphabetic() && r.chance(500) { r.pick(&["at", "it", "do"]).to_string() } else if c.is_ascii_alphabetic() && !invalid { r.pick(&["x", "yy", "zzz", "true", "a"]).to_string() } else { docs::soup(r, lang, 4) };
            (x, y - x, t)
        }
        // Put a new statement or value beside a line end, comma or brace.
        4..=6 if g.is_some() => {
            let at: Vec<usize> = (0..b.len()).filter(|&i| matches!(b[i], b'\n' | b',' | b'{' | b'[' | b';' | b':' | b'=')).collect();
            if at.is_empty() {
                return (s.len(), 0, docs::expand(g.unwrap(), "doc", 2, 0, r));
            }
            let a = *r.pick(&at) + 1;
            let c = b[a - 1];
            let ind = s[..a].rsplit('\n').next().map_or(0, |l| l.len() - l.trim_start().len());
            let t = match (lang, c) {
                ("json", b'{') => format!("\"n\": {}, ", docs::expand(g.unwrap(), "v", 3, 0, r)),
                ("json" | "von", b'[') => format!("{}, ", docs::expand(g.unwrap(), "v", 3, 0, r)),
                ("von", _) => format!(" n = {} ", docs::expand(g.unwrap(), "v", 3, 0, r)),
                ("json", _) => format!(" {}", r.pick(&["", "\n", " ", "\t"])),
                ("toy", b'\n') if r.chance(600) => (0..r.range(1, 3)).map(|_| *r.pick(ALIKE)).collect(),
                ("toy", b'=' | b':' | b'\n') => r.pick(&["", "\n", " ", "# c\n"]).to_string(),
                ("toy", b'[' | b',') => format!(" {}, ", docs::expand(g.unwrap(), "e", 3, 0, r)),
                ("rust" | "toy", _) => format!(" {} ", docs::expand(g.unwrap(), "s", 3, 0, r)),
                (_, b'\n') => format!("{}{}", &" ".repeat(ind), docs::expand(g.unwrap(), "s", 3, ind / 4, r)),
                _ => " ".into(),
            };
            (a, 0, t)
        }
        // Space and comments between tokens.
        7 => {
            let (x, _) = token(r);
            (x, 0, r.pick(&[" ", "\n", "  ", "\t", " /* c */ ", " # c\n", "    "]).to_string())
        }
        // Remove a line.
        8 => {
            let (a, _) = docs::span(r, s, 1);
            let x = s[..a].rfind('\n').map_or(0, |k| k + 1);
            let y = s[a..].find('\n').map_or(s.len(), |k| a + k + 1);
            (x, y - x, String::new())
        }
        // Remove a token.
        9 => {
            let (x, y) = token(r);
            (x, y - x, String::new())
        }
        // Anything.
        10 => {
            let (x, y) = docs::span(r, s, 20);
            (x, y - x, docs::soup(r, lang, 12))
        }
        _ => {
            let (x, _) = docs::span(r, s, 1);
            (x, 0, docs::soup(r, lang, 3))
        }
    }
}
pub fn resolve(s: &str, es: &[Ed]) -> Vec<Ed> {
    let mut out: Vec<Ed> = Vec::new();
    for (a, n, t) in es {
        let a = floor(s, *a);
        let b = floor(s, a + n).max(a);
        if out.last().is_none_or(|l| a >= l.0 + l.1 && a > l.0) {
            out.push((a, b - a, t.clone()))
        }
    }
    out
}
pub fn apply(s: &str, es: &[Ed]) -> String {
    let mut n = s.to_string();
    for (a, l, t) in es.iter().rev() {
        n.replace_range(*a..*a + *l, t)
    }
    n
}
/// The edits that take `es` back.
pub fn inverse(s: &str, es: &[Ed]) -> Vec<Ed> {
    let mut d = 0isize;
    es.iter()
        .map(|(a, l, t)| {
            let at = (*a as isize + d) as usize;
            d += t.len() as isize - *l as isize;
            (at, t.len(), s[*a..*a + *l].to_string())
        })
        .collect()
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    build(r, thorough, false)
}
fn make_faulty(r: &mut Rng, thorough: bool) -> Value {
    build(r, thorough, true)
}
fn build(r: &mut Rng, thorough: bool, faulty: bool) -> Value {
    let lang = if r.chance(900) && std::env::var("LANGSIM_LANG").is_err() { r.pick(REUSE).to_string() } else { langs::any(r) };
    let n = if r.chance(700) { 1 } else { 2 };
    let docs = (0..n).map(|_| make_doc(r, &lang, thorough, faulty)).collect();
    let c = Case { lang, docs, threads: if n == 1 && r.chance(700) { 1 } else { 2 } };
    let f: &[(Fault, u64)] = if faulty { &[(Fault::PanicInject, 30)] } else { &[] };
    json!({"cfg": simrt::make_cfg(r, true, f), "w": c})
}
struct Job<'l> {
    sess: Box<dyn Session + 'l>,
    text: String,
    steps: Vec<Step>,
    first: bool,
    failed: bool,
}
fn fresh(l: &dyn Lang, text: &str) -> Result<Outcome, simrt::PanicInfo> {
    let src = source(text, 0, 0);
    simrt::sched::tolerant(400_000, || simrt::attempt(|| l.session(16).parse(&*src, &[])))
}
/// Parses and compares; false if the parser itself cannot handle the text (it panics on it in a fresh session as well).
fn step(name: &str, l: &dyn Lang, j: &mut Job, es: &[Ed], back: bool, kind: u32, flaky: bool) -> bool {
    let new = apply(&j.text, es);
    let mut edits: Vec<TextEdit> = es.iter().map(|(a, n, t)| TextEdit { span: Range { start: *a, end: a + n }, text: t.clone().into() }).collect();
    if back {
        edits.reverse()
    }
    // These two lexers cannot read pieces (S03).
    let kind = if matches!(name, "nim" | "msil") { 0 } else { kind };
    let src = source(&new, kind, new.len() as u64 + kind as u64);
    let want = fresh(l, &new);
    let got = if flaky {
        let f = Flaky(src.clone());
        simrt::attempt(|| j.sess.parse(&f, &edits))
    }
    else {
        simrt::attempt(|| j.sess.parse(&*src, &edits))
    };
    let root = j.sess.root();
    if let Err(p) = &got {
        if p.msg.starts_with("injected") {
            simrt::probe("incr:panic during a parse");
            check!(root.is_none(), "root of an interrupted parse", "after the parse of {new:?} was interrupted the session holds the root {root:?}");
            j.text = new;
            j.failed = true;
            j.first = false;
            return true;
        }
    }
    let (got, want) = match (got, want) {
        (Ok(g), Ok(w)) => (g, w),
        (Err(_), Err(_)) => return false,
        (Err(p), Ok(_)) => simrt::violation(&format!("panic at {}", p.loc), &format!("parsing {new:?} after the edits {es:?} panics ({}), a fresh parse does not", p.msg)),
        (Ok(_), Err(_)) => return false,
    };
    ev!("parse {} bytes, edits {es:?}: {}", new.len(), if got.clean() { "clean" } else { "not clean" });
    if let Some((what, d)) = want.diff(&got) {
        // Two known findings are told apart from everything else: they need this syntax before or after the edits.
        let both = [j.text.as_str(), new.as_str()];
        let known = match name {
            "rust" if both.iter().any(|t| t.split("else").skip(1).any(|u| u.contains("if"))) => " with else if",
            "python" if both.iter().any(|t| t.contains("lambda")) => " with lambda",
            _ => "",
        };
        simrt::violation(&format!("{what}{known}"), &format!("a fresh parse gives {d} in the session: {new:?} after the edits {es:?} of {:?}", j.text))
    }
    check!(root == got.tree, "kept root", "after the parse of {new:?} the session holds the root {root:?} instead of {:?}", got.tree);
    if j.failed {
        simrt::probe("incr:parse after a failed parse")
    }
    if !j.first && got.clean() {
        simrt::probe("incr:parse of a clean tree after edits")
    }
    simrt::state(simrt::rng::hash_str(&new));
    j.failed = got.tree.is_none();
    j.first = false;
    j.text = new;
    true
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap();
    let l: &'static dyn Lang = Box::leak(langs::get(&c.lang));
    let name = Arc::new(c.lang.clone());
    let jobs: Vec<Job> = c.docs.into_iter().map(|d| Job { sess: l.session(d.capacity), text: d.text, steps: d.steps.into_iter().rev().collect(), first: true, failed: false }).collect();
    let left = Arc::new(Mutex::new((jobs, 0usize)));
    let hs: Vec<_> = (0..c.threads.max(1))
        .map(|_| {
            let (left, name) = (left.clone(), name.clone());
            simrt::spawn(move || loop {
                let Some(mut j) = ({
                    let mut g = left.lock().unwrap();
                    let j = g.0.pop();
                    if j.is_some() {
                        g.1 += 1
                    }
                    j
                })
                else {
                    if left.lock().unwrap().1 == 0 {
                        break;
                    }
                    std::thread::yield_now();
                    continue;
                };
                let mut alive = !j.first || step(&name, l, &mut j, &[], false, 0, false);
                while alive {
                    let Some(s) = j.steps.pop() else { alive = false; break };
                    let es = resolve(&j.text, &s.edits);
                    let old = j.text.clone();
                    alive = step(&name, l, &mut j, &es, s.back, s.kind, s.flaky);
                    if alive && s.undo {
                        alive = step(&name, l, &mut j, &inverse(&old, &es), s.back, s.kind, false)
                    }
                    if s.pass {
                        break;
                    }
                }
                let mut g = left.lock().unwrap();
                g.1 -= 1;
                if alive {
                    g.0.insert(0, j)
                }
            })
        })
        .collect();
    for h in hs {
        simrt::join(h)
    }
}
pub static EDITS: Scenario = Scenario { name: "incremental", about: "Sessions parse documents after every batch of edits, on several threads", make, run };
pub static FAULTY: Scenario = Scenario { name: "incremental-faults", about: "As incremental, with sources that fail in the middle of a parse and invalid documents", make: make_faulty, run };
