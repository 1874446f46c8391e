//! S04: lexing again after edits, with the tokens of the last time.
use crate::{
    docs,
    incr::{Ed, apply, edit, resolve},
    lang::{Flaky, source},
    toy::{Tok, Toy, lex_from},
};
use core::range::Range;
use oak_core::{
    lexer::{LexOutput, LexerCache, Token},
    parser::ParseSession,
    source::{RopeBuffer, Source, SourceText, TextEdit},
};
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, json};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    edits: Vec<Ed>,
    /// What is given as the first affected place: what the buffer reports, the first edit, or some place before it
    from: u8,
    kind: u32,
    flaky: bool,
    /// Lexes once more without a change.
    again: bool,
    /// Keeps the session but lets it be filled anew by a parse of something else.
    pass: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Doc {
    text: String,
    rope: bool,
    /// The cache does not hand out its tokens as a slice.
    plain: bool,
    steps: Vec<Step>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    docs: Vec<Doc>,
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let n = if r.chance(700) { 1 } else { 2 };
    let docs = (0..n)
        .map(|_| {
            let mut cur = if r.chance(500) { docs::soup(r, "toy", 200) } else { docs::expand(docs::grammar("toy").unwrap(), "doc", 0, 0, r) };
            let k = docs::floor(&cur, 400);
            cur.truncate(k);
            let text = cur.clone();
            // Where the last character was typed
            let mut caret = 0;
            let steps = (0..r.range(1, if thorough { 12 } else { 6 }))
                .map(|_| {
                    let mut edits: Vec<Ed> = (0..*r.pick(&[1, 1, 1, 2, 3, 0]))
                        .map(|_| {
                            match r.below(8) {
                                // At the end: typing on, and taking back.
                                0 => (cur.len(), 0, docs::soup(r, "toy", 4)),
                                1 => {
                                    let k = docs::floor(&cur, cur.len().saturating_sub(r.below(6) as usize));
                                    (k, cur.len() - k, String::new())
                                }
                                // One character after another
                                2 | 3 => {
                                    let a = if r.chance(600) { docs::floor(&cur, caret) } else { docs::span(r, &cur, 1).0 };
                                    let t = r.pick(&["a", "1", "1", ".", ".", "\"", "/", "*", " ", "-", ">", "=", "é", "\\", "\n", "#", "@", "'", "1.", "2."]).to_string();
                                    caret = a + t.len();
                                    (a, 0, t)
                                }
                                4 => {
                                    let (a, _) = docs::span(r, &cur, 1);
                                    (a, cur[a..].chars().next().map_or(0, |c| c.len_utf8()), String::new())
                                }
                                _ => edit(r, "toy", &cur, true),
                            }
                        })
                        .collect();
                    edits.sort();
                    let edits = resolve(&cur, &edits);
                    cur = apply(&cur, &edits);
                    Step { edits, from: r.below(4) as u8, kind: r.below(4) as u32, flaky: r.chance(200), again: r.chance(200), pass: r.chance(100) }
                })
                .collect();
            Doc { text, rope: r.chance(600), plain: r.chance(300), steps }
        })
        .collect();
    json!({"cfg": simrt::make_cfg(r, true, &[(Fault::PanicInject, 30)]), "w": Case { docs }})
}
/// A cache that hands out its tokens one by one only.
struct Plain<'a>(&'a mut ParseSession<Toy>);
impl LexerCache<Toy> for Plain<'_> {
    fn set_lex_output(&mut self, o: LexOutput<Toy>) {
        self.0.set_lex_output(o)
    }
    fn get_token(&self, k: usize) -> Option<Token<Tok>> {
        self.0.get_token(k)
    }
    fn count_tokens(&self) -> usize {
        self.0.count_tokens()
    }
    fn has_tokens(&self) -> bool {
        self.0.has_tokens()
    }
    fn has_errors(&self) -> bool {
        self.0.has_errors()
    }
}
type Out = (Vec<(usize, usize, Tok)>, Vec<String>);
fn out(o: &LexOutput<Toy>) -> Out {
    let t = match &o.result {
        Ok(t) => t.iter().map(|t| (t.span.start, t.span.end, t.kind)).collect(),
        Err(e) => simrt::violation("error", &format!("lexing fails: {e:?}")),
    };
    (t, o.diagnostics.iter().map(|d| format!("{d:?}")).collect())
}
enum Buf {
    Rope(RopeBuffer),
    Text(SourceText),
}
fn document(d: Doc) {
    let mut buf = if d.rope { Buf::Rope(RopeBuffer::new(d.text.clone())) } else { Buf::Text(SourceText::new(d.text.clone())) };
    let mut text = d.text;
    let mut sess = ParseSession::<Toy>::new(16);
    // The first place that the cache does not know yet
    let mut pending: Option<usize> = None;
    let lex = |sess: &mut ParseSession<Toy>, src: &dyn Source, from: usize| if d.plain { out(&lex_from(src, from, &mut Plain(sess))) } else { out(&lex_from(src, from, sess)) };
    lex(&mut sess, &*source(&text, 0, 0), text.len());
    for s in d.steps {
        let es = resolve(&text, &s.edits);
        let edits: Vec<TextEdit> = es.iter().map(|(a, n, t)| TextEdit { span: Range { start: *a, end: a + n }, text: t.clone().into() }).collect();
        let old = text.clone();
        text = apply(&text, &es);
        let reported = match &mut buf {
            Buf::Rope(b) => b.apply_edits_range(&edits).start,
            Buf::Text(t) => t.apply_edits_range(&edits).start,
        };
        let first = es.first().map_or(old.len(), |e| e.0);
        let from = match s.from {
            0 | 1 => reported,
            2 => first,
            _ => first - first % 7,
        };
        let from = pending.map_or(from, |p| p.min(from));
        let held: Arc<dyn Source> = match &buf {
            Buf::Rope(b) if s.kind == 3 => Arc::new(b.snapshot()),
            _ => source(&text, s.kind, text.len() as u64),
        };
        let mut fresh = ParseSession::<Toy>::new(0);
        let want = lex(&mut fresh, &*source(&text, 0, 0), 0);
        let got = if s.flaky {
            let f = Flaky(held.clone());
            simrt::attempt(|| lex(&mut sess, &f, from))
        }
        else {
            simrt::attempt(|| lex(&mut sess, &*held, from))
        };
        match got {
            Err(p) if p.msg.starts_with("injected") => {
                simrt::probe("relex:panic while lexing");
                pending = Some(from);
                continue;
            }
            Err(p) => simrt::violation(&format!("panic at {}", p.loc), &format!("lexing {text:?} from {from} after {es:?} of {old:?} panics: {}", p.msg)),
            Ok(got) => compare(&want, &got, &format!("{text:?} from {from} after {es:?} of {old:?}")),
        }
        pending = None;
        if text.len() < old.len() && from >= text.len() {
            simrt::probe("relex:cut at the end")
        }
        ev!("lexed {} bytes from {from}", text.len());
        if s.again {
            let got = lex(&mut sess, &*held, text.len());
            compare(&want, &got, &format!("{text:?} again without a change"))
        }
        if s.pass {
            // Another cache takes over the tokens.
            let mut other = ParseSession::<Toy>::new(1);
            let out = oak_core::parser::ParseCache::lex_output(&sess).cloned();
            if let Some(o) = out {
                other.set_lex_output(o)
            }
            sess = other
        }
        simrt::state(simrt::rng::hash_str(&text))
    }
}
fn compare(want: &Out, got: &Out, what: &str) {
    let k = want.0.iter().zip(&got.0).take_while(|(a, b)| a == b).count();
    check!(want.0 == got.0, "tokens", "token {k} is {:?} instead of {:?}: {what}", got.0.get(k), want.0.get(k));
    check!(want.1 == got.1, "diagnostics", "diagnostics {:?} instead of {:?}: {what}", got.1, want.1)
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    let hs: Vec<_> = c.docs.into_iter().map(|d| simrt::spawn(move || document(d))).collect();
    for h in hs {
        simrt::join(h)
    }
}
pub static RELEX: Scenario = Scenario { name: "relex", about: "Documents are lexed again after every batch of edits, with the tokens of the last time; sources may fail in between", make, run };
