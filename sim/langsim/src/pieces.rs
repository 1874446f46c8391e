//! S03: texts that arrive in pieces.
use crate::{
    docs,
    lang::{Lang, source},
    langs,
};
use serde::{Deserialize, Serialize};
use simrt::{Rng, Scenario, Value, check, ev, json};
use std::sync::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    lang: String,
    text: String,
    /// Per thread: the ways in which the text arrives
    threads: Vec<Vec<(u32, u64)>>,
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let lang = langs::any(r);
    let max = if thorough && r.chance(200) { 900 } else { 250 };
    let text = docs::soup(r, &lang, max);
    let n = if r.chance(700) { 1 } else { 2 };
    let threads = (0..n).map(|_| (0..r.range(1, 3)).map(|_| (r.below(4) as u32, r.below(1 << 20))).collect()).collect();
    json!({"cfg": simrt::make_cfg(r, true, &[]), "w": Case { lang, text, threads }})
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap();
    let l: &'static dyn Lang = Box::leak(langs::get(&c.lang));
    let parse = move |text: &str, kind, cut| {
        let src = source(text, kind, cut);
        simrt::attempt(|| l.session(16).parse(&*src, &[]))
    };
    let Ok(want) = simrt::sched::tolerant(400_000, || parse(&c.text, 0, 0)) else { return };
    let want = Arc::new(want);
    let (name, text) = (Arc::new(c.lang), Arc::new(c.text));
    if c.threads.len() > 1 {
        simrt::probe("pieces:two threads parse at once")
    }
    let hs: Vec<_> = c
        .threads
        .into_iter()
        .map(|ways| {
            let (want, name, text) = (want.clone(), name.clone(), text.clone());
            simrt::spawn(move || {
                for (kind, cut) in ways {
                    match parse(&text, kind, cut) {
                        Ok(got) => {
                            ev!("{name} {} bytes as {kind}/{cut}", text.len());
                            if let Some((what, d)) = want.diff(&got) {
                                simrt::violation(&format!("{name} {what}"), &format!("in one piece {d} in pieces: {text:?} in pieces ({kind}, {cut})"))
                            }
                        }
                        Err(p) => simrt::violation(&format!("panic at {}", p.loc), &format!("{text:?} in pieces ({kind}, {cut}) panics ({}), but not in one piece", p.msg)),
                    }
                }
            })
        })
        .collect();
    for h in hs {
        simrt::join(h)
    }
    let out = &simrt::fs::fs().stdout;
    check!(out.is_empty(), &format!("{name} output"), "writes to the standard output when parsing {text:?}");
    simrt::state(simrt::rng::hash_str(&text))
}
pub static PIECES: Scenario = Scenario { name: "pieces", about: "Texts of all languages are parsed from pieces, by several threads at once", make, run };
