#![feature(new_range_api)]
#![allow(static_mut_refs)]
mod arena;
mod docs;
mod incr;
mod lang;
mod langs;
mod pieces;
mod relex;
mod toy;

use simrt::Prop;

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

static PROBES: &[&str] = &["no verdict: the reference takes too long", "incr:parse of a clean tree after edits", "incr:parse after a failed parse", "incr:panic during a parse", "pieces:two threads parse at once", "arena:moved between threads", "arena:outlives its thread", "arena:pool full", "arena:long session", "relex:nothing changed", "relex:some tokens reused", "relex:panic while lexing", "relex:cut at the end"];

static PROPS: &[Prop] = &[
    Prop {
        id: "S03",
        scenarios: &[(&pieces::PIECES, 1)],
        quick_runs: 60_000,
        rule: "Tokens, tree, error and diagnostics of a text that arrives in pieces equal those of the same text in one piece",
        real: &["oak-core lexing and parsing", "109 language crates", "a language of the harness (langsim/src/toy.rs)"],
        stub: &["arrival of the text (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "I01",
        scenarios: &[(&incr::EDITS, 1)],
        quick_runs: 60_000,
        rule: "After every batch of edits, tokens, tree, error and diagnostics of the session equal those of a fresh session",
        real: &["oak-core parse sessions, incremental reuse, arenas", "language crates"],
        stub: &["editor (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "I02",
        scenarios: &[(&incr::FAULTY, 1)],
        quick_runs: 60_000,
        rule: "After a failed or interrupted parse the session's next parses equal those of a fresh session; it keeps no root of a failed parse",
        real: &["oak-core parse sessions, incremental reuse, arenas", "language crates"],
        stub: &["editor and failing source (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "S04",
        scenarios: &[(&relex::RELEX, 1)],
        quick_runs: 60_000,
        rule: "Lexing again from the first place an edit affected, with the tokens of the last time, gives the tokens and diagnostics of a fresh lexing",
        real: &["oak-core lexer state, caches, scanners, ropes and snapshots"],
        stub: &["language (langsim/src/toy.rs)", "editor and failing source (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "A01",
        scenarios: &[(&arena::ARENAS, 3), (&arena::SESSIONS, 1)],
        quick_runs: 40_000,
        rule: "Arena allocations are disjoint, aligned and keep their contents; chunks are given back when arenas and threads end; sessions do not grow",
        real: &["oak-core arenas, chunk pools, parse sessions", "language crates"],
        stub: &["users of the arenas (generated)", "system allocator (simulated, with accounting, poison and redzones)"],
        assumptions: &[],
    },
];

fn main() {
    std::process::exit(simrt::runner::main(PROPS, PROBES))
}
