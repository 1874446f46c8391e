#![feature(new_range_api)]
#![allow(static_mut_refs)]
mod disk;
mod helpers;
mod lin;
mod lines;
mod mcp;
mod repl;
mod service;
mod testers;
mod text;
mod timed;
mod vfs_mem;
mod visual;
mod watch;
mod ws;

use simrt::Prop;

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

static PROBES: &[&str] = &["service:several roots", "service:many files listed", "mcp:a very long line", "service:call cancelled", "testers:a disk fault", "testers:crash", "testers:timeout", "testers:test panics", "mcp:client waits for an answer", "mcp-faults:read error", "mcp-faults:write error", "vfs-disk:write under a failing disk", "vfs-disk:read under a failing disk", "vfs-disk:crash", "helpers:creation fails", "vfs-disk:symbolic link", "timed:too slow", "visual:trees of several conversions in one picture", "repl:release event", "repl:repeated key", "repl:evaluation fails", "repl:handler panics", "repl:output fails", "watch:unwatch_all fails in part", "symbols:two updates overlap", "vfs-memory:write overlaps write of the same file", "vfs-memory:write overlaps read of the same file"];

static PROPS: &[Prop] = &[
    Prop {
        id: "V01",
        scenarios: &[(&vfs_mem::CONTENT, 1)],
        quick_runs: 150_000,
        rule: "The recorded history of calls is linearizable against a map from name to contents (unique per write), with the metadata of the same write",
        real: &["oak-vfs MemoryVfs, LineMap", "oak-core SourceText"],
        stub: &["caller threads (generated)", "system clock"],
        assumptions: &[],
    },
    Prop {
        id: "V02",
        scenarios: &[(&vfs_mem::IDS, 1)],
        quick_runs: 150_000,
        rule: "The recorded history of calls is linearizable against a register of live files whose ids are fresh, stable and never change owner",
        real: &["oak-vfs MemoryVfs", "oak-core SourceText"],
        stub: &["caller threads (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "V03",
        scenarios: &[(&disk::DISK, 1)],
        quick_runs: 150_000,
        rule: "Each call's result equals what the simulated disk held (or absence when a disk fault was injected into that very call); contents after each call, and of every file after the end or crash, are those allowed by the calls",
        real: &["oak-vfs DiskVfs", "std::fs"],
        stub: &["kernel file system (simrt::fs)", "caller threads and other programs (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "H01",
        scenarios: &[(&helpers::HELPERS, 1)],
        quick_runs: 120_000,
        rule: "Each read equals what the simulated disk held, or is an error when it holds no such thing or a disk fault was injected into that very call; a created file is empty and holds what is written to it; all other files are as before",
        real: &["oak-core helpers", "oak-testing file helpers", "std::fs"],
        stub: &["kernel file system (simrt::fs)", "caller threads and other programs (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "T02",
        scenarios: &[(&timed::TIMED, 1)],
        quick_runs: 60_000,
        rule: "Each test's verdict, and when it comes on the simulated clock, are those that its body's own end or ten seconds decide",
        real: &["oak-macros #[oak_test] expansions", "std::sync::mpsc", "std::thread"],
        stub: &["test bodies and caller threads (generated)", "clock", "the #[test] attribute (left out, so that the simulator calls the tests)"],
        assumptions: &[],
    },
    Prop {
        id: "G01",
        scenarios: &[(&visual::VISUAL, 1)],
        quick_runs: 40_000,
        rule: "Each tree node built shows its syntax node under an id no other node of the process has; each layout holds exactly the nodes and edges it was given, each edge joins its ends, and the bounds are the union; each SVG, HTML and JSON picture read back holds the same nodes, labels and edges; positions equal those of the same tree drawn alone",
        real: &["oak-visualize trees, graphs, layouts, renderers", "oak-core trees"],
        stub: &["caller threads (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "V04",
        scenarios: &[(&watch::WATCH, 1)],
        quick_runs: 150_000,
        rule: "The callback's events equal the source's events, in order; the set of OS watches after each call equals the model's",
        real: &["oak-vfs DiskWatcher", "notify event types"],
        stub: &["notify backend (inotify)", "client (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "W01",
        scenarios: &[(&ws::WORKSPACE, 1)],
        quick_runs: 150_000,
        rule: "Each lookup's answer is an innermost folder among those possibly registered during the call and not further out than any certainly registered one",
        real: &["oak-lsp WorkspaceManager", "dashmap", "url"],
        stub: &["caller threads (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "R01",
        scenarios: &[(&ws::SYMBOLS, 1)],
        quick_runs: 150_000,
        rule: "Histories are linearizable per file against a register of its symbols and per name against the map of current definitions",
        real: &["oak-resolver GlobalSymbolTable", "dashmap"],
        stub: &["caller threads (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "R02",
        scenarios: &[(&ws::RESOLVE, 1)],
        quick_runs: 150_000,
        rule: "Histories of resolutions and root changes are linearizable against first-existing-candidate; a fault inside a call only hides candidates",
        real: &["oak-resolver StandardResolver", "std::fs"],
        stub: &["kernel file system (simrt::fs)", "caller threads (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "M01",
        scenarios: &[(&mcp::CLEAN, 1)],
        quick_runs: 150_000,
        rule: "Each connection's output parses to exactly the due responses in order; service calls are exactly the due ones; a client that waits for its answer always gets it",
        real: &["oak-mcp McpServer", "tokio BufReader"],
        stub: &["byte streams and clients", "language service and search index (recording stand-ins)", "executor"],
        assumptions: &[],
    },
    Prop {
        id: "M02",
        scenarios: &[(&mcp::FAULTY, 1)],
        quick_runs: 150_000,
        rule: "As M01 up to the failure of a connection; run's result says whether the stream failed",
        real: &["oak-mcp McpServer", "tokio BufReader"],
        stub: &["byte streams and clients", "language service and search index (recording stand-ins)", "executor"],
        assumptions: &[],
    },
    Prop {
        id: "E01",
        scenarios: &[(&repl::REPL, 1)],
        quick_runs: 150_000,
        rule: "Before each key the simulated terminal's screen line and cursor equal the model editor's; handled code equals the model's; raw mode is off at every end",
        real: &["oak-repl OakRepl, LineBuffer", "oak-highlight exporter", "crossterm command encoding"],
        stub: &["terminal (screen, keys, raw mode)", "evaluator (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "T01",
        scenarios: &[(&testers::TESTERS, 1)],
        quick_runs: 60_000,
        rule: "A tester passes exactly if every test file was run and its results equal the expectation; expectations, sources and other files change only as asked for",
        real: &["oak-testing LexerTester, ParserTester, BuilderTester", "oak-json", "walkdir", "std::fs, threads, channels"],
        stub: &["kernel file system (simrt::fs)", "speed and panics of the code under test (generated)"],
        assumptions: &[],
    },
    Prop {
        id: "L01",
        scenarios: &[(&service::SERVICE, 1)],
        quick_runs: 100_000,
        rule: "Each answer is the one for versions of files and symbols that may have been current during the call, complete, once each and in order",
        real: &["oak-lsp LanguageService, WorkspaceManager", "oak-resolver", "oak-vfs MemoryVfs, DiskVfs", "oak-core parsing", "std::fs"],
        stub: &["kernel file system (simrt::fs)", "language and callers (generated)", "executor"],
        assumptions: &[],
    },
    Prop {
        id: "S01",
        scenarios: &[(&text::EDITS, 1)],
        quick_runs: 150_000,
        rule: "Every query on a buffer or a snapshot equals the same query on the string that the edits before it make; edits report a range outside which the text is unchanged",
        real: &["oak-core SourceText, RopeBuffer, RopeSource, ChunkedBuffer, ChunkedSource, Source"],
        stub: &["editors and readers (generated)"],
        assumptions: &["edits of one batch do not overlap; positions are in range and on character boundaries"],
    },
    Prop {
        id: "S02",
        scenarios: &[(&text::SCAN, 1)],
        quick_runs: 150_000,
        rule: "Every operation of a cursor, a lexer state or a scanner on a text in pieces returns what it returns on the whole text as a string (reference implementations over &str)",
        real: &["oak-core SourceCursor, LexerState, SimdScanner, CommentConfig, StringConfig, WhitespaceConfig, ChunkedSource, RopeSource, SourceText"],
        stub: &["arrival of the text and the lexer driving it (generated)"],
        assumptions: &["positions are on character boundaries"],
    },
];

fn main() {
    std::process::exit(simrt::runner::main(PROPS, PROBES))
}
