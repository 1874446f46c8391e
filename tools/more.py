CORE = "projects/oak-core/src/"
prop("S01", "Snapshots and edits of a text are exact under concurrency",
  "A text buffer (plain, rope or append-only) holds exactly the text its edits and pushes produce: edits of one batch refer to the text before the batch and all take effect together. Every read of a snapshot or text (length, ranges, characters, chunk walks, substring and character searches) answers exactly for the contents when the snapshot was taken, however the buffer changes afterwards and whichever threads read it; the reported affected range covers every position that changed, and snapshots keep the buffer's source id.",
  ["schedules", "histories", "inputs"], "all sequences of edit batches and pushes (empty to several tens of kilobytes, multi-byte text, across chunk borders) by writers, interleaved with snapshots that are read later by any threads",
  "The tests edit short ASCII texts in one piece and read them at once; chunk borders, shared chunks of older snapshots and interleaved readers are never varied.",
  [CORE + "source/streaming.rs", CORE + "source/rope.rs", CORE + "source/text.rs", CORE + "source/mod.rs"],
  [("copy-on-write chunks of RopeBuffer", CORE + "source/rope.rs"), ("shared chunks of ChunkedBuffer snapshots", CORE + "source/streaming.rs"), ("edit application", CORE + "source/text.rs")])
prop("S02", "Scanning a text does not depend on how it arrived",
  "A cursor or lexer state over a text that arrived in any pieces sees exactly what it would see of the same text in one piece: characters, bytes, look-ahead, prefix tests, searches, the rest, take-while runs, and the tokens of the configured whitespace, comment and string scanners all cover exactly the same bytes, line maps give every line and column, positions only move where the operation says, and no operation stops inside a character or skips text.",
  ["inputs", "histories"], "all texts, all partitions of them into chunks (rope, append-only, one-piece, borders inside any token), all sequences of cursor and lexer operations from any position, with several threads scanning the same snapshot",
  "Every lexer test scans a text that is one chunk; the borders are where the chunk cache, look-ahead and slow paths run.",
  [CORE + "source/cursor.rs", CORE + "lexer/mod.rs", CORE + "lexer/scan_string.rs", CORE + "lexer/scan_comment.rs", CORE + "lexer/scan_white_space.rs"],
  [("chunk cache of SourceCursor", CORE + "source/cursor.rs"), ("LexerState scanning", CORE + "lexer/mod.rs")])
prop("S03", "Every language parses a text the same however it arrives and is shared",
  "For every language, tokens, syntax tree, error and diagnostics of a text are a function of the text and the configuration alone: they are the same when the text arrives in any pieces, when other threads use the same parser at the same time, and whenever it is parsed; a parse that succeeds in one piece never panics in pieces, and parsing writes nothing to the standard streams.",
  ["inputs", "schedules"], "all texts of all 109 languages, valid or not, all partitions into chunks, all interleavings of threads sharing one parser",
  "The language tests parse whole files in one piece from one thread.",
  [CORE + "lexer/mod.rs", CORE + "source/cursor.rs", CORE + "parser/mod.rs", CORE + "builder/mod.rs", "examples/oak-json/src/lexer/mod.rs", "examples/oak-rust/src/lexer/mod.rs", "examples/oak-nim/src/lexer/mod.rs"],
  [("lexing through chunked cursors", CORE + "lexer/mod.rs"), ("language lexers and parsers", "examples")],
  note="Texts on which a language's own parser does not return within 400000 simulated steps in one piece get no verdict (counted by a probe).")
prop("I01", "Incremental parsing equals parsing from scratch",
  "After any history of edits, a parse session delivers exactly what a fresh session delivers for the same text: the same tokens, tree, token provenance, error and diagnostics. This holds for valid and invalid documents, edits taken back, several edits at once, texts held in pieces, sessions handed from thread to thread, and sessions running beside each other.",
  ["histories", "inputs", "schedules"], "all documents and all sequences of edit batches, in every language (most runs in those that reuse subtrees), on any number of threads",
  "The incremental tests make one or two fixed edits; wrongly reused subtrees need a particular edit next to a particular node.",
  [CORE + "parser/state.rs", CORE + "parser/session.rs", CORE + "builder/mod.rs", CORE + "memory/arena.rs", CORE + "lexer/mod.rs", "examples/oak-json/src/parser/mod.rs", "examples/oak-rust/src/parser/mod.rs", "examples/oak-python/src/parser/mod.rs", "examples/oak-von/src/parser/mod.rs"],
  [("subtree reuse", CORE + "parser/state.rs"), ("generations of arenas", CORE + "parser/session.rs"), ("token cache", CORE + "lexer/mod.rs")],
  note="Texts on which a language's own parser does not return within 400000 simulated steps get no verdict.")
prop("I02", "A parse session survives failed and interrupted parses",
  "After a parse that ended in an error, or was interrupted by a panic at any access to the text, the session holds no tree of the failed parse and its next parses deliver exactly what a fresh session delivers. No tree is read after its memory was given back.",
  ["fault_sequences", "crash_points", "histories"], "all histories of edits over valid and invalid documents, with a panic at any access to the text in any parse, and sessions handed from thread to thread afterwards",
  "No test parses again after an error, and none interrupts a parse.",
  [CORE + "parser/session.rs", CORE + "parser/state.rs", CORE + "builder/mod.rs", CORE + "memory/arena.rs"],
  [("root and arenas kept across parses", CORE + "parser/session.rs")],
  note="Texts on which a language's own parser does not return within 400000 simulated steps get no verdict.")
prop("S04", "Incremental lexing equals lexing from scratch",
  "Lexing a text again with the tokens cached before its edits, from the first place the edits affected (as the buffers report it, or any earlier one; the text's length if nothing changed), gives exactly the tokens and diagnostics of lexing it from scratch. This holds for any sequence of edit batches, including texts extended or cut at their end, caches that offer their tokens as a slice or one by one, caches handed on, and lexers whose tokens depend on their own text and the token that follows; a lexing that was interrupted leaves the cache usable.",
  ["histories", "inputs", "fault_sequences"], "all histories of edit batches over texts held in any pieces, with a panic at any access to the text",
  "No test lexes with cached tokens from a place inside a text; which tokens an edit beside them changes depends on the exact place.",
  [CORE + "lexer/mod.rs", CORE + "parser/session.rs", CORE + "source/rope.rs", CORE + "source/text.rs"],
  [("reuse of cached tokens", CORE + "lexer/mod.rs"), ("token cache of sessions", CORE + "parser/session.rs"), ("affected range of edits", CORE + "source/rope.rs")],
  note="The language is one of the harness, because no language crate asks for reuse.")
prop("A01", "Memory handed out by an arena stays valid, distinct and bounded",
  "Everything allocated from a syntax arena (values, slices, token, child and metadata lists, of any size and from iterators of any claimed length) keeps its contents and a place of its own, properly aligned, until the arena ends, however the arena grows, which threads own or read it, and whatever happens to other arenas and to recycled chunks. All memory is given back when the arena ends, no byte outside the allocation is touched, and a session that parses the same documents over and over does not hold ever more memory.",
  ["schedules", "histories", "inputs"], "all sequences of allocations (sizes around the chunk sizes, large ones, iterators that allocate or yield too much meanwhile), arenas passed between and dropped by any threads, and long histories of parses",
  "The tests allocate a few small values in one thread and never look at an earlier allocation again.",
  [CORE + "memory/arena.rs", CORE + "parser/session.rs", CORE + "parser/state.rs"],
  [("chunk growth and recycling", CORE + "memory/arena.rs"), ("arena generations of a session", CORE + "parser/session.rs")])
TST = "projects/oak-testing/src/"
prop("T01", "The file-driven test runners give true verdicts and spare the files",
  "A run of the lexer, parser or builder tests over a directory passes only if every file with a configured extension below it was run once and its results equal its recorded expectation. A missing expectation is written from the results (the parser tests then fail and name it), expectations under the old name are adopted, and existing expectations, sources and all other files never change unless regeneration is asked for, which rewrites every expectation. Disk failures, timeouts and panics of the tested code fail the run, with an error for the first two; a failing file is named rightly, and a run without failing file passes. A run does not outlast its timeouts.",
  ["inputs", "fault_sequences", "crash_points", "schedules"], "all directory trees of sources, expectations in any state, several runners at once, tested code of any speed, and disk faults or an end of the process at any system call",
  "The runners' own tests run over correct files on a healthy disk; a runner that passes by mistake makes every language's tests worthless without any of them failing.",
  [TST + "lib.rs", TST + "lexing.rs", TST + "parsing.rs", TST + "building.rs"],
  [("comparison and adoption of expectations", TST + "lexing.rs"), ("expectations of trees and errors", TST + "parsing.rs"), ("timeouts", TST + "building.rs")])
prop("L01", "A language service answers from the current versions of its files",
  "The answers that a language service gives by default come from the current files: with_root and with_roots hand over the tree of each file that exists, once, in the order asked, whatever the order in which the trees become ready and whether or not earlier requests were dropped; document and workspace symbols are those of the current versions; the definition of a reference is looked up in the symbol table, then in the imports; list_all_files names each file below a folder once, and a disk failure hides nothing but what it struck and what lies below that. Concurrent requests and edits never mix versions of one file.",
  ["schedules", "histories", "fault_sequences"], "all workspaces over the in-memory and the disk file system, requests from several threads or tasks at once, trees that become ready in any order, dropped requests, concurrent edits, and disk faults",
  "The tests ask one request at a time about fixed files whose trees are ready at once.",
  ["projects/oak-lsp/src/service.rs", "projects/oak-lsp/src/workspace.rs", "projects/oak-vfs/src/vfs/memory.rs", "projects/oak-resolver/src/lib.rs"],
  [("default methods of LanguageService", "projects/oak-lsp/src/service.rs")])
prop("H01", "The file helpers give exact contents or an error",
  "Reading a source, a JSON document or an opened file through the helpers of oak-core and oak-testing gives exactly what the file holds, or an error: whenever the file does not exist, is no text (or no JSON), or the disk fails, never partial or invented contents and never a panic, whatever short reads and interrupted system calls occur. Creating a file makes the missing directories and an empty file that takes what is written to it; a creation that fails leaves the file as it was or empty, and no call touches any other file.",
  ["schedules", "fault_sequences", "inputs"], "all sequences of helper calls by concurrent threads on files of any contents and names, with every placement of short and interrupted reads and writes, I/O errors and a full disk",
  "The helpers have no tests of their own; the runners' tests use them on a healthy disk.",
  [CORE + "helpers/mod.rs", "projects/oak-testing/src/lib.rs"], [("std::fs calls of the helpers", CORE + "helpers/mod.rs"), ("std::fs calls of the helpers", "projects/oak-testing/src/lib.rs")])
prop("G01", "Every node of a tree is drawn once, whoever else draws",
  "However many threads turn syntax trees, named trees and graphs into pictures at the same time, every node of a converted tree has an id that no other node of the process has, shows its kind, and stands where it does in the tree; every layout holds exactly the nodes it was given, with their labels, types and sizes, and exactly one edge, from centre to centre, for each child (for graphs: for each edge between known nodes); the SVG, HTML and JSON pictures are well formed and hold all of these; and where nodes of a tree stand does not depend on what other threads draw.",
  ["schedules", "inputs"], "all interleavings of conversions, layouts and exports by concurrent threads over all trees and graphs",
  "The tests draw one small tree on one thread; node ids come from a counter that all threads share.",
  ["projects/oak-visualize/src/tree/mod.rs", "projects/oak-visualize/src/render/mod.rs"], [("NODE_ID_COUNTER and TreeNode::from", "projects/oak-visualize/src/tree/mod.rs"), ("Layout", "projects/oak-visualize/src/layout/mod.rs"), ("SvgRenderer and LayoutExporter", "projects/oak-visualize/src/render/mod.rs"), ("GraphLayout", "projects/oak-visualize/src/graph/mod.rs")])
prop("T02", "A test with a time limit gives its body's verdict or fails in time",
  "A function marked #[oak_test] runs its body once; it passes when the body ends within ten seconds, fails when the body panics (with any payload) within them, and in every other case fails when the ten seconds are over, whether the body ends later or never; the verdict comes as soon as it is decided, and tests that run at the same time, or whose bodies run on after their verdict, do not affect one another.",
  ["schedules", "inputs"], "all interleavings of tests and bodies of any duration, end and panic payload",
  "All tests that use it pass at once; a test that must fail cannot be in the suite.",
  ["projects/oak-macros/src/test.rs"], [("oak_test", "projects/oak-macros/src/test.rs")])
PURE = "A pure function of one input, computed by one thread without time, I/O, shared state or failures: there is no schedule, fault or history for a simulator to decide, and a seed would only pick the input. "
prop("P01", "Syntax trees cover their text without gap or overlap",
  "For every language and every text, the leaves of the parsed tree, in order, are exactly the text, and every node spans exactly its children.",
  ["inputs"], "all texts of all languages", "Tests sample a few documents per language.",
  [CORE + "tree/green_tree.rs", CORE + "tree/red_tree.rs", CORE + "builder/mod.rs"], [("green and red trees", CORE + "tree/red_tree.rs")],
  reason=PURE + "(What concurrency, pieces and edit histories can do to trees is claimed in S03, I01 and I02.)")
prop("P02", "Every parser ends on every text",
  "For every language and every text, lexing and parsing end, within time polynomial in the length of the text.",
  ["inputs"], "all texts of all languages", "Tests sample a few documents per language.",
  ["examples/oak-lua/src/parser/mod.rs", "examples/oak-nix/src/parser/mod.rs", CORE + "parser/state.rs"], [("parser loops", CORE + "parser/state.rs")],
  reason=PURE + "(It fails for some documents of lua, nix, rbq, swift, handlebars, typescript and r; S03, I01 and I02 give no verdict on those.)")
prop("P03", "Operator expressions parse by precedence and associativity",
  "For every table of operators and every sequence of operands and operators, PrattParser builds the tree that precedence and associativity define.",
  ["inputs"], "all operator tables and expressions", "Tests sample a few expressions.",
  [CORE + "parser/pratt.rs"], [("PrattParser", CORE + "parser/pratt.rs")], reason=PURE)
prop("P04", "Highlighting covers the text in order and exports it escaped",
  "For every text and language, the highlighted segments are the text in order, and each exporter's output, read back by a reader of its format, is the text.",
  ["inputs"], "all texts and themes", "Tests sample a few texts.",
  ["projects/oak-highlight/src/highlighter/mod.rs", "projects/oak-highlight/src/exporters/mod.rs"], [("exporters", "projects/oak-highlight/src/exporters/mod.rs")], reason=PURE)
prop("P05", "Formatting keeps the program and is idempotent",
  "Printing a document respects the line width wherever its groups allow, and formatting formatted text changes nothing.",
  ["inputs"], "all documents and configurations", "Tests sample a few documents.",
  ["projects/oak-pretty-print/src/document/printer.rs", "projects/oak-pretty-print/src/formatter/mod.rs"], [("printer", "projects/oak-pretty-print/src/document/printer.rs")], reason=PURE)
prop("P06", "Layouts keep nodes apart",
  "No two nodes of a tree layout overlap, and the layout engines take every graph, cycles included.",
  ["inputs"], "all trees, graphs and configurations", "Tests sample a few graphs.",
  ["projects/oak-visualize/src/layout/mod.rs", "projects/oak-visualize/src/render/mod.rs"], [("layouts", "projects/oak-visualize/src/layout/mod.rs")], reason=PURE + "(That pictures drawn by several threads hold every node once, with its label and edges, is claimed in G01.)")
prop("P07", "Diagnostics show the right lines and columns",
  "For every diagnostic and text, the console, HTML, LSP and plain emitters show the line, column and excerpt of the diagnostic's range.",
  ["inputs"], "all diagnostics and texts", "Tests sample a few diagnostics.",
  ["projects/oak-diagnostic/src/lib.rs"], [("emitters", "projects/oak-diagnostic/src/lib.rs")], reason=PURE)
