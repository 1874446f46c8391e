#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
SIM = "deterministic simulation: seeded schedules and injected faults over the real code"
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, observe=None, state=None, tech=SIM, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=observe, state=state, tech=tech, reason=reason))

prop("V01", "The in-memory file system is linearizable",
  "Whatever the threads sharing one in-memory file system do, every write, removal, read, existence query, metadata query, listing and line map behaves as if executed at one moment between its call and its return. A read yields the whole contents of one write, never a mixture, and the metadata (length, modification time in seconds since 1970, kind) belong to the contents current at that moment. Clones of the file system share the same files.",
  ["schedules", "histories"], "every interleaving of any number of threads calling write, remove, read, exists, metadata, list and line_map on shared or cloned handles, at every system time",
  "The tests write and read from one thread; whether a read, a listing or metadata may fall between the parts of a concurrent write depends on the schedule.",
  ["projects/oak-vfs/src/vfs/memory.rs", "projects/oak-vfs/src/lib.rs", "projects/oak-vfs/src/line_map.rs"],
  [("RwLock around the file table", "projects/oak-vfs/src/vfs/memory.rs"), ("Arc-shared contents", "projects/oak-vfs/src/vfs/memory.rs")],
  observe=["results of Vfs and WritableVfs calls on MemoryVfs"])
prop("V02", "File ids are unique, stable and resolvable under concurrency",
  "While a file of the in-memory file system exists, every thread sees the same id for it, and the id leads back to that file. Two files never share an id, not even after one of them was removed, and a file that exists always has one; the text handed out for a file carries that file's id.",
  ["schedules", "histories"], "every interleaving of threads creating, removing, re-creating and identifying files",
  "A test can compare ids from one thread; two first lookups racing, or a lookup racing a removal, need the right schedule.",
  ["projects/oak-vfs/src/vfs/memory.rs"], [("id maps and counter under the same lock as the files", "projects/oak-vfs/src/vfs/memory.rs")])
prop("V03", "The disk file system reports and stores exact contents on a failing disk",
  "Reads, metadata, kind and existence queries, listings and line maps of the disk file system are exactly what the disk holds at that moment, or report absence when the disk fails; they never return partial or foreign contents, whatever short reads and interrupted system calls occur. A write that met no disk failure leaves exactly the written text (creating missing directories) and a removal leaves nothing; no call touches any other file, and after a crash only files with an unfinished call may differ from what was last written.",
  ["schedules", "crash_points", "fault_sequences", "histories"], "all sequences of calls by concurrent threads on a shared or separate handle, with relative and absolute names, every placement of short and interrupted reads and writes, I/O errors, full disk, and a crash at any system call",
  "The tests use a healthy temporary directory; which call fails, how a read is cut and where the process dies are not controllable from them.",
  ["projects/oak-vfs/src/vfs/disk.rs", "projects/oak-vfs/src/lib.rs"], [("path mapping and std::fs calls", "projects/oak-vfs/src/vfs/disk.rs")])
prop("V04", "The file watcher forwards every change once and watches what it was told",
  "Every creation, change and removal the operating system reports for a watched path reaches the callback exactly once per affected path, in order, with its kind and path; other notifications and notification errors produce nothing and lose nothing. After every successful call the set of watched paths is exactly what the calls asked for (recursively watched), unwatching all stops everything even if single paths fail, and failures are reported.",
  ["schedules", "histories", "fault_sequences"], "all sequences of watch, unwatch and unwatch-all calls, concurrent with any stream of notifications (duplicated, delayed, erroneous, with several paths or none), and failures of the operating system's watch calls",
  "Real notifications arrive at times no test controls; the tests cover one file and one change.",
  ["projects/oak-vfs/src/vfs/watch.rs"], [("event translation in the notify callback", "projects/oak-vfs/src/vfs/watch.rs"), ("list of watched paths", "projects/oak-vfs/src/vfs/watch.rs")])
prop("W01", "Workspace folder lookup finds the innermost registered folder",
  "For every file, the workspace reports the innermost folder that contains it (by path components, with percent-decoding) among the folders registered at that moment, and none only if none contains it; folders added before the call and not removed are always seen, folders removed before it never. Listing yields every registered folder once, invalid folders are ignored, and converting a path to a file URI and back is the identity.",
  ["schedules", "histories"], "all interleavings of threads initializing, adding, removing, listing and looking up folders, including nested, sibling-prefix and percent-encoded folders",
  "The tests look folders up from one thread after all were added.",
  ["projects/oak-lsp/src/workspace.rs"], [("folder table and longest-prefix search", "projects/oak-lsp/src/workspace.rs")])
prop("R01", "Workspace symbols follow the last update of each file",
  "Each update of a file's symbols replaces that file's symbols at one moment: lookups by qualified name, substring queries and per-file queries return only symbols of the current version of some file; a lookup finds a symbol of the most recently updated file that defines the name whenever there is one, and a query finds every current symbol whose qualified name contains it. In particular an update of one file never loses another file's symbol of the same name, whatever updates run concurrently.",
  ["schedules", "histories"], "all interleavings of updates, lookups and queries by several threads over files that define the same and different names, few or hundreds of symbols",
  "The tests update one file from one thread; lost or stale symbols need two files with equal names or overlapping updates.",
  ["projects/oak-resolver/src/lib.rs", "projects/oak-symbols/src/lib.rs"], [("symbol maps and update lock", "projects/oak-resolver/src/lib.rs")])
prop("R02", "Imports resolve to the first existing candidate",
  "Resolving an import yields the URI of the first existing candidate: beside the importing file first, then in the root directories in their order, and nothing if no candidate exists. A change of the root directories, also by initializing a workspace (its root first, then its folders), takes effect at one moment for all threads, and a disk failure can only hide a candidate, never produce a URI of a file that does not exist.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of resolutions and root changes by several threads, with failing and slow file queries, over all layouts of the candidates on disk, including links, absolute imports and imports with `..`",
  "The tests resolve on a healthy disk with fixed roots.",
  ["projects/oak-resolver/src/lib.rs", "projects/oak-lsp/src/workspace.rs"], [("StandardResolver::resolve", "projects/oak-resolver/src/lib.rs"), ("root list lock", "projects/oak-resolver/src/lib.rs"), ("WorkspaceManager::initialize", "projects/oak-lsp/src/workspace.rs")])
prop("M01", "The MCP server answers every request exactly once, in order",
  "On every connection the server writes, for each request and in their order, exactly one newline-terminated JSON-RPC response carrying the request's id and the result of that request alone (or the error it deserves), and nothing for notifications, blank and malformed lines. This holds however the byte streams are fragmented and delayed, a request is answered (and flushed) before the next input is needed, each tool call reaches the language service exactly once, and connections sharing a server do not disturb each other.",
  ["schedules", "inputs", "histories"], "all sequences of requests, notifications and malformed lines on several concurrent connections, all fragmentations of input and output, all delays of streams and of the service's futures",
  "The tests send one request through a complete in-memory buffer; chunk borders, pending I/O and concurrent connections are never varied.",
  ["projects/oak-mcp/src/lib.rs"], [("read_line loop of run", "projects/oak-mcp/src/lib.rs"), ("response writing and flushing", "projects/oak-mcp/src/lib.rs")])
prop("M02", "The MCP server survives failing connections without wrong answers",
  "When a connection fails, ends in the middle of a line or carries bytes that are not text, every response already due was written whole and in order, nothing else follows, the server's run reports stream failures as errors and a clean end as success, and other connections on the same server are unaffected. Interrupted reads are transparent.",
  ["schedules", "fault_sequences", "crash_points"], "a read or write failure, early end or undecodable byte at every position of every connection, under all fragmentations and delays",
  "No test lets a stream fail.",
  ["projects/oak-mcp/src/lib.rs"], [("error propagation out of run", "projects/oak-mcp/src/lib.rs")])
prop("E01", "The interactive editor mirrors the keys typed and always restores the terminal",
  "After every key the screen shows exactly the edited line and cursor that the keys typed so far produce (for every character, also multi-byte ones), entered code is passed on once, complete and unchanged, and other terminal events change nothing. However a session ends (exit, end of input, an error of the terminal or of the output, a failing or panicking evaluation), the terminal is out of raw mode afterwards and the failure is reported, and code is never evaluated in raw mode.",
  ["inputs", "histories", "fault_sequences"], "all sequences of keys and terminal events, with and without highlighting, prompts and indentation, and a failure of any terminal call, write or evaluation",
  "The tests check the line buffer with a few ASCII characters; no test runs the editor against a terminal, let alone a failing one.",
  ["projects/oak-repl/src/lib.rs"], [("LineBuffer", "projects/oak-repl/src/lib.rs"), ("raw-mode guard", "projects/oak-repl/src/lib.rs")])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "more.py")) else None

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(f"{root}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["observe"]: a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
NOTE = "Seeded random search over schedules, inputs and faults: no violation on the runs made, not a proof. The code of /repo runs unchanged (compiled with basic-block instrumentation); trusted: the simulator (scheduler, simulated kernel interfaces), the reference model, the compiler."
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": [], "notes": "No hooks in /repo: the seams are the C library's symbols, patched OS layers of crossterm and notify in /verif/sim/shims, public traits, and compiler instrumentation. See DESIGN.md."}
for p in P:
    if p["reason"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough", "technique": p["tech"], "level": "exploration", "level_note": (p["note"] + " " if p["note"] else "") + NOTE})
with open(f"{root}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
