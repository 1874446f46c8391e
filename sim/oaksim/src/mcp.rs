//! M01, M02: the MCP server on simulated byte streams.
use oak_core::{Range, errors::OakError};
use oak_json::JsonLanguage;
use oak_lsp::{LanguageService, WorkspaceManager};
use oak_mcp::{McpServer, SemanticSearch};
use oak_vfs::MemoryVfs;
use serde::{Deserialize, Serialize};
use simrt::{
    Fault, Rng, Scenario, Value,
    aio::{self, Act, maybe_pending},
    check, ev, fault, fault_val, json,
};
use std::{
    future::Future,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};
use tokio::io::{AsyncRead, AsyncWrite, BufReader, ReadBuf};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Line {
    /// See `text`.
    k: u32,
    id: Value,
    a: u64,
    /// Padding in characters (long lines).
    pad: u64,
    /// 0 "\n", 1 "\r\n", 2 leading and trailing blanks
    end: u32,
    /// The client sends this line only when every earlier request has been answered.
    wait: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Conn {
    lines: Vec<Line>,
    cap: u64,
    /// No newline after the last line.
    open_end: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    conns: Vec<Conn>,
    searcher: bool,
    /// Byte position replaced by an invalid UTF-8 byte in connection 0 (0: none).
    bad_byte: u64,
}
fn make(r: &mut Rng, faulty: bool) -> Value {
    let mut conns = vec![];
    let n_conn = if r.chance(600) { 1 } else { r.range(2, 3) };
    let lockstep = r.below(1000);
    for _ in 0..n_conn {
        let cap = if r.chance(500) { r.range(1, 24) } else { 1u64 << r.range(5, 13) };
        let mut lines = vec![];
        for _ in 0..r.range(1, 9) {
            let id = match r.below(8) {
                0 => json!(format!("id-{}", r.below(1000))),
                1 => json!(r.next() >> 1),
                2 => json!(-(r.below(1000) as i64)),
                3 => json!(null),
                4 => json!("é\n\"q\u{1F600}"),
                5 => json!(1.5),
                _ => json!(r.below(1000)),
            };
            let most = match r.below(1000) {
                0..100 if cap < 64 => 40 * cap,
                0..15 if cap >= 1024 => 300_000,
                0..100 => 9000,
                _ => 30,
            };
            let pad = r.below(most);
            let a = if r.chance(50) { r.next() >> 11 } else { r.below(60) };
            lines.push(Line { k: r.below(16) as u32, id, a, pad, end: r.below(5) as u32, wait: r.chance(lockstep) })
        }
        conns.push(Conn { lines, cap, open_end: r.chance(300) })
    }
    let mut f: Vec<(Fault, u64)> = vec![(Fault::StreamPending, 300), (Fault::StreamShort, 700), (Fault::StreamWriteShort, 500), (Fault::TaskPending, 500)];
    if faulty {
        f.extend([(Fault::StreamErr, 60), (Fault::StreamEof, 60), (Fault::StreamWriteErr, 60)]);
    }
    let c = Case { conns, searcher: r.chance(700), bad_byte: if faulty && r.chance(100) { r.range(1, 400) } else { 0 } };
    json!({"cfg": simrt::make_cfg(r, true, &f), "w": c})
}
fn uri(l: &Line) -> String {
    let mut u = format!("file:///d/{}", l.a);
    for k in 0..l.pad {
        u.push(if k % 7 == 0 { 'é' } else { 'p' })
    }
    u
}
/// Names that resemble those of methods
static LIKE: &[&str] = &["tools/list ", " tools/list", "tools/list/", "Tools/list", "tools/lis", "tools/listing", "initialize/", "initialized", "tools/call ", "/tools/list", "tools", "tools//list", "", "tools.list", "notifications/initialized"];
fn limit(l: &Line) -> u64 {
    if l.a < 60 { l.a % 7 } else { l.a % 300 }
}
/// The bytes of a line (without terminator), the response it deserves, and the service calls it causes.
fn text(l: &Line, searcher: bool) -> (String, Option<Value>, Vec<String>) {
    let id = l.id.clone();
    let call = |name: &str, args: Value| json!({"jsonrpc": "2.0", "id": id, "method": "tools/call", "params": {"name": name, "arguments": args}}).to_string();
    let ok = |v: Value| Some(json!({"jsonrpc": "2.0", "id": id, "result": {"content": [{"type": "text", "text": v.to_string()}]}}));
    let fail = || Some(json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32000}}));
    let u = uri(l);
    match l.k {
        0 => (json!({"jsonrpc": "2.0", "id": id, "method": "initialize", "params": {"x": u}}).to_string(), Some(json!({"jsonrpc": "2.0", "id": id, "result": "<initialize>"})), vec![]),
        1 => (json!({"jsonrpc": "2.0", "id": id, "method": "tools/list"}).to_string(), Some(json!({"jsonrpc": "2.0", "id": id, "result": "<tools>"})), vec![]),
        2 | 3 => {
            let call_log = format!("hover {u} {} {}", l.a, l.a);
            (call("hover", json!({"uri": u, "offset": l.a})), ok(json!(if l.a % 5 == 0 { String::new() } else { format!("H {u} {}", l.a) })), vec![call_log])
        }
        4 => (call("symbols", json!({"uri": u})), ok(json!([])), vec![format!("symbols {u}")]),
        5 => {
            let n = if l.a % 2 == 0 { "references" } else { "definition" };
            (call(n, json!({"uri": u, "offset": l.a})), ok(json!([])), vec![format!("{n} {u} {}", l.a)])
        }
        6 => (call("completion", json!({"uri": u, "offset": l.a})), ok(json!([])), vec![format!("completion {u} {}", l.a)]),
        7 | 8 => {
            let t = call("semantic_search", json!({"query": u, "limit": limit(l)}));
            if !searcher {
                (t, fail(), vec![])
            }
            else if l.a % 9 == 1 {
                (t, fail(), vec![format!("search {u} {}", limit(l))])
            }
            else {
                (t, ok(json!((0..limit(l).min(if u.len() < 1000 { 200 } else { 4 })).map(|k| format!("{u}#{k}")).collect::<Vec<_>>())), vec![format!("search {u} {}", limit(l))])
            }
        }
        9 => (json!({"jsonrpc": "2.0", "id": id, "method": if l.a % 3 == 0 { LIKE[l.a as usize / 3 % LIKE.len()].to_string() } else { format!("no/{u}") }}).to_string(), Some(json!({"jsonrpc": "2.0", "id": id, "error": {"code": -32601}})), vec![]),
        10 => (call("no-such-tool", json!({"uri": u})), fail(), vec![]),
        11 => (call("hover", if l.a % 2 == 0 { json!({"offset": 3}) } else { json!({"uri": u}) }), fail(), vec![]),
        12 => (json!({"jsonrpc": "2.0", "method": "notifications/initialized", "params": {"x": u}}).to_string(), None, vec![]),
        13 => ("".into(), None, vec![]),
        14 => (
            match l.a % 12 {
                0 => format!("{{\"u\":\"{u}\"}}{{\"b\":2}}"),
                1 => "[]".into(),
                2 => "null".into(),
                3 => format!("\"{u}\""),
                4 => "{}".into(),
                5 => "}{".into(),
                6 => format!("// {u}"),
                7 => "[1, 2]".into(),
                _ => format!("{{\"jsonrpc\": garbage {u}"),
            },
            None,
            vec![],
        ),
        _ => (call("diagnostics", json!({"uri": u})), ok(json!([])), vec![format!("diagnostics {u}")]),
    }
}
struct Svc {
    vfs: MemoryVfs,
    ws: WorkspaceManager,
    calls: Arc<Mutex<Vec<String>>>,
}
impl Svc {
    fn note(&self, s: String) {
        self.calls.lock().unwrap().push(s)
    }
}
pub async fn slow() {
    while fault(Fault::TaskPending) {
        Yield(false).await
    }
    maybe_pending(Fault::TaskPending).await
}
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
impl LanguageService for Svc {
    type Lang = JsonLanguage;
    type Vfs = MemoryVfs;
    fn vfs(&self) -> &MemoryVfs {
        &self.vfs
    }
    fn workspace(&self) -> &WorkspaceManager {
        &self.ws
    }
    fn document_symbols<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<oak_lsp::types::StructureItem>> + Send + 'a {
        async move {
            slow().await;
            self.note(format!("symbols {uri}"));
            vec![]
        }
    }
    fn definition<'a>(&'a self, uri: &'a str, range: Range<usize>) -> impl Future<Output = Vec<oak_lsp::LocationRange>> + Send + 'a {
        async move {
            slow().await;
            self.note(format!("definition {uri} {}", range.start));
            vec![]
        }
    }
    fn hover(&self, uri: &str, range: Range<usize>) -> impl Future<Output = Option<oak_lsp::Hover>> + Send + '_ {
        let uri = uri.to_string();
        async move {
            slow().await;
            self.note(format!("hover {uri} {} {}", range.start, range.end));
            if range.start % 5 == 0 { None } else { Some(oak_lsp::Hover { contents: format!("H {uri} {}", range.start), range: None }) }
        }
    }
    fn references<'a>(&'a self, uri: &'a str, range: Range<usize>) -> impl Future<Output = Vec<oak_lsp::LocationRange>> + Send + 'a {
        async move {
            slow().await;
            self.note(format!("references {uri} {}", range.start));
            vec![]
        }
    }
    fn completion<'a>(&'a self, uri: &'a str, offset: usize) -> impl Future<Output = Vec<oak_lsp::CompletionItem>> + Send + 'a {
        async move {
            slow().await;
            self.note(format!("completion {uri} {offset}"));
            vec![]
        }
    }
    fn diagnostics<'a>(&'a self, uri: &'a str) -> impl Future<Output = Vec<oak_lsp::types::Diagnostic>> + Send + 'a {
        async move {
            slow().await;
            self.note(format!("diagnostics {uri}"));
            vec![]
        }
    }
}
struct Search {
    calls: Arc<Mutex<Vec<String>>>,
}
impl SemanticSearch for Search {
    async fn search(&self, query: &str, limit: usize) -> Result<Vec<String>, OakError> {
        slow().await;
        self.calls.lock().unwrap().push(format!("search {query} {limit}"));
        let a: u64 = query.trim_start_matches("file:///d/").chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0);
        if a % 9 == 1 {
            return Err(OakError::semantic_error("index is broken"));
        }
        Ok((0..limit.min(if query.len() < 1000 { 200 } else { 4 })).map(|k| format!("{query}#{k}")).collect())
    }
}
#[derive(Default)]
struct Pipe {
    input: Vec<u8>,
    /// (position, number of responses that must have been delivered before the byte at that position is available)
    gates: Vec<(usize, usize)>,
    pos: usize,
    buf: Vec<u8>,
    delivered: Vec<u8>,
    waker: Option<Waker>,
    pended: bool,
    read_failed: bool,
    early_eof: bool,
    eof: bool,
    /// Line ends in `delivered`.
    answers: usize,
    write_failed: bool,
}
struct Rd(Arc<Mutex<Pipe>>);
struct Wr(Arc<Mutex<Pipe>>);
impl AsyncRead for Rd {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        let mut p = self.0.lock().unwrap();
        if p.early_eof || p.eof {
            return Poll::Ready(Ok(()));
        }
        let have = p.answers;
        let limit = p.gates.iter().filter(|g| g.0 >= p.pos && g.1 > have).map(|g| g.0).min().unwrap_or(p.input.len());
        let avail = limit - p.pos;
        if avail == 0 && limit < p.input.len() {
            p.waker = Some(cx.waker().clone());
            simrt::probe("mcp:client waits for an answer");
            return Poll::Pending;
        }
        let mut pended = p.pended;
        let a = aio::read_act(avail, b.remaining(), &mut pended);
        p.pended = pended;
        match a {
            Act::Pending => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Err(k) => {
                // An interrupted read is retried, not a failure.
                if k != std::io::ErrorKind::Interrupted {
                    p.read_failed = true;
                }
                Poll::Ready(Err(k.into()))
            }
            Act::Eof => {
                p.early_eof = true;
                Poll::Ready(Ok(()))
            }
            Act::Take(n) => {
                let q = p.pos;
                p.eof = n == 0;
                b.put_slice(&p.input[q..q + n]);
                p.pos += n;
                Poll::Ready(Ok(()))
            }
        }
    }
}
impl AsyncWrite for Wr {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        let mut p = self.0.lock().unwrap();
        if fault(Fault::StreamPending) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let e = fault_val(Fault::StreamWriteErr, 3);
        if e != 0 {
            p.write_failed = true;
            if e == 3 {
                return Poll::Ready(Ok(0));
            }
            return Poll::Ready(Err([std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::Other][e as usize - 1].into()));
        }
        let mut n = b.len();
        if n > 1 {
            let v = fault_val(Fault::StreamWriteShort, (n - 1) as u32) as usize;
            if v != 0 {
                n = v
            }
        }
        p.buf.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        let mut p = self.0.lock().unwrap();
        if fault(Fault::StreamPending) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if fault_val(Fault::StreamWriteErr, 1) != 0 {
            p.write_failed = true;
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        let b = std::mem::take(&mut p.buf);
        p.answers += b.iter().filter(|c| **c == b'\n').count();
        p.delivered.extend_from_slice(&b);
        if let Some(w) = p.waker.take() {
            w.wake()
        }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn like(got: &Value, want: &Value) -> bool {
    if got["jsonrpc"] != json!("2.0") || got["id"] != want["id"] || got.get("id").is_none() {
        return false;
    }
    if let Some(e) = want.get("error") {
        return got["error"]["code"] == e["code"] && got["error"]["message"].as_str().is_some_and(|m| !m.is_empty()) && got.get("result").is_none();
    }
    if got.get("error").is_some() {
        return false;
    }
    match want["result"].as_str() {
        Some("<initialize>") => got["result"]["protocolVersion"].is_string() && got["result"]["serverInfo"]["name"].is_string() && got["result"]["capabilities"]["tools"].is_object(),
        Some("<tools>") => got["result"]["tools"].as_array().is_some_and(|t| !t.is_empty() && t.iter().all(|t| t["name"].is_string()) && ["hover", "semantic_search"].iter().all(|n| t.iter().any(|t| t["name"] == *n))),
        _ => got["result"] == want["result"],
    }
}
fn run_any(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    let calls: Arc<Mutex<Vec<String>>> = Default::default();
    let svc = Svc { vfs: MemoryVfs::new(), ws: WorkspaceManager::default(), calls: calls.clone() };
    if c.searcher {
        let s: &'static _ = Box::leak(Box::new(McpServer::new(svc).with_searcher(Search { calls: calls.clone() })));
        drive(&c, s, calls)
    }
    else {
        let s: &'static _ = Box::leak(Box::new(McpServer::new(svc)));
        drive(&c, s, calls)
    }
}
fn drive<E: SemanticSearch + 'static>(c: &Case, server: &'static McpServer<Svc, E>, calls: Arc<Mutex<Vec<String>>>)
where
    Svc: 'static,
{
    let mut js = vec![];
    let mut want_calls = vec![];
    let mut exact = true;
    for (n, conn) in c.conns.iter().enumerate() {
        let mut pipe = Pipe::default();
        let mut want = vec![];
        for (k, l) in conn.lines.iter().enumerate() {
            let (t, resp, cl) = text(l, c.searcher);
            if l.wait && !want.is_empty() {
                pipe.gates.push((pipe.input.len(), want.len()))
            }
            if l.end == 2 {
                pipe.input.extend_from_slice(b"  \t")
            }
            pipe.input.extend_from_slice(t.as_bytes());
            if l.end == 2 {
                pipe.input.extend_from_slice(b" \t")
            }
            if !(conn.open_end && k + 1 == conn.lines.len()) {
                pipe.input.extend_from_slice(if l.end == 1 { b"\r\n" } else { b"\n" });
            }
            if let Some(r) = resp {
                want.push((pipe.input.len(), r));
            }
            for x in cl {
                want_calls.push((n, x))
            }
        }
        let mut bad = None;
        if n == 0 && c.bad_byte > 0 && (c.bad_byte as usize) < pipe.input.len() && pipe.input[c.bad_byte as usize] != b'\n' {
            pipe.input[c.bad_byte as usize] = 0xff;
            bad = Some(c.bad_byte as usize);
        }
        let pipe = Arc::new(Mutex::new(pipe));
        let cap = conn.cap.max(1) as usize;
        let p2 = pipe.clone();
        js.push((
            simrt::spawn(move || {
                let r = aio::block_on(server.run(BufReader::with_capacity(cap, Rd(p2.clone())), Wr(p2.clone())));
                ev!("connection {n} ended: {r:?}");
                r
            }),
            pipe,
            want,
            bad,
        ));
    }
    for (n, (j, pipe, want, bad)) in js.into_iter().enumerate() {
        let r = simrt::join(j);
        let p = pipe.lock().unwrap();
        let out = String::from_utf8(p.delivered.clone()).unwrap_or_else(|_| simrt::violation("output is not text", &format!("{:?}", p.delivered)));
        let all = String::from_utf8([p.delivered.clone(), p.buf.clone()].concat()).unwrap_or_default();
        ev!("connection {n} got {} bytes: {}", out.len(), out.chars().take(2000).collect::<String>());
        if p.input.len() > 65_536 {
            simrt::probe("mcp:a very long line")
        }
        // What the server had received when the input ended.
        let consumed = p.pos;
        let cut = if p.early_eof { std::str::from_utf8(&p.input[..consumed]).err().map(|e| e.valid_up_to()) } else { None };
        let undecodable = bad.is_some_and(|b| b < consumed) || cut.is_some();
        let bad = cut.or(bad);
        let stop = if p.read_failed || undecodable { consumed } else { usize::MAX };
        let clean = !p.read_failed && !p.early_eof && !p.write_failed && bad.is_none();
        if !clean {
            exact = false
        }
        if p.read_failed {
            simrt::probe("mcp-faults:read error")
        }
        if p.write_failed {
            simrt::probe("mcp-faults:write error")
        }
        if p.read_failed || p.write_failed {
            check!(r.is_err(), "stream failure not reported", "connection {n}: run returned {r:?}");
        }
        else if clean || (p.early_eof && bad.is_none()) {
            check!(r.is_ok(), "error on a healthy stream", "connection {n}: run returned {r:?}");
        }
        let mut due: Vec<&Value> = vec![];
        for (end, v) in &want {
            // A complete line is one whose terminator was received; at a clean end of input the rest counts too.
            let line_end = *end;
            let complete = if p.early_eof { line_end <= consumed || (line_end > consumed && p.input[consumed..line_end].iter().all(|b| b.is_ascii_whitespace())) } else { line_end <= stop };
            if undecodable && line_end > bad.unwrap() {
                break;
            }
            if complete {
                due.push(v)
            }
        }
        if p.read_failed && !p.eof && p.input.last() != Some(&b'\n') && consumed == p.input.len() {
            // The unterminated last line was still waiting for more input when the stream failed.
            if due.len() == want.len() && want.last().is_some_and(|w| w.0 == p.input.len()) {
                due.pop();
            }
        }
        let lines: Vec<&str> = if p.write_failed { all.split('\n').collect() } else { out.split('\n').collect() };
        if p.write_failed {
            // Whole responses in order, then possibly a part of the next.
            for (k, l) in lines.iter().enumerate() {
                if k + 1 < lines.len() {
                    let v: Value = serde_json::from_str(l).unwrap_or_else(|e| simrt::violation("garbled output", &format!("{l}: {e}")));
                    check!(k < due.len() && like(&v, due[k]), "wrong response", "connection {n}: response {k} is {v}, due {:?}", due.get(k));
                }
            }
            continue;
        }
        check!(p.buf.is_empty(), "response not flushed", "connection {n}: {} bytes stayed in the writer", p.buf.len());
        check!(lines.last() == Some(&""), "response not terminated", "connection {n}: {out}");
        let got: Vec<Value> = lines[..lines.len() - 1].iter().map(|l| serde_json::from_str(l).unwrap_or_else(|e| simrt::violation("garbled output", &format!("{l}: {e}")))).collect();
        check!(got.len() == due.len(), "wrong number of responses", "connection {n}: {} responses, {} due; got {:?}; due {:?}", got.len(), due.len(), got, due);
        for (k, (g, d)) in got.iter().zip(&due).enumerate() {
            check!(like(g, d), "wrong response", "connection {n}: response {k} is {g}, due {d}");
        }
    }
    if exact {
        let mut got = calls.lock().unwrap().clone();
        let mut want: Vec<String> = want_calls.into_iter().map(|x| x.1).collect();
        got.sort();
        want.sort();
        check!(got == want, "requests not executed exactly once", "service calls {:?}, due {:?}", got, want);
    }
}
pub static CLEAN: Scenario = Scenario { name: "mcp", about: "clients talk to one MCP server over fragmented, slow streams", make: |r, _| make(r, false), run: run_any };
pub static FAULTY: Scenario = Scenario { name: "mcp-faults", about: "as mcp, and the streams fail or end anywhere", make: |r, _| make(r, true), run: run_any };
