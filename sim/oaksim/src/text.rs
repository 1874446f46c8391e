//! S01: edited texts and their snapshots. S02: cursors and scanners over texts that arrive in pieces.
use core::range::Range;
use oak_core::{
    ElementType, Language, TokenType, UniversalElementRole, UniversalTokenRole,
    lexer::{
        CommentConfig, LexerState, StringConfig, Token, WhitespaceConfig,
        scan_number::{count_ascii_digit_prefix, count_ascii_hexdigit_prefix},
        scan_string::find_first_of_4,
        scan_white_space::count_space_tab_prefix,
    },
    source::{ChunkedBuffer, RopeBuffer, SimdScanner, Source, SourceCursor, SourceText, TextEdit},
};
use serde::{Deserialize, Serialize};
use simrt::{Rng, Scenario, Value, check, ev, json};
use std::sync::{Arc, Mutex};

// ---- texts ----
static UNITS: &[&str] = &["a", "é", "中", "\u{1F600}", " ", "\n", "\"", "\\", "/*", "*/", "//", "ab1_", "0123456789", "x\u{301}", "\t \r\n", "let", "_", "'", "ß\"", "A Z", "\0", "\u{feff}", "\r\n"];
/// A text as repetitions of units, so that long texts stay small in the replay file.
pub type Pieces = Vec<(usize, usize)>;
pub fn build(p: &Pieces) -> String {
    p.iter().map(|(u, n)| UNITS[u % UNITS.len()].repeat(*n)).collect()
}
pub fn pieces(r: &mut Rng, max: u64, long: bool) -> Pieces {
    (0..r.below(max + 1)).map(|_| (r.below(UNITS.len() as u64) as usize, if long && r.chance(120) { r.range(900, 5000) as usize } else if r.chance(150) { r.range(20, 80) as usize } else { r.range(1, 5) as usize })).collect()
}
/// The character boundary at or before `pm` thousandths of the text.
pub fn at(s: &str, pm: u64) -> usize {
    let mut k = ((s.len() as u64 * pm.min(1000) + 500) / 1000) as usize;
    while !s.is_char_boundary(k) {
        k -= 1
    }
    k
}
/// Like `at`, `off` bytes around a position (for positions near chunk borders).
pub fn near(s: &str, k: usize) -> usize {
    let mut k = k.min(s.len());
    while !s.is_char_boundary(k) {
        k -= 1
    }
    k
}

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Op {
    /// (start in thousandths, length in bytes, new text); made disjoint when applied.
    Edit(Vec<(u64, usize, Pieces)>, u64),
    Push(Pieces),
    Wait,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Q {
    All,
    Range(u64, u64),
    Char(u64),
    FindChar(u64, usize),
    FindStr(u64, Pieces),
    Walk,
    From(u64),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    kind: u8,
    id: Option<u32>,
    init: Pieces,
    writers: Vec<Vec<Op>>,
    readers: Vec<Vec<Vec<Q>>>,
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let long = r.chance(500);
    let pm = |r: &mut Rng| r.below(1001);
    let kind = r.below(3) as u8;
    let op = |r: &mut Rng| match r.below(if kind == 2 { 4 } else { 10 }) {
        0 if kind != 2 => Op::Wait,
        _ if kind == 2 => {
            if r.chance(150) {
                Op::Wait
            }
            else {
                Op::Push(pieces(r, 4, long))
            }
        }
        // Many edits at few places.
        _ if r.chance(30) => {
            let at: Vec<u64> = (0..r.range(1, 4)).map(|_| pm(r)).collect();
            Op::Edit((0..r.range(10, 60)).map(|_| (*r.pick(&at), if r.chance(900) { 0 } else { r.below(10) as usize }, pieces(r, 1, false))).collect(), r.next())
        }
        _ => Op::Edit((0..r.range(0, 4)).map(|_| (pm(r), if r.chance(400) { 0 } else { r.below(if long { 6000 } else { 30 }) as usize }, pieces(r, 3, long))).collect(), r.next()),
    };
    let nw = if r.chance(700) { 1 } else { 2 };
    let writers = (0..nw).map(|_| (0..r.range(1, if thorough { 14 } else { 8 })).map(|_| op(r)).collect()).collect();
    let q = |r: &mut Rng| match r.below(9) {
        0 => Q::All,
        1 | 2 => Q::Range(pm(r), pm(r)),
        3 => Q::Char(pm(r)),
        4 => Q::FindChar(pm(r), r.below(UNITS.len() as u64) as usize),
        5 | 6 => Q::FindStr(pm(r), pieces(r, 3, false)),
        7 => Q::Walk,
        _ => Q::From(pm(r)),
    };
    let readers = (0..r.range(1, 3)).map(|_| (0..r.range(1, 4)).map(|_| (0..r.range(1, 8)).map(|_| q(r)).collect()).collect()).collect();
    let c = Case { kind, id: r.chance(500).then(|| r.below(9) as u32), init: pieces(r, 6, long), writers, readers };
    json!({"cfg": simrt::make_cfg(r, true, &[]), "w": c})
}
enum Doc {
    Flat(SourceText),
    Rope(RopeBuffer),
    Chunks(ChunkedBuffer),
}
impl Doc {
    fn live(&self) -> &dyn Source {
        match self {
            Doc::Flat(s) => s,
            Doc::Rope(s) => s,
            Doc::Chunks(s) => s,
        }
    }
    fn snap(&self) -> Box<dyn Source> {
        match self {
            Doc::Flat(s) => {
                check!(s.is_empty() == (s.text().is_empty()), "length", "{:?} is said to be empty or not wrongly", clip(s.text()));
                Box::new(s.clone())
            }
            Doc::Rope(s) => Box::new(s.snapshot()),
            Doc::Chunks(s) => Box::new(s.snapshot()),
        }
    }
}
fn clip(s: &str) -> String {
    if s.len() > 60 { format!("{:?}.. ({} bytes)", &s[..near(s, 60)], s.len()) } else { format!("{s:?}") }
}
fn full(s: &dyn Source) -> String {
    s.get_text_in(Range { start: 0, end: s.length() }).into_owned()
}
/// Every query about `m` that `q` stands for, put to `s`.
fn ask(s: &dyn Source, m: &str, q: &Q, who: &str) {
    check!(s.length() == m.len() && s.is_empty() == m.is_empty(), "length", "{who}: length {} but the text has {} bytes", s.length(), m.len());
    match q {
        Q::All => {
            let t = full(s);
            check!(t == m, "contents", "{who}: the text is {} but must be {}", clip(&t), clip(m))
        }
        Q::Range(a, b) => {
            let (a, b) = (at(m, *a.min(b)), at(m, *a.max(b)));
            let t = s.get_text_in(Range { start: a, end: b });
            check!(t == m[a..b], "range", "{who}: text in {a}..{b} is {} but must be {}", clip(&t), clip(&m[a..b]))
        }
        Q::From(a) => {
            let a = at(m, *a);
            let t = s.get_text_from(a);
            check!(t == m[a..], "range", "{who}: text from {a} is {} but must be {}", clip(&t), clip(&m[a..]))
        }
        Q::Char(a) => {
            let a = at(m, *a);
            let c = s.get_char_at(a);
            check!(c == m[a..].chars().next(), "char", "{who}: character at {a} is {c:?} but must be {:?}", m[a..].chars().next())
        }
        Q::FindChar(a, u) => {
            let a = at(m, *a);
            let c = UNITS[u % UNITS.len()].chars().next().unwrap();
            let (x, y) = (s.find_char_from(a, c), m[a..].find(c).map(|k| a + k));
            check!(x == y, "find", "{who}: {c:?} from {a} found at {x:?} but is at {y:?}")
        }
        Q::FindStr(a, p) => {
            let a = at(m, *a);
            let p = build(p);
            let (x, y) = (s.find_str_from(a, &p), m[a..].find(&p).map(|k| a + k));
            check!(x == y, "find", "{who}: {} from {a} found at {x:?} but is at {y:?}", clip(&p))
        }
        Q::Walk => {
            let mut k = 0;
            let mut t = String::new();
            while k < s.length() {
                let c = s.chunk_at(k);
                check!(c.start <= k && c.end() > k && m.get(c.start..c.end()) == Some(c.text), "chunk", "{who}: the chunk for {k} is {}..{} {}", c.start, c.end(), clip(c.text));
                t.push_str(c.slice_from(k));
                k = c.end()
            }
            check!(t == m, "chunk", "{who}: the chunks make {} instead of {}", clip(&t), clip(m))
        }
    }
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap();
    let init = build(&c.init);
    let doc = match c.kind % 3 {
        0 => match c.id {
            Some(i) => Doc::Flat(SourceText::new_with_id(init.as_str(), i)),
            None => Doc::Flat(SourceText::new(init.as_str())),
        },
        1 => Doc::Rope(RopeBuffer::new_with_id(&init, c.id)),
        _ => {
            let mut b = ChunkedBuffer::new_with_id(c.id);
            b.push_str(&init);
            Doc::Chunks(b)
        }
    };
    let shared = Arc::new(Mutex::new((doc, init)));
    let mut hs = Vec::new();
    for ops in c.writers {
        let sh = shared.clone();
        hs.push(simrt::spawn(move || {
            for op in ops {
                let mut g = sh.lock().unwrap();
                let (doc, m) = &mut *g;
                match op {
                    Op::Wait => {
                        drop(g);
                        std::thread::yield_now()
                    }
                    Op::Push(p) => {
                        let t = build(&p);
                        if let Doc::Chunks(b) = doc {
                            b.push_str(&t);
                            m.push_str(&t);
                            ev!("push {} bytes", t.len());
                            ask(&*b, m, &Q::All, "after push_str")
                        }
                    }
                    Op::Edit(es, order) => edit(doc, m, &es, order),
                }
            }
        }))
    }
    for (k, rounds) in c.readers.into_iter().enumerate() {
        let sh = shared.clone();
        let id = c.id;
        hs.push(simrt::spawn(move || {
            let mut kept: Vec<(Box<dyn Source>, String)> = Vec::new();
            for qs in rounds {
                {
                    let g = sh.lock().unwrap();
                    for q in qs.iter().take(2) {
                        ask(g.0.live(), &g.1, q, "the buffer")
                    }
                    kept.push((g.0.snap(), g.1.clone()))
                }
                let (s, m) = kept.last().unwrap();
                check!(s.source_id() == id, "source id", "snapshot has source id {:?}, the buffer {id:?}", s.source_id());
                for q in &qs {
                    std::thread::yield_now();
                    ask(&**s, m, q, &format!("snapshot {} of reader {k}", kept.len()))
                }
            }
            for (n, (s, m)) in kept.iter().enumerate() {
                ask(&**s, m, &Q::All, &format!("snapshot {} of reader {k} at the end", n + 1));
                simrt::state(simrt::rng::hash_str(m))
            }
        }))
    }
    for h in hs {
        simrt::join(h)
    }
    let g = shared.lock().unwrap();
    for q in [Q::All, Q::Walk] {
        ask(g.0.live(), &g.1, &q, "the buffer at the end")
    }
}
fn edit(doc: &mut Doc, m: &mut String, es: &[(u64, usize, Pieces)], order: u64) {
    // Disjoint, in order of position; inserts at a position come before a replacement that starts there.
    let mut l: Vec<(usize, usize, String)> = Vec::new();
    let mut es: Vec<_> = es.to_vec();
    es.sort_by_key(|e| (e.0, e.1));
    for (a, n, p) in &es {
        let a = at(m, *a);
        let b = near(m, a + n).max(a);
        if l.last().map_or(true, |x| a >= x.1 && !(a == x.0 && x.1 > x.0)) {
            l.push((a, b, build(p)))
        }
    }
    let mut new = m.clone();
    for (a, b, t) in l.iter().rev() {
        new.replace_range(*a..*b, t)
    }
    // The order in which the edits are listed matters only between those at the same position.
    let mut idx: Vec<usize> = (0..l.len()).collect();
    Rng::new(order).shuffle(&mut idx);
    for i in 0..idx.len() {
        for j in i + 1..idx.len() {
            if l[idx[i]].0 == l[idx[j]].0 && idx[i] > idx[j] {
                idx.swap(i, j)
            }
        }
    }
    let edits: Vec<TextEdit> = idx.iter().map(|&i| TextEdit { span: Range { start: l[i].0, end: l[i].1 }, text: l[i].2.clone().into() }).collect();
    ev!("edit {:?}", l.iter().map(|(a, b, t)| (*a, *b, t.len())).collect::<Vec<_>>());
    // The shorter form tells where the change starts, and works on a copy without touching this one.
    let (short, rg) = match doc {
        Doc::Flat(s) => {
            let mut c = s.clone();
            let at = c.apply_edits(&edits);
            ask(&c, &new, &Q::All, "after the edits, in a copy");
            ask(s, m, &Q::All, "after edits in a copy");
            (at, s.apply_edits_range(&edits))
        }
        Doc::Rope(s) => {
            let mut c = s.clone();
            let at = c.apply_edits(&edits);
            ask(&c, &new, &Q::All, "after the edits, in a copy");
            ask(s, m, &Q::All, "after edits in a copy");
            (at, s.apply_edits_range(&edits))
        }
        Doc::Chunks(_) => return,
    };
    check!(short == rg.start, "affected range", "the affected range starts at {} or at {short}", rg.start);
    ask(doc.live(), &new, &Q::All, "after the edits");
    if l.is_empty() {
        check!(rg.start >= m.len(), "affected range", "no edits, but the text from {} counts as affected", rg.start)
    }
    else {
        let first = l.iter().map(|e| e.0).min().unwrap();
        check!(rg.start == first, "affected range", "the first edit is at {first} but the affected range starts at {}", rg.start);
        // What lies behind the range is as before.
        let tail = new.len().checked_sub(rg.end);
        check!(rg.end >= rg.start && tail.is_some_and(|n| n <= m.len() && m.len() - n >= first && m.get(m.len() - n..) == new.get(rg.end..)), "affected range", "the affected range {}..{} leaves out changed text (old {} bytes, new {} bytes)", rg.start, rg.end, m.len(), new.len());
    }
    *m = new
}
pub static EDITS: Scenario = Scenario { name: "text-edits", about: "Writers edit a text while readers query it and snapshots of it", make, run };

// ---- S02 ----
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Tok {
    Space,
    Line,
    Block,
    Str,
    Ident,
    Eof,
}
impl TokenType for Tok {
    const END_OF_STREAM: Self = Tok::Eof;
    type Role = UniversalTokenRole;
    fn role(&self) -> Self::Role {
        UniversalTokenRole::None
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum El {}
impl ElementType for El {
    type Role = UniversalElementRole;
    fn role(&self) -> Self::Role {
        UniversalElementRole::None
    }
}
#[derive(Clone, Debug)]
pub struct Sim;
impl Language for Sim {
    const NAME: &'static str = "sim";
    type TokenType = Tok;
    type ElementType = El;
    type TypedRoot = ();
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Mv {
    Set(u64),
    Border(usize, i64),
    Char,
    Byte,
    Chars(usize),
    /// So many bytes, wherever that is
    Bytes(usize),
    Peek,
    PeekAt(usize),
    Space,
    Digits,
    Ident,
    Until(usize),
    While(u8),
    WhileByte(u8),
    Starts(usize, bool),
    StartsHere(usize, bool),
    Find(usize, usize),
    FindPieces(Pieces),
    Rest,
    ScanSpace(bool),
    ScanComment(bool),
    ScanLine,
    ScanBlock,
    ScanStr(bool),
    ScanStrWide,
    ScanIdent,
    Eof,
    /// A position beyond the end of the text
    Beyond(usize),
    /// A cursor made at this place
    Fresh(usize),
    /// The end of the piece here, right after going to a position
    ChunkEnd(u64),
    Fast,
    Unlock(bool),
    Token(usize),
    TextIn(usize, usize),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Scan {
    /// The pieces in which the text arrives.
    parts: Vec<Pieces>,
    /// 0: pieces, 1: rope, 2: flat, 3: pieces cut at (pseudo-)random places
    kind: u8,
    cut: u64,
    /// The comment and string marks of the language
    style: usize,
    threads: Vec<Vec<Mv>>,
}
/// Line comment, block comment from and to, quotes; in the text they stand where the first style has its own.
type Style = (&'static str, &'static str, &'static str, &'static [char]);
static STYLES: &[Style] = &[
    ("//", "/*", "*/", &['"', '\'']),
    ("#", "(*", "*)", &['"', '`']),
    ("--", "{-", "-}", &['"']),
    ("", "<!--", "-->", &['\'', '"']),
    ("--", "--[[", "]]", &['"', '\'']),
    (";", "\u{ab}", "\u{bb}", &['"', '中']),
    ("中", "ab", "ba", &['é', '"']),
    ("//", "", "", &['"']),
];
fn styled(p: &Pieces, s: usize) -> String {
    let st = STYLES[s % STYLES.len()];
    p.iter()
        .map(|(u, n)| {
            match UNITS[u % UNITS.len()] {
                "//" if !st.0.is_empty() => st.0,
                "/*" if !st.1.is_empty() => st.1,
                "*/" if !st.2.is_empty() => st.2,
                u => u,
            }
            .repeat(*n)
        })
        .collect()
}
fn make_scan(r: &mut Rng, thorough: bool) -> Value {
    let long = r.chance(200);
    let mv = |r: &mut Rng| match r.below(49) {
        0 => Mv::Set(r.below(1001)),
        1..=5 => Mv::Border(r.below(40) as usize, r.below(7) as i64 - 5),
        6..=7 => Mv::Char,
        8 => Mv::Byte,
        9 => Mv::Chars(r.below(12) as usize),
        10..=11 => Mv::Peek,
        12 => Mv::PeekAt(r.below(8) as usize),
        13..=14 => Mv::Space,
        15..=16 => Mv::Digits,
        17..=18 => Mv::Ident,
        19 => Mv::Until(r.below(6) as usize),
        20..=21 => Mv::While(r.below(6) as u8),
        22 => Mv::WhileByte(r.below(4) as u8),
        23 => Mv::Starts(r.below(UNITS.len() as u64) as usize, r.chance(500)),
        24..=25 => Mv::StartsHere(r.range(1, 60) as usize, r.chance(500)),
        26..=28 => Mv::Find(r.below(80) as usize, r.range(1, 12) as usize),
        29 => Mv::FindPieces(pieces(r, 3, false)),
        30 => Mv::Rest,
        31 => Mv::ScanSpace(r.chance(500)),
        32 => Mv::ScanComment(r.chance(500)),
        33 => Mv::ScanLine,
        34 => Mv::ScanBlock,
        35..=36 => Mv::ScanStr(r.chance(700)),
        37 => Mv::ScanStrWide,
        38 => Mv::ScanIdent,
        39 => Mv::Bytes(r.below(9) as usize),
        40 => Mv::Beyond(r.below(9) as usize),
        41 => Mv::Fresh(r.below(3) as usize),
        42 => Mv::ChunkEnd(r.below(1001)),
        43..=44 => Mv::Fast,
        45 => Mv::Unlock(r.chance(600)),
        46 => Mv::Token(r.below(30) as usize),
        47 => Mv::TextIn(r.below(60) as usize, r.below(2000) as usize),
        _ => Mv::Eof,
    };
    let small = r.chance(500);
    let c = Scan {
        parts: (0..r.range(1, if small { 4 } else { 12 })).map(|_| pieces(r, 3, long)).collect(),
        kind: *r.pick(&[0, 0, 1, 2, 3, 3, 3]),
        cut: r.range(1, 40),
        style: if r.chance(400) { 0 } else { r.below(STYLES.len() as u64) as usize },
        threads: (0..if r.chance(750) { 1 } else { 2 }).map(|_| (0..r.range(1, if thorough { 60 } else { 30 })).map(|_| mv(r)).collect()).collect(),
    };
    let mut cfg = simrt::make_cfg(r, true, &[]);
    // A few of the texts are very long.
    cfg["cap"] = json!(300_000_000);
    json!({"cfg": cfg, "w": c})
}
fn pred(k: u8) -> fn(char) -> bool {
    match k % 6 {
        0 => |c| c.is_alphabetic(),
        1 => |c| c.is_whitespace(),
        2 => |c| c != '"',
        3 => |c| !c.is_ascii(),
        4 => |_| true,
        _ => |c| c.is_ascii_graphic(),
    }
}
fn bpred(k: u8) -> fn(u8) -> bool {
    match k % 4 {
        0 => |b| b.is_ascii_alphanumeric(),
        1 => |b| b != b'\n',
        2 => |b| b == b' ' || b == b'a',
        _ => |_| true,
    }
}
/// What the scanners of the documentation do to a text at a position: the token's end.
fn ref_comment(m: &str, p: usize, st: Style, nested: bool) -> Option<(Tok, usize)> {
    let s = &m[p..];
    if !st.0.is_empty() && s.starts_with(st.0) {
        return Some((Tok::Line, p + s.find('\n').unwrap_or(s.len())));
    }
    if st.1.is_empty() || !s.starts_with(st.1) {
        return None;
    }
    let (mut k, mut depth) = (st.1.len(), 1);
    while k < s.len() && depth > 0 {
        if nested && s[k..].starts_with(st.1) {
            depth += 1;
            k += st.1.len()
        }
        else if s[k..].starts_with(st.2) {
            depth -= 1;
            k += st.2.len()
        }
        else {
            k += s[k..].chars().next().unwrap().len_utf8()
        }
    }
    Some((Tok::Block, p + k))
}
fn ref_string(m: &str, p: usize, quotes: &[char], esc: Option<char>) -> Option<usize> {
    let mut it = m[p..].char_indices();
    let q = it.next().map(|x| x.1).filter(|c| quotes.contains(c))?;
    while let Some((k, c)) = it.next() {
        if Some(c) == esc {
            it.next();
        }
        else if c == q {
            return Some(p + k + c.len_utf8());
        }
    }
    Some(m.len())
}
fn drive<S: Source + ?Sized>(s: &S, m: &str, borders: &[usize], st: Style, mvs: &[Mv]) {
    let mut cur = SourceCursor::new(s);
    let mut lex = LexerState::<S, Sim>::new(s);
    let mut p = 0usize;
    let mut toks: Vec<(Tok, usize, usize)> = Vec::new();
    for (n, mv) in mvs.iter().enumerate() {
        // Both a bare cursor and a lexer state are driven; they are at the model's position.
        check!(cur.position() == p && lex.get_position() == p, "position", "before step {n} {mv:?}: cursor at {}, lexer at {}, must be at {p}", cur.position(), lex.get_position());
        let rest = &m[p..];
        let eqr = |what: &str, r: Range<usize>, e: usize| check!(r.start == p && r.end == e, "scan", "step {n}: {what} at {p} covers {}..{} instead of {p}..{e}", r.start, r.end);
        let prefix = |f: &dyn Fn(char) -> bool| p + rest.find(|c| !f(c)).unwrap_or(rest.len());
        match mv {
            Mv::Set(pm) => {
                let k = at(m, *pm);
                check!(cur.set_position(k) == p && lex.set_position(k) == p, "position", "step {n}: set_position does not return {p}");
                p = k
            }
            Mv::Border(i, d) => {
                let k = if borders.is_empty() { 0 } else { near(m, (borders[i % borders.len()] as i64 + d).max(0) as usize) };
                cur.set_position(k);
                lex.set_position(k);
                p = k
            }
            Mv::Char => {
                let e = rest.chars().next();
                let (a, b) = (cur.advance_char(), lex.bump());
                check!(a == e && b == e, "char", "step {n}: advanced over {a:?} / {b:?} at {p} instead of {e:?}");
                p += e.map_or(0, |c| c.len_utf8())
            }
            Mv::Byte => {
                let e = rest.bytes().next();
                check!(cur.peek_byte() == e && lex.peek_byte() == e, "byte", "step {n}: byte at {p} is {:?} instead of {e:?}", cur.peek_byte());
                if e.is_none_or(|b| b < 128) {
                    check!(cur.advance_byte() == e && lex.advance_byte() == e, "byte", "step {n}: advance_byte at {p}");
                    p += e.map_or(0, |_| 1)
                }
            }
            Mv::Chars(k) => {
                let e = p + rest.chars().take(*k).map(|c| c.len_utf8()).sum::<usize>();
                cur.advance_bytes(e - p);
                lex.advance(e - p);
                p = e
            }
            Mv::Bytes(k) => {
                // A character is passed whole or not at all.
                let mut e = (p + k).min(m.len());
                while !m.is_char_boundary(e) {
                    e += 1
                }
                let q = cur.advance_bytes(*k);
                lex.advance(*k);
                check!(q == e && cur.position() == e && lex.get_position() == e, "byte", "step {n}: {k} bytes from {p} lead to {q} instead of {e}");
                p = e
            }
            Mv::Peek => {
                let mut it = rest.chars();
                let (a, b) = (it.next(), it.next());
                check!(cur.peek_char() == a && lex.peek() == a && lex.current() == a, "char", "step {n}: character at {p} is {:?} instead of {a:?}", cur.peek_char());
                check!(cur.peek_next_char() == b && lex.peek_next() == b, "char", "step {n}: character after the one at {p} is {:?} instead of {b:?}", cur.peek_next_char());
                check!(lex.not_at_end() == a.is_some() && lex.fully_reused() == a.is_none(), "end", "step {n}: end of text not recognised at {p}");
                let c = lex.get_char_at(p);
                check!(c == a, "char", "step {n}: character at {p} is {c:?} instead of {a:?}")
            }
            Mv::PeekAt(k) => {
                let d = rest.chars().take(*k).map(|c| c.len_utf8()).sum::<usize>();
                let e = rest[d..].chars().next();
                check!(cur.peek_next_n(d) == e && lex.peek_next_n(d) == e, "char", "step {n}: character {d} bytes after {p} is {:?} instead of {e:?}", cur.peek_next_n(d))
            }
            Mv::Space => {
                let e = prefix(&|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
                eqr("skip_ascii_whitespace", cur.skip_ascii_whitespace(), e);
                eqr("skip_ascii_whitespace", lex.skip_ascii_whitespace(), e);
                p = e
            }
            Mv::Digits => {
                let e = prefix(&|c| c.is_ascii_digit());
                eqr("skip_ascii_digits", cur.skip_ascii_digits(), e);
                eqr("skip_ascii_digits", lex.skip_ascii_digits(), e);
                p = e
            }
            Mv::Ident => {
                let e = prefix(&|c| c.is_ascii_alphanumeric() || c == '_');
                eqr("skip_ascii_ident_continue", cur.skip_ascii_ident_continue(), e);
                eqr("skip_ascii_ident_continue", lex.skip_ascii_ident_continue(), e);
                p = e
            }
            Mv::Until(k) => {
                let b = [b'"', b'\n', b'/', b'Z', b'9', b'\\'][k % 6];
                let e = prefix(&|c| c != b as char);
                eqr("skip_until", cur.skip_until(b), e);
                eqr("skip_until", lex.skip_until(b), e);
                p = e
            }
            Mv::While(k) => {
                let f = pred(*k);
                let e = prefix(&f);
                let mut seen = String::new();
                let r = cur.take_while(|c| {
                    seen.push(c);
                    f(c)
                });
                eqr("take_while", r, e);
                let want: String = rest[..e - p].chars().chain(m[e..].chars().next()).collect();
                check!(seen == want, "scan", "step {n}: take_while at {p} saw {} instead of {}", clip(&seen), clip(&want));
                eqr("take_while", lex.take_while(f), e);
                p = e
            }
            Mv::WhileByte(k) => {
                let f = bpred(*k);
                let e = p + rest.bytes().position(|b| !f(b)).unwrap_or(rest.len());
                eqr("take_while_byte", cur.take_while_byte(f), e);
                eqr("take_while_byte", lex.take_while_byte(f), e);
                p = e
            }
            Mv::Starts(u, eat) => starts(n, &mut cur, &mut lex, m, &mut p, UNITS[*u].to_string(), *eat),
            Mv::StartsHere(k, eat) => {
                let mut t = m[p..near(m, p + k).max(p)].to_string();
                if k % 5 == 0 {
                    t.push('!')
                }
                starts(n, &mut cur, &mut lex, m, &mut p, t, *eat)
            }
            Mv::Find(d, k) => {
                let a = near(m, p + d).max(p);
                find(n, s, &mut cur, m, p, &m[a..near(m, a + k).max(a)])
            }
            Mv::FindPieces(t) => find(n, s, &mut cur, m, p, &build(t)),
            Mv::Rest => {
                let t = lex.rest();
                check!(t == rest, "rest", "step {n}: rest at {p} is {} instead of {}", clip(t), clip(rest));
                check!(lex.rest_bytes() == rest.as_bytes(), "rest", "step {n}: rest_bytes at {p}");
                let t = cur.rest();
                check!(rest.starts_with(t) && t.is_empty() == rest.is_empty(), "rest", "step {n}: the rest of the chunk at {p} is {} instead of a prefix of {}", clip(t), clip(rest));
                check!(lex.get_text_from(p) == rest, "rest", "step {n}: get_text_from({p})");
                check!(lex.get_length() == m.len(), "length", "step {n}: length {}", lex.get_length())
            }
            Mv::ScanSpace(u) => {
                let e = if *u { prefix(&|c| c.is_whitespace()) } else { prefix(&|c| matches!(c, ' ' | '\t' | '\n' | '\r')) };
                let t = WhitespaceConfig { unicode_whitespace: *u }.scan(&mut lex, Tok::Space);
                scanned(n, "WhitespaceConfig::scan", t, (e > p).then_some((Tok::Space, e)), &mut p, &mut toks, &mut cur)
            }
            Mv::ScanComment(nested) => {
                let c = CommentConfig { line_marker: st.0, block_start: st.1, block_end: st.2, nested_blocks: *nested };
                let e = ref_comment(m, p, st, *nested);
                let t = c.scan(&mut lex, Tok::Line, Tok::Block);
                scanned(n, "CommentConfig::scan", t, e, &mut p, &mut toks, &mut cur)
            }
            Mv::ScanLine => {
                let mark = if st.0.is_empty() { "//" } else { st.0 };
                let e = rest.starts_with(mark).then(|| (Tok::Line, p + rest.find('\n').unwrap_or(rest.len())));
                let t = lex.scan_line_comment(Tok::Line, mark);
                scanned(n, "scan_line_comment", t, e, &mut p, &mut toks, &mut cur)
            }
            Mv::ScanBlock => {
                let (from, to) = if st.1.is_empty() { ("/*", "*/") } else { (st.1, st.2) };
                let e = rest.starts_with(from).then(|| (Tok::Block, rest[from.len()..].find(to).map_or(m.len(), |k| p + from.len() + k + to.len())));
                let t = lex.scan_block_comment(Tok::Block, from, to);
                scanned(n, "scan_block_comment", t, e, &mut p, &mut toks, &mut cur)
            }
            Mv::ScanStr(esc) => {
                let esc = esc.then_some('\\');
                let e = ref_string(m, p, st.3, esc).map(|e| (Tok::Str, e));
                let t = StringConfig { quotes: st.3, escape: esc }.scan(&mut lex, Tok::Str);
                scanned(n, "StringConfig::scan", t, e, &mut p, &mut toks, &mut cur)
            }
            Mv::ScanStrWide => {
                let (q, x): (&'static [char], char) = if n % 2 == 0 { (&['中', 'é'], '\\') } else { (&['"', '\'', 'a'], 'é') };
                let e = ref_string(m, p, q, Some(x)).map(|e| (Tok::Str, e));
                let t = StringConfig { quotes: q, escape: Some(x) }.scan(&mut lex, Tok::Str);
                scanned(n, "StringConfig::scan", t, e, &mut p, &mut toks, &mut cur)
            }
            Mv::ScanIdent => {
                let e = rest.starts_with(|c: char| c == '_' || c.is_ascii_alphabetic()).then(|| (Tok::Ident, prefix(&|c| c.is_ascii_alphanumeric() || c == '_')));
                let t = lex.scan_ascii_identifier(Tok::Ident);
                scanned(n, "scan_ascii_identifier", t, e, &mut p, &mut toks, &mut cur)
            }
            Mv::Eof => {
                lex.add_eof();
                toks.push((Tok::Eof, p, p))
            }
            Mv::Beyond(d) => {
                let k = m.len() + d;
                check!(cur.set_position(k) == p && lex.set_position(k) == p, "position", "step {n}: set_position does not return {p}");
                check!(cur.position() == m.len() && lex.get_position() == m.len(), "position", "step {n}: at {} / {} in a text of {} bytes", cur.position(), lex.get_position(), m.len());
                check!(cur.peek_char().is_none() && lex.peek_byte().is_none() && cur.rest().is_empty() && !lex.not_at_end(), "end", "step {n}: there is text at {k}, beyond the end of the text");
                p = m.len()
            }
            Mv::Fresh(d) => {
                let k = if *d == 2 { m.len() + 3 } else { p };
                cur = SourceCursor::new_at(s, k);
                p = k.min(m.len());
                lex.set_position(p);
            }
            Mv::ChunkEnd(pm) => {
                let k = if *pm > 500 { p } else { at(m, *pm) };
                cur.set_position(k);
                lex.set_position(k);
                p = k;
                let e = cur.chunk_end();
                check!(e > p && e <= m.len() || p == m.len() && e == p, "chunk", "step {n}: the piece at {p} of {} bytes ends at {e}", m.len());
                check!(cur.rest() == &m[p..e], "rest", "step {n}: the rest of the piece at {p} is not the text up to {e}")
            }
            Mv::Fast => fast(n, rest, p),
            Mv::Unlock(stuck) => {
                let e = if *stuck { p + rest.chars().next().map_or(0, |c| c.len_utf8()) } else { p };
                lex.advance_if_dead_lock(if *stuck { p } else { p + 1 });
                cur.set_position(e);
                p = e
            }
            Mv::Token(k) => {
                let e = near(m, p + k).max(p);
                let at = lex.advance_with(Token { kind: Tok::Ident, span: Range { start: p, end: e } });
                check!(at == e, "position", "step {n}: after the token {p}..{e} the lexer is at {at}");
                toks.push((Tok::Ident, p, e));
                cur.set_position(e);
                p = e
            }
            Mv::TextIn(a, k) => {
                let a = near(m, p + a);
                let e = near(m, a + k).max(a);
                let t = lex.get_text_in(Range { start: a, end: e });
                check!(t == m[a..e], "text", "step {n}: the text in {a}..{e} is {} instead of {}", clip(&t), clip(&m[a..e]))
            }
        }
        simrt::state(simrt::rng::mix(simrt::rng::hash_str(m), p as u64))
    }
    let got: Vec<_> = lex.tokens().iter().map(|t| (t.kind, t.span.start, t.span.end)).collect();
    check!(got == toks, "tokens", "tokens {got:?} instead of {toks:?}")
}
/// The vector scanners find what a search byte by byte finds.
fn fast(n: usize, rest: &str, p: usize) {
    let b = rest.as_bytes();
    let run = |f: &dyn Fn(u8) -> bool| b.iter().position(|x| !f(*x)).unwrap_or(b.len());
    let same = |what: &str, got: Option<usize>, want: Option<usize>| check!(got == want, "fast scan", "step {n}: {what} at {p} gives {got:?} instead of {want:?} in {}", clip(rest));
    let (x, y, z, w) = (b'"', b'\\', 0xe4, b'\n');
    same("find_byte", SimdScanner::find_byte(b, x), b.iter().position(|c| *c == x));
    same("find_byte", SimdScanner::find_byte(b, z), b.iter().position(|c| *c == z));
    same("find_first_of_4", find_first_of_4(b, x, y, z, w), b.iter().position(|c| [x, y, z, w].contains(c)));
    same("find_first_of_4", find_first_of_4(b, b'9', b'Z', b'9', b'*'), b.iter().position(|c| [b'9', b'Z', b'*'].contains(c)));
    same("skip_until", Some(SimdScanner::skip_until(b, w)), Some(run(&|c| c != w)));
    for k in [0, 1, 2, 3] {
        let c = b.get(k).copied().unwrap_or(b' ');
        let t = &b[k.min(b.len())..];
        let run = |f: &dyn Fn(u8) -> bool| t.iter().position(|x| !f(*x)).unwrap_or(t.len());
        same("skip_byte", Some(SimdScanner::skip_byte(t, c)), Some(run(&|x| x == c)));
        let d = t.get(1).copied().unwrap_or(b'\t');
        same("skip_two_bytes", Some(SimdScanner::skip_two_bytes(t, c, d)), Some(run(&|x| x == c || x == d)));
        same("count_ascii_digit_prefix", Some(count_ascii_digit_prefix(t)), Some(run(&|x| x.is_ascii_digit())));
        same("count_ascii_hexdigit_prefix", Some(count_ascii_hexdigit_prefix(t)), Some(run(&|x| x.is_ascii_hexdigit())));
        same("count_space_tab_prefix", Some(count_space_tab_prefix(t)), Some(run(&|x| x == b' ' || x == b'\t')))
    }
}
fn scanned<S: Source + ?Sized>(n: usize, what: &str, got: bool, want: Option<(Tok, usize)>, p: &mut usize, toks: &mut Vec<(Tok, usize, usize)>, cur: &mut SourceCursor<S>) {
    check!(got == want.is_some(), "scan", "step {n}: {what} at {p} returned {got} instead of {}", want.is_some());
    if let Some((k, e)) = want {
        toks.push((k, *p, e));
        cur.set_position(e);
        *p = e
    }
}
fn starts<S: Source + ?Sized>(n: usize, cur: &mut SourceCursor<S>, lex: &mut LexerState<S, Sim>, m: &str, p: &mut usize, t: String, eat: bool) {
    let e = m[*p..].starts_with(&t);
    let (a, b) = if eat { (cur.consume_if_starts_with(&t), lex.consume_if_starts_with(&t)) } else { (cur.starts_with(&t), lex.starts_with(&t)) };
    check!(a == e && b == e, "starts_with", "step {n}: the text at {p} starts with {} is {a} / {b} instead of {e}", clip(&t));
    if eat && e {
        *p += t.len()
    }
}
fn find<S: Source + ?Sized>(n: usize, s: &S, cur: &mut SourceCursor<S>, m: &str, p: usize, t: &str) {
    let e = m[p..].find(t).map(|k| p + k);
    let a = cur.find_str(t);
    check!(a == e, "find", "step {n}: {} from {p} found at {a:?} instead of {e:?}", clip(t));
    check!(cur.position() == p, "position", "step {n}: find_str moved the cursor from {p} to {}", cur.position());
    if let Some(c) = t.chars().next() {
        let (a, e) = ((&s).find_char_from(p, c), m[p..].find(c).map(|k| p + k));
        check!(a == e, "find", "step {n}: {c:?} from {p} found at {a:?} instead of {e:?}")
    }
}
fn run_scan(w: &Value) {
    let c: Scan = serde_json::from_value(w.clone()).unwrap();
    let parts: Vec<String> = c.parts.iter().map(|p| styled(p, c.style)).collect();
    let m: Arc<String> = Arc::new(parts.concat());
    let st = STYLES[c.style % STYLES.len()];
    let mut b = ChunkedBuffer::new();
    if c.kind == 3 {
        let mut r = Rng::new(c.cut);
        let mut k = 0;
        while k < m.len() {
            let mut e = near(&m, k + r.range(1, c.cut.max(2)) as usize);
            if e <= k {
                e = k + m[k..].chars().next().unwrap().len_utf8()
            }
            b.push_str(&m[k..e]);
            k = e
        }
    }
    else {
        for p in &parts {
            b.push_str(p)
        }
    }
    let src: Arc<dyn Source> = match c.kind {
        1 => {
            let mut r = RopeBuffer::new(&parts[0]);
            for p in &parts[1..] {
                let n = r.length();
                r.apply_edits(&[TextEdit { span: Range { start: n, end: n }, text: p.clone().into() }]);
            }
            Arc::new(r.snapshot())
        }
        2 => Arc::new(SourceText::new(m.as_str())),
        _ => Arc::new(b.snapshot()),
    };
    let mut borders = vec![];
    let mut k = 0;
    while k < src.length() {
        let c = src.chunk_at(k);
        check!(c.end() > k, "chunk", "no text in the chunk at {k}");
        k = c.end();
        borders.push(k)
    }
    let wrong = crate::lines::wrong(&oak_vfs::LineMap::from_source(&*src), &m, &*src);
    check!(wrong.is_none(), "line map", "{} in the line map of {}", wrong.unwrap(), clip(&m));
    let borders = Arc::new(borders);
    let hs: Vec<_> = c
        .threads
        .into_iter()
        .map(|mvs| {
            let (src, m, borders) = (src.clone(), m.clone(), borders.clone());
            simrt::spawn(move || drive(&*src, &m, &borders, st, &mvs))
        })
        .collect();
    for h in hs {
        simrt::join(h)
    }
}
pub static SCAN: Scenario = Scenario { name: "text-scan", about: "Cursors, lexer states and scanners over a text that arrived in pieces", make: make_scan, run: run_scan };
