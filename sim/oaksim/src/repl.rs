//! E01: the REPL on a simulated terminal.
use crossterm::sim::Device;
use crossterm::event::{Event, KeyCode, KeyEvent, KeyEventKind, KeyModifiers, MouseEvent, MouseEventKind};
use oak_highlight::{HighlightResult, HighlightSegment, HighlightStyle};
use oak_repl::{HandleResult, OakRepl, ReplError, ReplHandler};
use serde::{Deserialize, Serialize};
use simrt::{Fault, Rng, Scenario, Value, check, ev, fault, fault_val, fs, json};
use std::{
    borrow::Cow,
    io,
    sync::{
        Mutex,
        atomic::{AtomicBool, Ordering},
    },
    time::Duration,
};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Key {
    C(char),
    /// Typed with AltGr or Alt
    Alt(char),
    Enter,
    Back,
    Left,
    Right,
    CtrlC,
    CtrlD,
    Noop(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    keys: Vec<Key>,
    /// Prompts (normal, continuation)
    prompts: (String, String),
    highlight: bool,
    indent: usize,
    /// Code is complete when its last line is blank, not when its brackets are closed.
    #[serde(default)]
    blank: bool,
    /// Numbers of the lines whose handling fails / exits / panics
    fail: Vec<usize>,
    exit: Option<usize>,
    /// Run again after the first run ended.
    again: bool,
}
fn make(r: &mut Rng, thorough: bool) -> Value {
    let n = r.range(1, if thorough { 80 } else { 40 });
    let nav = r.range(50, 500);
    let wide = r.below(600);
    let long = r.chance(20);
    let mut keys: Vec<Key> = (0..n)
        .map(|_| {
            if r.chance(nav) {
                match r.below(12) {
                    0..=3 => Key::Back,
                    4..=6 => Key::Left,
                    7..=8 => Key::Right,
                    9 => Key::Noop(r.below(6) as u32),
                    10 => Key::CtrlC,
                    _ => Key::CtrlD,
                }
            }
            else if r.chance(120) {
                Key::Enter
            }
            else if r.chance(30) {
                Key::Alt(*r.pick(&['@', '{', '€', 'x']))
            }
            else if r.chance(wide) {
                Key::C(*r.pick(&['é', 'ß', '中', '\u{1F600}', '\u{301}', '\u{a0}']))
            }
            else {
                Key::C(*r.pick(&['a', 'b', '(', '(', ')', ' ', '1', '"', '\\', '~']))
            }
        })
        .collect();
    if long {
        // A long line, typed or pasted.
        let at = r.below(keys.len() as u64 + 1) as usize;
        let k = r.range(100, 320);
        keys.splice(at..at, (0..k).map(|n| Key::C(if n % 50 == 49 { 'é' } else { (b'a' + (n % 26) as u8) as char })));
    }
    let c = Case {
        keys,
        prompts: {
            let p = *r.pick(&[("> ", "... "), ("", ""), ("π» ", "… ")]);
            (p.0.to_string(), p.1.to_string())
        },
        highlight: r.chance(500),
        indent: r.below(4) as usize,
        blank: r.chance(250),
        fail: (0..r.below(3)).map(|_| r.below(4) as usize).collect(),
        exit: r.chance(150).then(|| r.below(4) as usize),
        again: r.chance(200),
    };
    let f = [(Fault::TermErr, 60), (Fault::StdoutErr, 30), (Fault::StderrErr, 200), (Fault::StreamWriteShort, 500), (Fault::PanicInject, 100), (Fault::TermKey, 400)];
    json!({"cfg": simrt::make_cfg(r, false, &f), "w": c})
}
/// The editor as it should be.
#[derive(Default)]
struct Model {
    lines: Vec<Vec<char>>,
    line: usize,
    pos: usize,
    cont: bool,
    /// Code that must be handled next.
    due: Option<String>,
    handled: usize,
    ended: bool,
}
impl Model {
    fn text(&self) -> String {
        self.lines.iter().map(|l| l.iter().collect::<String>()).collect::<Vec<_>>().join("\n")
    }
    fn clear(&mut self) {
        self.lines = vec![vec![]];
        self.line = 0;
        self.pos = 0;
        self.cont = false;
    }
    fn insert(&mut self, c: char) {
        let p = self.pos;
        self.lines[self.line].insert(p, c);
        self.pos += 1
    }
    fn key(&mut self, k: &Key, c: &Case) {
        match k {
            Key::C(c) | Key::Alt(c) => self.insert(*c),
            Key::Back => {
                if self.pos > 0 {
                    self.pos -= 1;
                    let p = self.pos;
                    self.lines[self.line].remove(p);
                }
                else if self.line > 0 {
                    let l = self.lines.remove(self.line);
                    self.line -= 1;
                    self.pos = self.lines[self.line].len();
                    let n = self.line;
                    self.lines[n].extend(l)
                }
            }
            Key::Left => self.pos = self.pos.saturating_sub(1),
            Key::Right => self.pos = (self.pos + 1).min(self.lines[self.line].len()),
            Key::CtrlC => self.clear(),
            Key::CtrlD => self.ended = self.lines.len() == 1 && self.lines[0].is_empty(),
            Key::Noop(_) => {}
            Key::Enter => {
                let t = self.text();
                if complete(c, &t) {
                    self.due = Some(t);
                }
                else {
                    self.lines.push(vec![]);
                    self.line += 1;
                    self.pos = 0;
                    self.cont = true;
                    for _ in 0..depth(&t).max(0) as usize * c.indent {
                        self.insert(' ')
                    }
                }
            }
        }
    }
}
fn depth(s: &str) -> i64 {
    s.chars().map(|c| (c == '(') as i64 - (c == ')') as i64).sum()
}
fn complete(c: &Case, s: &str) -> bool {
    if c.blank { s.ends_with('\n') } else { depth(s) <= 0 }
}
struct Term {
    raw: AtomicBool,
    raw_stuck: AtomicBool,
    keys: Mutex<std::collections::VecDeque<Key>>,
    model: Mutex<Model>,
    screen: Mutex<Screen>,
    case: Case,
    failed: AtomicBool,
}
/// The current line of the terminal and the cursor column (in characters) after the first `used` bytes of the output.
#[derive(Default)]
struct Screen {
    line: Vec<char>,
    col: usize,
    used: usize,
}
impl Screen {
    fn feed(&mut self, out: &[u8]) {
        let new = &out[self.used..];
        let new = std::str::from_utf8(new).unwrap_or_else(|e| std::str::from_utf8(&new[..e.valid_up_to()]).unwrap());
        let mut rest = new;
        while let Some(c) = rest.chars().next() {
            let mut len = c.len_utf8();
            match c {
                '\n' => {
                    self.line.clear();
                    self.col = 0
                }
                '\r' => self.col = 0,
                '\x1b' if rest.len() == 1 => break,
                '\x1b' if !rest.starts_with("\x1b[") => len = 1 + rest[1..].chars().next().map_or(0, |c| c.len_utf8()),
                '\x1b' => {
                    let Some(k) = rest[2..].find(|d: char| d.is_ascii_alphabetic()) else { break };
                    let arg = &rest[2..2 + k];
                    match &rest[2 + k..3 + k] {
                        "G" => self.col = arg.parse::<usize>().unwrap_or(1).max(1) - 1,
                        "K" if arg == "2" => self.line.iter_mut().for_each(|c| *c = ' '),
                        "K" => self.line.truncate(self.col),
                        _ => {}
                    }
                    len = 3 + k
                }
                c => {
                    while self.line.len() <= self.col {
                        self.line.push(' ')
                    }
                    self.line[self.col] = c;
                    self.col += 1
                }
            }
            rest = &rest[len..]
        }
        self.used += new.len() - rest.len()
    }
}
impl Term {
    fn look(&self) {
        if self.failed.load(Ordering::SeqCst) {
            return;
        }
        let m = self.model.lock().unwrap();
        let mut screen = self.screen.lock().unwrap();
        screen.feed(&fs::fs().stdout);
        let (text, col) = (screen.line.iter().collect::<String>(), screen.col);
        let line: String = m.lines[m.line].iter().collect();
        let c = &self.case;
        let ok = |p: &str| text.trim_end_matches(' ') == format!("{p}{line}").trim_end_matches(' ') && col == p.chars().count() + m.pos;
        // After joining back to one line either prompt will do.
        let good = if m.cont { ok(&c.prompts.1) || m.lines.len() == 1 && ok(&c.prompts.0) } else { ok(&c.prompts.0) };
        check!(good, "screen wrong", "the screen shows {text:?} with the cursor at {col}, the buffer is {line:?} at {}, continuation {}", m.pos, m.cont)
    }
}
impl crossterm::sim::Device for Term {
    fn read(&self) -> io::Result<Event> {
        check!(self.raw(), "reading keys in cooked mode", "");
        {
            let m = self.model.lock().unwrap();
            check!(m.due.is_none(), "code not handled", "{:?} was entered and not passed on", m.due);
            check!(!m.ended, "reads on after the end", "");
        }
        self.look();
        let e = fault_val(Fault::TermErr, 2);
        if e != 0 {
            self.failed.store(true, Ordering::SeqCst);
            return Err(if e == 1 { io::ErrorKind::Other } else { io::ErrorKind::UnexpectedEof }.into());
        }
        let mut kind = KeyEventKind::Press;
        match fault_val(Fault::TermKey, 6) {
            1 => return Ok(Event::Resize(80, 24)),
            2 => return Ok(Event::FocusGained),
            3 => return Ok(Event::Mouse(MouseEvent { kind: MouseEventKind::Moved, column: 1, row: 1, modifiers: KeyModifiers::NONE })),
            4 => return Ok(Event::FocusLost),
            5 => {
                simrt::probe("repl:release event");
                return Ok(Event::Key(KeyEvent::new_with_kind(KeyCode::Char('r'), KeyModifiers::NONE, KeyEventKind::Release)));
            }
            6 => {
                simrt::probe("repl:repeated key");
                kind = KeyEventKind::Repeat
            }
            _ => {}
        }
        let Some(k) = self.keys.lock().unwrap().pop_front()
        else {
            self.failed.store(true, Ordering::SeqCst);
            return Err(io::ErrorKind::UnexpectedEof.into());
        };
        ev!("key {k:?}");
        let key = |c, m| Ok(Event::Key(KeyEvent::new_with_kind(c, m, kind)));
        let r = match &k {
            Key::C(c) => key(KeyCode::Char(*c), if c.is_uppercase() { KeyModifiers::SHIFT } else { KeyModifiers::NONE }),
            Key::Alt(c) => key(KeyCode::Char(*c), if *c == 'x' { KeyModifiers::ALT } else { KeyModifiers::CONTROL | KeyModifiers::ALT }),
            Key::Enter => key(KeyCode::Enter, KeyModifiers::NONE),
            Key::Back => key(KeyCode::Backspace, KeyModifiers::NONE),
            Key::Left => key(KeyCode::Left, KeyModifiers::NONE),
            Key::Right => key(KeyCode::Right, KeyModifiers::NONE),
            Key::CtrlC => key(KeyCode::Char('c'), KeyModifiers::CONTROL),
            Key::CtrlD => key(KeyCode::Char('d'), KeyModifiers::CONTROL),
            Key::Noop(n) => key([KeyCode::Esc, KeyCode::F(1), KeyCode::F(12), KeyCode::CapsLock, KeyCode::Null, KeyCode::Insert][*n as usize % 6], KeyModifiers::NONE),
        };
        self.model.lock().unwrap().key(&k, &self.case);
        r
    }
    fn poll(&self, _: Duration) -> io::Result<bool> {
        // Something can be read at once: a key, or the end of the input.
        Ok(true)
    }
    fn set_raw(&self, on: bool) -> io::Result<()> {
        if fault(Fault::TermErr) {
            self.failed.store(true, Ordering::SeqCst);
            if !on {
                self.raw_stuck.store(true, Ordering::SeqCst)
            }
            ev!("raw mode {on} fails");
            return Err(io::ErrorKind::Other.into());
        }
        self.raw_stuck.store(false, Ordering::SeqCst);
        self.raw.store(on, Ordering::SeqCst);
        Ok(())
    }
    fn raw(&self) -> bool {
        self.raw.load(Ordering::SeqCst)
    }
    fn size(&self) -> io::Result<(u16, u16)> {
        Ok((80, 24))
    }
}
struct Hd(&'static Term);
impl ReplHandler for Hd {
    fn highlight<'a>(&self, code: &'a str) -> Option<HighlightResult<'a>> {
        if !self.0.case.highlight {
            return None;
        }
        let mut segments = vec![];
        let mid = code.char_indices().nth(2).map(|x| x.0).unwrap_or(code.len());
        for (k, (a, b)) in [(0, mid), (mid, code.len())].into_iter().enumerate() {
            let style = if k == 0 { HighlightStyle { bold: true, color: Some("#FF0000".into()), ..Default::default() } } else { HighlightStyle::default() };
            segments.push(HighlightSegment { span: oak_core::Range::from(a..b).into(), style, text: Cow::Borrowed(&code[a..b]) })
        }
        Some(HighlightResult { segments, source: Cow::Borrowed(code) })
    }
    fn prompt(&self, cont: bool) -> &str {
        if cont { &self.0.case.prompts.1 } else { &self.0.case.prompts.0 }
    }
    fn is_complete(&self, code: &str) -> bool {
        complete(&self.0.case, code)
    }
    fn get_indent(&self, code: &str) -> usize {
        depth(code).max(0) as usize * self.0.case.indent
    }
    fn handle_line(&mut self, line: &str) -> Result<HandleResult, ReplError> {
        check!(!self.0.raw(), "code runs in raw mode", "{line:?}");
        let mut m = self.0.model.lock().unwrap();
        ev!("handle {line:?}");
        check!(m.due.as_deref() == Some(line), "wrong code", "{line:?} was passed on, {:?} was entered", m.due);
        m.due = None;
        let n = m.handled;
        m.handled += 1;
        m.clear();
        if self.0.case.exit == Some(n) {
            m.ended = true;
            return Ok(HandleResult::Exit);
        }
        drop(m);
        if fault(Fault::PanicInject) {
            panic!("injected: evaluation panics")
        }
        if self.0.case.fail.contains(&n) {
            simrt::probe("repl:evaluation fails");
            return Err(if n % 2 == 0 { "evaluation failed".into() } else { io::Error::other("x").into() });
        }
        Ok(HandleResult::Continue)
    }
}
fn run(w: &Value) {
    let c: Case = serde_json::from_value(w.clone()).unwrap_or_else(|e| simrt::harness_error(&e.to_string()));
    let t: &'static Term = Box::leak(Box::new(Term {
        raw: AtomicBool::new(false),
        raw_stuck: AtomicBool::new(false),
        keys: Mutex::new(c.keys.iter().cloned().collect()),
        model: Mutex::new(Model { lines: vec![vec![]], ..Default::default() }),
        screen: Mutex::default(),
        case: c.clone(),
        failed: AtomicBool::new(false),
    }));
    crossterm::sim::install(t);
    let mut repl = OakRepl::new(Hd(t));
    for round in 0..if c.again { 2 } else { 1 } {
        let from = simrt::sched::seq();
        let r = simrt::attempt(|| repl.run());
        let m = t.model.lock().unwrap_or_else(|e| e.into_inner());
        let out_failed = simrt::hard_fault_since(from);
        ev!("run {round} ends: {:?}; ended {}", r.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string())).map_err(|p| p.msg.clone()), m.ended);
        check!(!t.raw() || t.raw_stuck.load(Ordering::SeqCst), "terminal left in raw mode", "run returned {:?}", r.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string())).map_err(|p| &p.msg));
        match r {
            Err(p) => {
                if !p.msg.contains("injected") {
                    simrt::panic_violation()
                }
                simrt::probe("repl:handler panics");
                return;
            }
            Ok(Ok(())) => {
                check!(m.ended, "ends without being asked to", "");
            }
            Ok(Err(e)) => {
                if out_failed {
                    simrt::probe("repl:output fails")
                }
                check!(t.failed.load(Ordering::SeqCst) || out_failed, "error without cause", "{e}");
                if out_failed || t.keys.lock().unwrap().is_empty() {
                    return;
                }
            }
        }
        // A second run starts afresh with the remaining keys.
        if t.keys.lock().unwrap().is_empty() {
            return;
        }
        drop(m);
        let mut m = t.model.lock().unwrap_or_else(|e| e.into_inner());
        m.clear();
        m.due = None;
        m.ended = false;
        t.failed.store(false, Ordering::SeqCst);
        if t.raw_stuck.swap(false, Ordering::SeqCst) {
            t.raw.store(false, Ordering::SeqCst)
        }
        fs::fs().stdout.clear();
        *t.screen.lock().unwrap_or_else(|e| e.into_inner()) = Screen::default()
    }
}
pub static REPL: Scenario = Scenario { name: "repl", about: "a user types into the REPL while terminal, output and evaluation fail", make, run };
