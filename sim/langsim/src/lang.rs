//! Parsing sessions of all languages behind one interface.
use core::range::Range;
use oak_core::{
    Language, SyntaxArena,
    parser::{ParseCache, ParseSession, Parser},
    source::{ChunkedBuffer, RopeBuffer, Source, SourceText, TextChunk, TextEdit},
    tree::{GreenNode, GreenTree},
};
use simrt::{Fault, Rng, fault};
use std::{borrow::Cow, marker::PhantomData, sync::Arc};

/// What a parse says about a text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    pub tree: Option<String>,
    pub error: Option<String>,
    pub diagnostics: Vec<String>,
    pub tokens: Vec<(usize, usize, String)>,
    /// Where the tokens that have a provenance come from
    pub origins: Vec<String>,
}
impl Outcome {
    pub fn clean(&self) -> bool {
        self.tree.is_some() && self.diagnostics.is_empty()
    }
    /// Where two outcomes differ.
    pub fn diff(&self, o: &Outcome) -> Option<(&'static str, String)> {
        if self.tokens != o.tokens {
            let k = self.tokens.iter().zip(&o.tokens).take_while(|(a, b)| a == b).count();
            if let (Some(a), Some(b)) = (self.tokens.get(k), o.tokens.get(k))
                && (a.0, a.1) == (b.0, b.1)
            {
                return Some(("tokens", format!("token {k} at {}..{} as {} but {}", a.0, a.1, a.2, b.2)));
            }
            return Some(("tokens", format!("token {k}: {:?} but {:?}", self.tokens.get(k), o.tokens.get(k))));
        }
        if self.error != o.error {
            return Some(("error", format!("{:?} but {:?}", self.error, o.error)));
        }
        if self.tree != o.tree {
            let (mut a, mut b) = (self.tree.clone().unwrap_or_default(), o.tree.clone().unwrap_or_default());
            // The lengths of nodes would hide where the difference begins.
            let (x, y) = (without_lengths(&a), without_lengths(&b));
            if x != y {
                (a, b) = (x, y)
            }
            let mut k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(40);
            while !a.is_char_boundary(k) || !b.is_char_boundary(k) {
                k -= 1
            }
            let cut = |s: &str| s[k..].chars().take(120).collect::<String>();
            return Some(("tree", format!("..{}.. but ..{}..", cut(&a), cut(&b))));
        }
        if self.origins != o.origins {
            return Some(("origins", format!("tokens from {:?} but {:?}", self.origins, o.origins)));
        }
        if self.diagnostics != o.diagnostics {
            return Some(("diagnostics", format!("{:?} but {:?}", self.diagnostics, o.diagnostics)));
        }
        None
    }
}
fn without_lengths(t: &str) -> String {
    let mut out = String::new();
    for (k, part) in t.split('(').enumerate() {
        if k > 0 {
            out.push('(');
            let n = part.find(':').unwrap_or(0);
            out.push_str(&part[..n]);
            out.push_str(part[n..].trim_start_matches(|c: char| c == ':' || c.is_ascii_digit()))
        }
    }
    out
}
pub fn dump<L: Language>(n: &GreenNode<L>, s: &mut String, depth: usize) {
    use std::fmt::Write;
    if depth > 400 {
        s.push('~');
        return;
    }
    let _ = write!(s, "({:?}:{}", n.kind, n.text_len());
    for c in n.children.iter() {
        match c {
            GreenTree::Node(n) => {
                s.push(' ');
                dump(n, s, depth + 1)
            }
            GreenTree::Leaf(l) => {
                let _ = write!(s, " {:?}:{}", l.kind, l.length);
            }
        }
    }
    s.push(')')
}
/// The provenance of the leaves, as their arena has it.
fn origins<L: Language>(n: &GreenNode<L>, arena: &SyntaxArena, out: &mut Vec<String>) {
    for c in n.children.iter() {
        match c {
            GreenTree::Node(n) => origins(n, arena, out),
            GreenTree::Leaf(l) => {
                if let Some(m) = l.metadata {
                    out.push(format!("{:?}", arena.get_metadata(m)))
                }
            }
        }
    }
}
pub trait Session: Send {
    fn parse(&mut self, src: &dyn Source, edits: &[TextEdit]) -> Outcome;
    /// The root kept from the last parse, if any.
    fn root(&self) -> Option<String>;
}
pub trait Lang: Send + Sync {
    fn session(&self, capacity: usize) -> Box<dyn Session + '_>;
}
pub struct Of<L, P>(P, PhantomData<fn() -> L>);
impl<L, P> Of<L, P> {
    pub fn new(p: P) -> Self {
        Of(p, PhantomData)
    }
}
struct Sess<'p, L: Language + Send + Sync, P>(&'p P, ParseSession<L>);
impl<L: Language + Send + Sync + 'static, P: Parser<L> + Send + Sync> Lang for Of<L, P>
where
    L::ElementType: From<L::TokenType>,
{
    fn session(&self, capacity: usize) -> Box<dyn Session + '_> {
        Box::new(Sess(&self.0, ParseSession::<L>::new(capacity)))
    }
}
impl<'p, L: Language + Send + Sync + 'static, P: Parser<L> + Send + Sync> Session for Sess<'p, L, P>
where
    L::ElementType: From<L::TokenType>,
{
    fn parse(&mut self, src: &dyn Source, edits: &[TextEdit]) -> Outcome {
        let o = self.0.parse(src, edits, &mut self.1);
        let mut r = Outcome { tree: None, error: None, diagnostics: o.diagnostics.iter().map(|d| format!("{d:?}")).collect(), tokens: vec![], origins: vec![] };
        match &o.result {
            Ok(n) => {
                let mut s = String::new();
                dump(n, &mut s, 0);
                r.tree = Some(s)
            }
            Err(e) => r.error = Some(format!("{e:?}")),
        }
        drop(o);
        if let Some(n) = self.1.last_root() {
            origins(n, self.1.arena(), &mut r.origins)
        }
        if let Some(Ok(t)) = self.1.lex_output().map(|l| &l.result) {
            r.tokens = t.iter().map(|t| (t.span.start, t.span.end, format!("{:?}", t.kind))).collect()
        }
        r
    }
    fn root(&self) -> Option<String> {
        self.1.last_root().map(|n| {
            let mut s = String::new();
            dump(n, &mut s, 0);
            s
        })
    }
}

// ---- ways in which a text arrives ----
/// Serves a text in the chunks of `inner`; an access may panic when the simulator injects that.
pub struct Flaky(pub Arc<dyn Source>);
impl Source for Flaky {
    fn length(&self) -> usize {
        self.0.length()
    }
    fn chunk_at(&self, offset: usize) -> TextChunk<'_> {
        if fault(Fault::PanicInject) {
            panic!("injected: the source fails")
        }
        self.0.chunk_at(offset)
    }
    fn get_text_in(&self, range: Range<usize>) -> Cow<'_, str> {
        if fault(Fault::PanicInject) {
            panic!("injected: the source fails")
        }
        self.0.get_text_in(range)
    }
}
pub fn source(text: &str, kind: u32, cut: u64) -> Arc<dyn Source> {
    match kind % 4 {
        0 => Arc::new(SourceText::new(text)),
        1 | 2 => {
            let mut b = ChunkedBuffer::new();
            let mut r = Rng::new(cut);
            let max = r.range(1, if kind % 4 == 1 { 6 } else { 60 });
            let mut k = 0;
            while k < text.len() {
                let mut e = (k + r.range(1, max) as usize).min(text.len());
                while !text.is_char_boundary(e) {
                    e += 1
                }
                b.push_str(&text[k..e]);
                k = e
            }
            Arc::new(b.snapshot())
        }
        _ => {
            let mut r = Rng::new(cut);
            let mut rope = RopeBuffer::new("");
            let mut k = 0;
            while k < text.len() {
                let mut e = (k + r.range(1, 40) as usize).min(text.len());
                while !text.is_char_boundary(e) {
                    e += 1
                }
                let n = rope.length();
                rope.apply_edits(&[TextEdit { span: Range { start: n, end: n }, text: text[k..e].to_string().into() }]);
                k = e
            }
            Arc::new(rope.snapshot())
        }
    }
}
