//! A small language that uses what the core offers to parsers and no language crate uses together: configured scanners,
//! operator tables, backtracking, optional nodes, nested incremental nodes, error recovery and tokens with provenance.
//! It keeps to what node reuse demands: what becomes of a node depends on its own tokens and the two that follow it.
use core::range::Range;
use oak_core::{
    OakError, TokenType, UniversalElementRole, UniversalTokenRole,
    language::{ElementType, Language},
    lexer::{CommentConfig, LexOutput, Lexer, LexerCache, LexerState, StringConfig, WhitespaceConfig},
    parser::{Associativity, ParseCache, ParseOutput, Parser, ParserState, Pratt, PrattParser, binary, parse_with_lexer, postfix, unary},
    source::{Source, TextEdit},
    tree::{GreenNode, TokenProvenance},
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tok {
    Space,
    Line,
    Block,
    Name,
    Num,
    Str,
    /// `@name`, whose text a macro makes
    Macro,
    Plus,
    Minus,
    Star,
    Slash,
    Caret,
    Same,
    Is,
    Bang,
    Arrow,
    LP,
    RP,
    LB,
    RB,
    LC,
    RC,
    Comma,
    Dot,
    Semi,
    Bad,
    End,
}
impl TokenType for Tok {
    const END_OF_STREAM: Self = Tok::End;
    type Role = UniversalTokenRole;
    fn role(&self) -> UniversalTokenRole {
        match self {
            Tok::Space => UniversalTokenRole::Whitespace,
            Tok::Line | Tok::Block => UniversalTokenRole::Comment,
            Tok::Bad => UniversalTokenRole::Error,
            Tok::End => UniversalTokenRole::Eof,
            _ => UniversalTokenRole::None,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum El {
    Root,
    Stmt,
    Assign,
    Body,
    Atom,
    Paren,
    Tuple,
    Lambda,
    Binary,
    Unary,
    Postfix,
    Call,
    Args,
    Index,
    Label,
    Hole,
}
impl ElementType for El {
    type Role = UniversalElementRole;
    fn role(&self) -> UniversalElementRole {
        match self {
            El::Root => UniversalElementRole::Root,
            El::Hole => UniversalElementRole::Error,
            _ => UniversalElementRole::None,
        }
    }
}
impl From<Tok> for El {
    fn from(_: Tok) -> Self {
        El::Atom
    }
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Toy;
impl Language for Toy {
    const NAME: &'static str = "toy";
    type TokenType = Tok;
    type ElementType = El;
    type TypedRoot = ();
}

static SPACE: WhitespaceConfig = WhitespaceConfig { unicode_whitespace: true };
static COMMENT: CommentConfig = CommentConfig { line_marker: "#", block_start: "/*", block_end: "*/", nested_blocks: true };
static STRING: StringConfig = StringConfig { quotes: &['"', '\''], escape: Some('\\') };
static OPS: &[(&str, Tok)] = &[("->", Tok::Arrow), ("==", Tok::Same), ("=", Tok::Is), ("+", Tok::Plus), ("-", Tok::Minus), ("*", Tok::Star), ("/", Tok::Slash), ("^", Tok::Caret), ("!", Tok::Bang), ("(", Tok::LP), (")", Tok::RP), ("[", Tok::LB), ("]", Tok::RB), ("{", Tok::LC), ("}", Tok::RC), (",", Tok::Comma), (".", Tok::Dot), (";", Tok::Semi)];

impl Lexer<Toy> for Toy {
    fn lex<'a, S: Source + ?Sized>(&self, source: &'a S, edits: &[TextEdit], cache: &'a mut impl LexerCache<Toy>) -> LexOutput<Toy> {
        lex_from(source, edits.iter().map(|e| e.span.start).min().unwrap_or(source.length()), cache)
    }
}
/// Lexes a text of which nothing before `from` has changed since the cache was filled.
pub fn lex_from<S: Source + ?Sized>(source: &S, from: usize, cache: &mut impl LexerCache<Toy>) -> LexOutput<Toy> {
    let mut s = LexerState::<S, Toy>::new_with_cache(source, from, cache);
    if s.fully_reused() && s.tokens().last().is_some_and(|t| t.kind == Tok::End) {
        simrt::probe("relex:nothing changed");
        return s.finish_with_cache(Ok(()), cache);
    }
    if !s.tokens().is_empty() {
        simrt::probe("relex:some tokens reused")
    }
    while s.not_at_end() {
        let at = s.get_position();
        if SPACE.scan(&mut s, Tok::Space) || COMMENT.scan(&mut s, Tok::Line, Tok::Block) || STRING.scan(&mut s, Tok::Str) || s.scan_ascii_identifier(Tok::Name) {
            continue;
        }
        let digits = s.skip_ascii_digits();
        if digits.end > at {
            // A dot belongs to the number only if a digit follows it.
            if s.peek() == Some('.') && s.peek_next().is_some_and(|c| c.is_ascii_digit()) {
                s.advance(1);
                s.skip_ascii_digits();
            }
            let e = s.get_position();
            s.add_token(Tok::Num, at, e);
            continue;
        }
        if s.consume_if_starts_with("@") {
            let name = s.skip_ascii_ident_continue();
            s.add_token(Tok::Macro, at, name.end);
            continue;
        }
        match OPS.iter().find(|(t, _)| s.consume_if_starts_with(t)) {
            Some((_, k)) => {
                let e = s.get_position();
                s.add_token(*k, at, e)
            }
            None => {
                s.take_while(|c| !c.is_ascii() && !c.is_whitespace());
                s.advance_if_dead_lock(at);
                let e = s.get_position();
                s.add_error(OakError::custom_error(format!("what is this at {at}")));
                s.add_token(Tok::Bad, at, e)
            }
        }
    }
    s.add_eof();
    s.finish_with_cache(Ok(()), cache)
}

type St<'a, S> = ParserState<'a, Toy, S>;
type Node<'a> = &'a GreenNode<'a, Toy>;
struct Ops;
impl Ops {
    fn expr<'a, S: Source + ?Sized>(st: &mut St<'a, S>, min: u8) -> Node<'a> {
        PrattParser::new(Ops).parse_expr(st, min)
    }
    fn list<S: Source + ?Sized>(st: &mut St<'_, S>, end: Tok) {
        while st.not_at(end) && st.not_at(Tok::End) && st.not_at_end() {
            Self::expr(st, 0);
            if !st.eat(Tok::Comma) {
                break;
            }
        }
        let _ = st.expect(end);
    }
}
impl Pratt<Toy> for Ops {
    fn primary<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>) -> Node<'a> {
        let cp = st.checkpoint();
        match st.peek_kind() {
            Some(k @ (Tok::Name | Tok::Num | Tok::Str)) => {
                // A name that means something in this place only.
                let it = k == Tok::Name && st.peek_text().is_some_and(|t| t == "it");
                st.bump();
                st.finish_at(cp, if it { El::Unary } else { El::Atom })
            }
            Some(Tok::Macro) => {
                let span = st.current().unwrap().span;
                let name = st.peek_text().unwrap().into_owned();
                let p = if name.len() % 2 == 0 { TokenProvenance::from_synthesized(name) } else { TokenProvenance::from_source(Range { start: span.start, end: span.end }) };
                st.sink.push_leaf_with_metadata(Tok::Macro, span.end - span.start, p);
                st.advance();
                st.finish_at(cp, El::Atom)
            }
            Some(Tok::LP) => {
                let lambda = st.try_parse(|st| {
                    st.incremental_node(El::Lambda, |st| {
                        let no = || OakError::custom_error("no function");
                        st.eat(Tok::LP);
                        while st.eat(Tok::Name) && st.eat(Tok::Comma) {}
                        if !st.eat(Tok::RP) || !st.eat(Tok::Arrow) {
                            return Err(no());
                        }
                        Ops::expr(st, 0);
                        Ok(())
                    })
                });
                if lambda.is_err() {
                    // One name in parentheses or any number of expressions
                    let _ = st.incremental_node(El::Paren, |st| {
                        st.eat(Tok::LP);
                        Ops::list(st, Tok::RP);
                        Ok(())
                    });
                }
                st.finish_at(cp, El::Tuple)
            }
            Some(Tok::LB) => {
                let _ = st.incremental_node(El::Index, |st| {
                    st.eat(Tok::LB);
                    Ops::list(st, Tok::RB);
                    Ok(())
                });
                st.finish_at(cp, El::Atom)
            }
            _ => {
                st.record_expected("an expression");
                st.finish_at(cp, El::Hole)
            }
        }
    }
    fn prefix<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>) -> Node<'a> {
        match st.peek_kind() {
            Some(k @ (Tok::Minus | Tok::Bang)) => unary(st, k, 30, El::Unary, Ops::expr),
            _ => self.primary(st),
        }
    }
    fn infix<'a, S: Source + ?Sized>(&self, st: &mut St<'a, S>, left: Node<'a>, min: u8) -> Option<Node<'a>> {
        let k = st.peek_kind()?;
        let (p, a) = match k {
            Tok::Same => (5, Associativity::None),
            Tok::Plus | Tok::Minus => (10, Associativity::Left),
            Tok::Star | Tok::Slash => (20, Associativity::Left),
            Tok::Caret => (40, Associativity::Right),
            Tok::Bang if min <= 50 => return Some(postfix(st, left, k, El::Postfix)),
            Tok::LP if min <= 50 => {
                let cp = st.checkpoint_before(left);
                let _ = st.incremental_opt(El::Args, |st| {
                    if !st.eat(Tok::LP) {
                        return Ok(false);
                    }
                    Ops::list(st, Tok::RP);
                    Ok(true)
                });
                return Some(st.finish_at(cp, El::Call));
            }
            _ => return None,
        };
        if p < min { None } else { Some(binary(st, left, k, p, a, El::Binary, Ops::expr)) }
    }
}
fn label<S: Source + ?Sized>(st: &mut St<'_, S>) -> Result<bool, OakError> {
    // `[name]` before a statement; otherwise it is an expression.
    st.incremental_opt(El::Label, |st| {
        if st.peek_non_trivia_kind_at(1) != Some(Tok::Bang) || !st.at(Tok::Name) {
            return Ok(false);
        }
        st.bump();
        st.bump();
        Ok(true)
    })
}
fn stmt<S: Source + ?Sized>(st: &mut St<'_, S>) -> Result<(), OakError> {
    st.incremental_node(El::Stmt, |st| {
        if st.at(Tok::LC) {
            return body(st);
        }
        if st.at(Tok::Slash) {
            st.bump();
            let _ = label(st)?;
        }
        if st.at(Tok::Name) && st.peek_text().is_some_and(|t| t == "do") {
            let cp = st.checkpoint();
            st.bump();
            st.finish_at(cp, El::Call);
        }
        if st.at(Tok::Name) && st.peek_non_trivia_kind_at(1) == Some(Tok::Is) {
            let cp = st.checkpoint();
            st.bump();
            st.bump();
            Ops::expr(st, 0);
            st.finish_at(cp, El::Assign);
        }
        else {
            Ops::expr(st, 0);
        }
        if st.expect(Tok::Semi).is_err() {
            st.advance_until_any(&[Tok::Semi, Tok::RC, Tok::End]);
            st.eat(Tok::Semi);
        }
        Ok(())
    })
}
fn body<S: Source + ?Sized>(st: &mut St<'_, S>) -> Result<(), OakError> {
    st.incremental_node(El::Body, |st| {
        st.expect(Tok::LC)?;
        while st.not_at(Tok::RC) && st.not_at(Tok::End) && st.not_at_end() {
            stmt(st)?
        }
        st.expect(Tok::RC)
    })
}
impl Parser<Toy> for Toy {
    fn parse<'a, S: Source + ?Sized>(&self, text: &'a S, edits: &[TextEdit], cache: &'a mut impl ParseCache<Toy>) -> ParseOutput<'a, Toy> {
        parse_with_lexer(self, text, edits, cache, |st| {
            let cp = (0, 0);
            while st.not_at(Tok::End) && st.not_at_end() {
                if st.at(Tok::RC) {
                    st.record_unexpected_token("}");
                    st.bump();
                    continue;
                }
                stmt(st)?
            }
            st.eat(Tok::End);
            Ok(st.finish_at(cp, El::Root))
        })
    }
}
