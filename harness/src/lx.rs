//! Driver of the lexer under test.

use crate::work::Call;
use pango_lexer::{Lexer, Token};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub kind: usize,
    pub source: String,
    pub pos: (usize, usize),
}

impl From<Token<usize>> for Tok {
    fn from(t: Token<usize>) -> Self {
        Tok { kind: t.kind, source: t.source, pos: t.pos }
    }
}

pub enum LexErr {
    /// A pattern was rejected: its index and the message.
    Pattern(usize, String),
    /// More tokens than characters.
    Endless,
}

/// All tokens up to the first end, then `extra` further requests.
pub fn lex_more(pats: &[String], text: &str, extra: usize) -> Result<(Vec<Tok>, Vec<Option<Tok>>), LexErr> {
    let _call = Call::enter();
    let mut b = Lexer::builder();
    for (i, p) in pats.iter().enumerate() {
        b = b.with_token_unit(p, i).map_err(|e| LexErr::Pattern(i, e.to_string()))?;
    }
    let mut lexer = b.tokenize(text);
    let cap = text.chars().count() + 1;
    let mut out = Vec::new();
    while let Some(t) = lexer.next() {
        out.push(t.into());
        if out.len() > cap {
            return Err(LexErr::Endless);
        }
    }
    let more = (0..extra).map(|_| lexer.next().map(Tok::from)).collect();
    Ok((out, more))
}

pub fn lex(pats: &[String], text: &str) -> Result<Vec<Tok>, LexErr> {
    lex_more(pats, text, 0).map(|x| x.0)
}

impl LexErr {
    pub fn text(&self) -> String {
        match self {
            LexErr::Pattern(i, m) => format!("pattern {i} was rejected: {}", m.trim()),
            LexErr::Endless => "the lexer yields more tokens than there are characters".into(),
        }
    }
}

pub fn show(toks: &[Tok]) -> String {
    let v: Vec<String> =
        toks.iter().map(|t| format!("#{} {:?}@{}..{}", t.kind, t.source, t.pos.0, t.pos.1)).collect();
    format!("[{}]", v.join(", "))
}
