//! Reference semantics of patterns, written from the documented grammar:
//!
//! ```ebnf
//!     expression ::= sub_expression (VERTICAL expression)?;
//!     sub_expression ::= sub_exrpession_item+;
//!     sub_expression_item ::= match | group;
//!     group ::= LEFT_PAREN expresion RIGHT_PAREN QUANTFIER?;
//!     match ::= match_item QUANTIFIER?;
//!     match_item ::= CHARACTER_CLASS | CHARACTER | character_group;
//!     character_group ::= LEFT_BRACKET CARRET? character_group_item+ RIGHT_BRACKET;
//!     character_group_item ::= CHARACTER_CLASS | character_range | CHARACTER;
//! ```
//!
//! (An empty character group is accepted too: the repository's own proptest
//! demands it. It contains no character.)

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Any,
    Word,
    Space,
    Digit,
    NonWord,
    NonDigit,
    NonSpace,
}

pub const CLASSES: [Class; 7] = [
    Class::Any,
    Class::Word,
    Class::Space,
    Class::Digit,
    Class::NonWord,
    Class::NonDigit,
    Class::NonSpace,
];

impl Class {
    pub fn has(self, c: char) -> bool {
        match self {
            Class::Any => true,
            Class::Word => c.is_alphabetic(),
            Class::Space => c.is_whitespace(),
            Class::Digit => ('0'..='9').contains(&c),
            Class::NonWord => !c.is_alphabetic(),
            Class::NonDigit => !('0'..='9').contains(&c),
            Class::NonSpace => !c.is_whitespace(),
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            Class::Any => ".",
            Class::Word => r"\w",
            Class::Space => r"\s",
            Class::Digit => r"\d",
            Class::NonWord => r"\W",
            Class::NonDigit => r"\D",
            Class::NonSpace => r"\S",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Ch(char),
    Class(Class),
    Range(char, char),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Set {
    Ch(char),
    Class(Class),
    Group(bool, Vec<Item>),
}

impl Set {
    pub fn has(&self, c: char) -> bool {
        match self {
            Set::Ch(x) => *x == c,
            Set::Class(k) => k.has(c),
            Set::Group(neg, items) => {
                let mut inside = false;
                for it in items {
                    inside |= match it {
                        Item::Ch(x) => *x == c,
                        Item::Class(k) => k.has(c),
                        Item::Range(a, b) => *a <= c && c <= *b,
                    };
                }
                inside != *neg
            }
        }
    }
}

/// `None` = unbounded.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Quant {
    pub min: u32,
    pub max: Option<u32>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Re {
    Empty,
    Set(Set),
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    /// A parenthesised expression.
    Group(Box<Re>),
    Rep(Box<Re>, Quant),
}

// ------------------------------------------------------------------ matching

/// Sets of positions in a text.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Bits(Vec<u64>);

impl Bits {
    pub fn new(n: usize) -> Self {
        Bits(vec![0; n / 64 + 1])
    }
    pub fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64);
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn or(&mut self, o: &Bits) {
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a |= b;
        }
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn max(&self) -> Option<usize> {
        for (i, w) in self.0.iter().enumerate().rev() {
            if *w != 0 {
                return Some(i * 64 + 63 - w.leading_zeros() as usize);
            }
        }
        None
    }
}

/// All positions reachable from a position of `from` by matching `re` once.
pub fn step(re: &Re, text: &[char], from: &Bits) -> Bits {
    step_hw(re, text, from, &mut 0)
}

/// As `step`; `hw` is raised to the furthest position any attempt got to.
pub fn step_hw(re: &Re, text: &[char], from: &Bits, hw: &mut usize) -> Bits {
    // deeply nested repetitions ask for the same thing over and over
    let mut memo = if depth(re) > 4 { Some(Memo::new()) } else { None };
    step_in(re, text, from, hw, &mut memo)
}

/// What repetitions inside a pattern came to.
type Memo = std::collections::HashMap<(*const Re, Bits), Bits>;

fn step_in(re: &Re, text: &[char], from: &Bits, hw: &mut usize, memo: &mut Option<Memo>) -> Bits {
    if let (Re::Rep(..), Some(m)) = (re, memo.as_ref()) {
        if let Some(known) = m.get(&(re as *const Re, from.clone())) {
            return known.clone();
        }
    }
    match re {
        Re::Empty => from.clone(),
        Re::Set(s) => {
            let mut out = Bits::new(text.len());
            for (i, c) in text.iter().enumerate() {
                if from.get(i) && s.has(*c) {
                    out.set(i + 1);
                    *hw = (*hw).max(i + 1);
                }
            }
            out
        }
        Re::Cat(xs) => {
            let mut cur = from.clone();
            for x in xs {
                if cur.is_empty() {
                    break;
                }
                cur = step_in(x, text, &cur, hw, memo);
            }
            cur
        }
        Re::Alt(xs) => {
            let mut out = Bits::new(text.len());
            for x in xs {
                out.or(&step_in(x, text, from, hw, memo));
            }
            out
        }
        Re::Group(x) => step_in(x, text, from, hw, memo),
        Re::Rep(x, q) => {
            let mut out = Bits::new(text.len());
            if let Some(max) = q.max {
                if max < q.min {
                    return out;
                }
            }
            // After more rounds than the text has characters, further rounds
            // change nothing: a body that cannot match the empty string has
            // left the text, and one that can has reached all it ever will.
            let cap = text.len() as u32 + 2;
            let min = q.min.min(cap);
            let max = q.max.unwrap_or(cap).min(cap);
            let mut cur = from.clone();
            let mut k = 0;
            loop {
                if k >= min {
                    let before = out.clone();
                    out.or(&cur);
                    // nothing new, and so it stays
                    if k > min && out == before {
                        break;
                    }
                }
                if k >= max || cur.is_empty() {
                    break;
                }
                cur = step_in(x, text, &cur, hw, memo);
                k += 1;
            }
            if let Some(m) = memo {
                m.insert((re as *const Re, from.clone()), out.clone());
            }
            out
        }
    }
}

/// End of the longest non-empty match starting at `at`.
pub fn longest(re: &Re, text: &[char], at: usize) -> Option<usize> {
    let mut from = Bits::new(text.len());
    from.set(at);
    match step(re, text, &from).max() {
        Some(e) if e > at => Some(e),
        _ => None,
    }
}

pub fn matches(re: &Re, text: &[char]) -> bool {
    let mut from = Bits::new(text.len());
    from.set(0);
    step(re, text, &from).get(text.len())
}

/// A reference token: pattern index, start, end.
pub type RefTok = (usize, usize, usize);

/// Maximal munch with declaration-order tie breaking. Returns the tokens and
/// where lexing stopped.
pub fn ref_lex(pats: &[Re], text: &[char]) -> (Vec<RefTok>, usize) {
    let mut toks = Vec::new();
    let mut at = 0;
    while at < text.len() {
        let mut best: Option<(usize, usize)> = None;
        for (i, p) in pats.iter().enumerate() {
            if let Some(e) = longest(p, text, at) {
                if best.is_none_or(|(_, be)| e > be) {
                    best = Some((i, e));
                }
            }
        }
        match best {
            Some((i, e)) => {
                toks.push((i, at, e));
                at = e;
            }
            None => break,
        }
    }
    (toks, at)
}

// ----------------------------------------------------------------- rendering

pub fn is_special(c: char) -> bool {
    matches!(
        c,
        '[' | ']' | '(' | ')' | '^' | '|' | '-' | '*' | '+' | '?' | '{' | '}' | '.' | '\\'
    )
}

pub fn lit(c: char) -> String {
    if is_special(c) {
        format!("\\{c}")
    } else {
        c.to_string()
    }
}

pub fn quant_text(q: Quant, style: u32) -> String {
    match (q.min, q.max) {
        (0, None) if style == 0 => "*".into(),
        (1, None) if style == 0 => "+".into(),
        (0, Some(1)) if style == 0 => "?".into(),
        (a, None) => format!("{{{a},}}"),
        (a, Some(b)) if a == b && style < 2 => format!("{{{a}}}"),
        (a, Some(b)) => format!("{{{a},{b}}}"),
    }
}

pub fn item_text(i: &Item) -> String {
    match i {
        Item::Ch(c) => lit(*c),
        Item::Class(k) => k.text().into(),
        Item::Range(a, b) => format!("{}-{}", lit(*a), lit(*b)),
    }
}

pub fn set_text(s: &Set) -> String {
    match s {
        Set::Ch(c) => lit(*c),
        Set::Class(k) => k.text().into(),
        Set::Group(neg, items) => format!(
            "[{}{}]",
            if *neg { "^" } else { "" },
            items.iter().map(item_text).collect::<String>()
        ),
    }
}

/// Renders an expression; parentheses appear exactly at `Group` nodes, so the
/// generator must only build trees the grammar can express.
pub fn text(re: &Re) -> String {
    match re {
        Re::Empty => String::new(),
        Re::Set(s) => set_text(s),
        Re::Cat(xs) => xs.iter().map(text).collect(),
        Re::Alt(xs) => xs.iter().map(text).collect::<Vec<_>>().join("|"),
        Re::Group(x) => format!("({})", text(x)),
        Re::Rep(x, q) => {
            let style = q.min.wrapping_mul(7).wrapping_add(q.max.unwrap_or(3)) % 3;
            format!("{}{}", text(x), quant_text(*q, style))
        }
    }
}

// ----------------------------------------------------------- reference parser

#[derive(Clone, Debug, PartialEq, Eq)]
enum Tk {
    Class(Class),
    Op(char),
    Quant(Quant),
    Ch(char),
    Invalid,
}

/// A lexical piece of a pattern with its extent. The extent of an invalid
/// piece ends with the character that makes it invalid.
#[derive(Clone, Debug)]
struct Piece {
    tk: Tk,
    start: usize,
    end: usize,
}

fn hex(c: Option<&char>) -> Option<u32> {
    match c {
        Some(c @ '0'..='9') => Some(*c as u32 - '0' as u32),
        Some(c @ 'a'..='f') => Some(*c as u32 - 'a' as u32 + 10),
        Some(c @ 'A'..='F') => Some(*c as u32 - 'A' as u32 + 10),
        _ => None,
    }
}

fn fixed_hex(p: &[char], at: usize, n: usize) -> Result<(u32, usize), usize> {
    let mut v = 0;
    for k in 0..n {
        match hex(p.get(at + k)) {
            Some(d) => v = v * 16 + d,
            None => return Err(at + k + 1),
        }
    }
    Ok((v, at + n))
}

/// One escape sequence starting after the backslash at `at - 1`.
fn escape(p: &[char], at: usize) -> Result<(Tk, usize), usize> {
    let Some(c) = p.get(at) else { return Err(at) };
    let one = |t: Tk| Ok((t, at + 1));
    match c {
        'w' => one(Tk::Class(Class::Word)),
        'W' => one(Tk::Class(Class::NonWord)),
        'd' => one(Tk::Class(Class::Digit)),
        'D' => one(Tk::Class(Class::NonDigit)),
        's' => one(Tk::Class(Class::Space)),
        'S' => one(Tk::Class(Class::NonSpace)),
        'f' => one(Tk::Ch('\u{c}')),
        'n' => one(Tk::Ch('\u{a}')),
        'r' => one(Tk::Ch('\u{d}')),
        't' => one(Tk::Ch('\u{9}')),
        'v' => one(Tk::Ch('\u{b}')),
        '0' => one(Tk::Ch('\u{0}')),
        '^' | '$' | '\\' | '.' | '*' | '+' | '?' | '(' | ')' | '[' | ']' | '|' | '/' | '{' | '}'
        | '-' => one(Tk::Ch(*c)),
        'c' => match p.get(at + 1) {
            Some(l) if l.is_ascii_alphabetic() => {
                let n = l.to_ascii_uppercase() as u32 - 'A' as u32 + 1;
                Ok((Tk::Ch(char::from_u32(n).unwrap()), at + 2))
            }
            _ => Err(at + 2),
        },
        'x' => {
            let (v, e) = fixed_hex(p, at + 1, 2)?;
            Ok((Tk::Ch(char::from_u32(v).unwrap()), e))
        }
        'u' if p.get(at + 1) == Some(&'{') => {
            // four to six digits in braces
            let mut v = 0u32;
            let mut k = at + 2;
            while let Some(d) = hex(p.get(k)) {
                if k - (at + 2) == 6 {
                    return Err(k + 1);
                }
                v = v * 16 + d;
                k += 1;
            }
            if k - (at + 2) < 4 || p.get(k) != Some(&'}') {
                return Err(k + 1);
            }
            char::from_u32(v).map(|c| (Tk::Ch(c), k + 1)).ok_or(k + 1)
        }
        'u' => {
            let (v, e) = fixed_hex(p, at + 1, 4)?;
            char::from_u32(v).map(|c| (Tk::Ch(c), e)).ok_or(e)
        }
        _ => Err(at + 1),
    }
}

/// A range quantifier starting after the brace at `at - 1`.
fn braces(p: &[char], at: usize) -> Result<(Quant, usize), usize> {
    let number = |mut k: usize| -> Result<(Option<u32>, usize), usize> {
        let s = k;
        while p.get(k).is_some_and(|c| c.is_ascii_digit()) {
            k += 1;
        }
        if k == s {
            return Err(k + 1);
        }
        let t: String = p[s..k].iter().collect();
        Ok((t.parse().ok(), k))
    };
    let (min, k) = number(at)?;
    let (max, k) = match p.get(k) {
        Some('}') => (Some(min), k),
        Some(',') if p.get(k + 1) == Some(&'}') => (None, k + 1),
        Some(',') => {
            let (m, k) = number(k + 1)?;
            if p.get(k) != Some(&'}') {
                return Err(k + 1);
            }
            (Some(m), k)
        }
        _ => return Err(k + 1),
    };
    // numbers that do not fit are errors
    match (min, max) {
        (Some(min), None) => Ok((Quant { min, max: None }, k + 1)),
        (Some(min), Some(Some(max))) => Ok((Quant { min, max: Some(max) }, k + 1)),
        _ => Err(k + 1),
    }
}

fn pieces(p: &[char]) -> Vec<Piece> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < p.len() {
        let (tk, end) = match p[i] {
            '\\' => escape(p, i + 1).unwrap_or_else(|e| (Tk::Invalid, e)),
            '.' => (Tk::Class(Class::Any), i + 1),
            c @ ('[' | ']' | '(' | ')' | '^' | '|' | '-') => (Tk::Op(c), i + 1),
            '*' => (Tk::Quant(Quant { min: 0, max: None }), i + 1),
            '+' => (Tk::Quant(Quant { min: 1, max: None }), i + 1),
            '?' => (Tk::Quant(Quant { min: 0, max: Some(1) }), i + 1),
            '{' => match braces(p, i + 1) {
                Ok((q, e)) => (Tk::Quant(q), e),
                Err(e) => (Tk::Invalid, e),
            },
            c => (Tk::Ch(c), i + 1),
        };
        let end = end.min(p.len()).max(i + 1);
        out.push(Piece { tk: tk.clone(), start: i, end });
        if tk == Tk::Invalid {
            // the pattern is rejected; what follows does not matter
            break;
        }
        i = end;
    }
    out
}

/// Why and where a pattern is rejected: the extent of the first offending
/// piece, or `None` for an unexpected end of the pattern.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Reject(pub Option<(usize, usize)>);

struct P {
    t: Vec<Piece>,
    i: usize,
}

impl P {
    fn peek(&self) -> Option<&Tk> {
        self.t.get(self.i).map(|p| &p.tk)
    }
    fn fail<T>(&self) -> Result<T, Reject> {
        Err(Reject(self.t.get(self.i).map(|p| (p.start, p.end))))
    }
    fn expression(&mut self) -> Result<Re, Reject> {
        let mut alts = vec![self.sub_expression()?];
        while self.peek() == Some(&Tk::Op('|')) {
            self.i += 1;
            alts.push(self.sub_expression()?);
        }
        Ok(if alts.len() == 1 { alts.pop().unwrap() } else { Re::Alt(alts) })
    }
    fn sub_expression(&mut self) -> Result<Re, Reject> {
        let mut xs = Vec::new();
        loop {
            match self.peek() {
                Some(Tk::Op('(')) => {
                    self.i += 1;
                    let e = self.expression()?;
                    if self.peek() != Some(&Tk::Op(')')) {
                        return self.fail();
                    }
                    self.i += 1;
                    xs.push(self.quantified(Re::Group(Box::new(e))));
                }
                Some(Tk::Ch(c)) => {
                    let s = Re::Set(Set::Ch(*c));
                    self.i += 1;
                    xs.push(self.quantified(s));
                }
                Some(Tk::Class(k)) => {
                    let s = Re::Set(Set::Class(*k));
                    self.i += 1;
                    xs.push(self.quantified(s));
                }
                Some(Tk::Op('[')) => {
                    self.i += 1;
                    let s = self.char_group()?;
                    xs.push(self.quantified(Re::Set(s)));
                }
                None | Some(Tk::Op('|' | ')')) if !xs.is_empty() => break,
                _ => return self.fail(),
            }
        }
        Ok(if xs.len() == 1 { xs.pop().unwrap() } else { Re::Cat(xs) })
    }
    fn quantified(&mut self, e: Re) -> Re {
        if let Some(Tk::Quant(q)) = self.peek() {
            let q = *q;
            self.i += 1;
            Re::Rep(Box::new(e), q)
        } else {
            e
        }
    }
    fn char_group(&mut self) -> Result<Set, Reject> {
        let mut neg = false;
        if self.peek() == Some(&Tk::Op('^')) {
            neg = true;
            self.i += 1;
        }
        let mut items = Vec::new();
        loop {
            match self.peek() {
                Some(Tk::Op(']')) => {
                    self.i += 1;
                    return Ok(Set::Group(neg, items));
                }
                Some(Tk::Class(k)) => {
                    items.push(Item::Class(*k));
                    self.i += 1;
                }
                Some(Tk::Ch(a)) => {
                    let a = *a;
                    self.i += 1;
                    if self.peek() == Some(&Tk::Op('-')) {
                        self.i += 1;
                        match self.peek() {
                            Some(Tk::Ch(b)) => items.push(Item::Range(a, *b)),
                            _ => return self.fail(),
                        }
                        self.i += 1;
                    } else {
                        items.push(Item::Ch(a));
                    }
                }
                _ => return self.fail(),
            }
        }
    }
}

/// Reference reading of a pattern text.
pub fn parse(pattern: &str) -> Result<Re, Reject> {
    let chars: Vec<char> = pattern.chars().collect();
    if chars.is_empty() {
        return Ok(Re::Empty);
    }
    let mut p = P { t: pieces(&chars), i: 0 };
    let e = p.expression()?;
    if p.i < p.t.len() {
        return p.fail();
    }
    Ok(e)
}

/// Rough size of the counted automaton's configuration space; used to keep
/// generated patterns affordable.
pub fn weight(re: &Re) -> u64 {
    match re {
        Re::Empty | Re::Set(_) => 1,
        Re::Cat(xs) | Re::Alt(xs) => xs.iter().map(weight).sum::<u64>().max(1),
        Re::Group(x) => weight(x),
        Re::Rep(x, q) => {
            let n = match (q.min, q.max) {
                (m, None) => m as u64 + 1,
                (_, Some(m)) => m as u64 + 2,
            };
            (weight(x) + 1).saturating_mul(n.min(1 << 20))
        }
    }
}

pub fn depth(re: &Re) -> u32 {
    match re {
        Re::Empty | Re::Set(_) => 0,
        Re::Cat(xs) | Re::Alt(xs) => xs.iter().map(depth).max().unwrap_or(0),
        Re::Group(x) => 1 + depth(x),
        Re::Rep(x, _) => depth(x),
    }
}

pub fn nullable(re: &Re) -> bool {
    match re {
        Re::Empty => true,
        Re::Set(_) => false,
        Re::Cat(xs) => xs.iter().all(nullable),
        Re::Alt(xs) => xs.iter().any(nullable),
        Re::Group(x) => nullable(x),
        Re::Rep(x, q) => {
            if q.max.is_some_and(|m| m < q.min) {
                return false;
            }
            q.min == 0 || nullable(x)
        }
    }
}

/// Whether some quantified group contains a quantifier itself.
pub fn nested_quant(re: &Re) -> bool {
    fn has_q(re: &Re) -> bool {
        match re {
            Re::Empty | Re::Set(_) => false,
            Re::Cat(xs) | Re::Alt(xs) => xs.iter().any(has_q),
            Re::Group(x) => has_q(x),
            Re::Rep(..) => true,
        }
    }
    match re {
        Re::Empty | Re::Set(_) => false,
        Re::Cat(xs) | Re::Alt(xs) => xs.iter().any(nested_quant),
        Re::Group(x) => nested_quant(x),
        Re::Rep(x, _) => has_q(x) || nested_quant(x),
    }
}

/// Whether some quantified part can match the empty string.
pub fn empty_rounds(re: &Re) -> bool {
    match re {
        Re::Empty | Re::Set(_) => false,
        Re::Cat(xs) | Re::Alt(xs) => xs.iter().any(empty_rounds),
        Re::Group(x) => empty_rounds(x),
        Re::Rep(x, _) => nullable(x) || empty_rounds(x),
    }
}
