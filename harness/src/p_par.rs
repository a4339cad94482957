//! Properties of grammars, machines and parsers, C10 to C21.

use crate::dbg::{self, Tree};
use crate::engine::{guarded, with_hash_seed, Cx, Source};
use crate::gref::{self, Conflict, Rule, Sym, G};
use crate::{gen, p_lex, re, work};
use pango_lexer::Lexer;
use pango_parser::{Cfsm, Grammar, Slr, Symbol, TerminalEq, TerminalHash};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::pin::Pin;

type R = Result<(), String>;

// --------------------------------------------------------------- symbol types

thread_local! {
    /// How names are written: 0 plain, others with characters special in dot.
    static STYLE: Cell<u32> = const { Cell::new(0) };
    /// How `terminal_hash` works: 0 by kind, 1 constant, 2 by parity.
    static HASH_MODE: Cell<u32> = const { Cell::new(0) };
    /// Whether all variables have the same hash.
    static FLAT: Cell<bool> = const { Cell::new(false) };
}

fn named(f: &mut fmt::Formatter<'_>, plain: String) -> fmt::Result {
    match STYLE.with(Cell::get) {
        0 => write!(f, "{plain}"),
        1 => write!(f, "{:?}", plain),
        2 => write!(f, "N({:?})", format!("\\{plain}\"")),
        3 => write!(f, "c:\\{plain}\\"),
        4 => write!(f, "<{plain}>|{{}}"),
        // variables and terminals have the same names
        6 => write!(f, "x{}", plain[1..].split('_').next().unwrap_or("")),
        // long names that differ at the end, and ones that differ at the start
        7 => write!(f, "{}{plain}", "symbol-".repeat(40)),
        8 => write!(f, "{plain}{}", "-symbol".repeat(40)),
        _ => write!(f, "{plain};[]=->é"),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct V(pub u8);

impl Hash for V {
    fn hash<H: Hasher>(&self, h: &mut H) {
        work::probe();
        if !FLAT.with(Cell::get) {
            self.0.hash(h);
        }
    }
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        named(f, format!("v{}", self.0))
    }
}

/// A terminal with a kind and a value; it owns heap memory, so stale pointers
/// to it are visible to a memory checker. The variant tells nothing about the
/// kind, as with a keyword that is also a name.
pub enum T {
    Even(u8, Box<u32>),
    Odd(Box<u32>, u8),
}

impl T {
    pub fn new(kind: u8, val: u32) -> T {
        if val % 2 == 0 {
            T::Even(kind, Box::new(val))
        } else {
            T::Odd(Box::new(val), kind)
        }
    }
    fn kind(&self) -> u8 {
        match self {
            T::Even(k, _) | T::Odd(_, k) => *k,
        }
    }
    fn val(&self) -> u32 {
        match self {
            T::Even(_, v) | T::Odd(v, _) => **v,
        }
    }
}

impl Clone for T {
    fn clone(&self) -> T {
        T::new(self.kind(), self.val())
    }
}

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        named(f, format!("t{}_{}", self.kind(), self.val()))
    }
}

impl PartialEq for T {
    fn eq(&self, o: &T) -> bool {
        work::probe();
        self.kind() == o.kind() && self.val() == o.val()
    }
}
impl Eq for T {}
impl Hash for T {
    fn hash<H: Hasher>(&self, h: &mut H) {
        work::probe();
        (self.kind(), self.val()).hash(h);
    }
}
impl TerminalEq for T {
    fn terminal_eq(&self, o: &T) -> bool {
        work::probe();
        std::hint::black_box(self.val());
        std::hint::black_box(o.val());
        self.kind() == o.kind()
    }
}
impl TerminalHash for T {
    fn terminal_hash<H: Hasher>(&self, h: &mut H) {
        work::probe();
        std::hint::black_box(self.val());
        match HASH_MODE.with(Cell::get) {
            0 => self.kind().hash(h),
            1 => 7u8.hash(h),
            _ => (self.kind() % 2).hash(h),
        }
    }
}

// -------------------------------------------------------------------- driving

type Body = Vec<Symbol<V, T>>;

fn body(b: &[Sym], place: &dyn Fn(u8) -> u32) -> Body {
    b.iter()
        .map(|s| match s {
            Sym::T(t) => Symbol::Terminal(T::new(*t, place(*t))),
            Sym::V(v) => Symbol::Variable(V(*v)),
            Sym::E => Symbol::Epsilon,
        })
        .collect()
}

const PLACE: fn(u8) -> u32 = |_| 900;

pub fn build(g: &G) -> Grammar<V, T> {
    build_with(g, &PLACE)
}

fn build_with(g: &G, place: &dyn Fn(u8) -> u32) -> Grammar<V, T> {
    let mut b = Grammar::builder().with_start_variable(V(g.start));
    for (h, r) in &g.rules {
        b.add_rule(V(*h), body(r, place));
    }
    b.build()
}

/// Result of constructing a parser.
pub enum Built {
    Yes(Slr<V, T>),
    NotSlr,
}

fn construct_from(grammar: impl FnOnce() -> Grammar<V, T>) -> Result<Built, String> {
    let g = guarded(grammar).map_err(|p| format!("building the grammar panics: {p}"))?;
    match guarded(|| Slr::new(g)) {
        Ok(p) => Ok(Built::Yes(p)),
        Err(m) if m.to_lowercase().contains("not slr") => Ok(Built::NotSlr),
        Err(m) => Err(format!("constructing the parser panics: {m}")),
    }
}

pub fn construct(g: &G) -> Result<Built, String> {
    construct_from(|| build(g))
}

fn tok(s: &str) -> T {
    let c = s.chars().next().unwrap();
    T::new(gref::letter_kind(c), s[c.len_utf8()..].parse().unwrap_or(0))
}

/// A text whose tokens have the given kinds and values.
fn word_text(w: &[u8], vals: &[u32]) -> String {
    w.iter().zip(vals).map(|(k, v)| format!("{}{}", gref::letter(*k), v)).collect()
}

fn numbered(w: &[u8]) -> Vec<u32> {
    (0..w.len() as u32).collect()
}

/// Parses a text of such tokens; the tree as its debug text.
fn parse_text(p: &Slr<V, T>, text: &str) -> Result<Option<String>, String> {
    let _call = work::Call::enter();
    let lexer = Lexer::builder()
        .with_token_map(r"[a-zA-Zα-ω]\d*", tok)
        .map_err(|e| format!("token pattern was rejected: {e}"))?
        .tokenize(text);
    match guarded(|| p.parse(lexer)) {
        Ok(Ok(cst)) => Ok(Some(format!("{cst:?}"))),
        Ok(Err(())) => Ok(None),
        Err(m) => Err(format!("parsing {text:?} panics: {m}")),
    }
}

fn parse_word(p: &Slr<V, T>, w: &[u8]) -> Result<Option<String>, String> {
    parse_text(p, &word_text(w, &numbered(w)))
}

fn read_tree(t: &str) -> Result<Tree, String> {
    let d = dbg::read_debug(t).map_err(|e| format!("{e}: {t}"))?;
    dbg::tree(&d).ok_or_else(|| format!("the tree cannot be read: {t}"))
}

fn show_word(w: &[u8]) -> String {
    format!("{:?}", w.iter().map(|k| gref::letter(*k)).collect::<String>())
}

// ---------------------------------------------------------------- labels

fn label_grammar(cx: &mut Cx, g: &G, rules: &[Rule]) {
    let f = gref::sets(g.nv as usize, g.start, rules);
    let prod = gref::productive(g.nv as usize, rules);
    let reach = gref::reachable(g.nv as usize, g.start, rules);
    let useless = (0..g.nv as usize).any(|v| !prod[v] || !reach[v]);
    cx.label_if(f.nullable.iter().any(|x| *x), "has empty rules");
    cx.label_if(useless, "has useless variables");
    cx.label_if(
        rules.iter().any(|(_, b)| b.contains(&Sym::V(g.start))),
        "recursive start variable",
    );
    cx.label_if(f.follow.iter().filter(|x| **x >> gref::EOF & 1 == 1).count() >= 2, "several variables can end a sentence");
    cx.label_if(rules.len() >= 8, "eight rules or more");
    cx.label_if(rules.len() >= 20, "twenty rules or more");
    cx.label_if(rules.iter().any(|(_, b)| b.len() >= 5), "a body of five symbols or more");
}

// ------------------------------------------------------------------------ C10

fn check_c10(g: &G, words: &[Vec<u8>], cx: &mut Cx) -> R {
    let rules = g.clean();
    cx.describe(format!("grammar {} on {} token sequences", g.text(), words.len()));
    label_grammar(cx, g, &rules);
    let p = match construct(g)? {
        Built::Yes(p) => p,
        Built::NotSlr => {
            cx.label("not accepted by the constructor");
            return Ok(());
        }
    };
    let (mut yes, mut no) = (0, 0);
    cx.label_if(words.iter().any(|w| w.len() >= 64), "64 tokens or more");
    for w in words {
        let want = gref::derives(g.nv as usize, g.start, &rules, w);
        if want {
            yes += 1;
        } else {
            no += 1;
        }
        let got = parse_word(&p, w)?.is_some();
        cx.comparisons += 1;
        if got != want {
            return Err(format!(
                "grammar {} {} the token sequence {}, which {} a sentence",
                g.text(),
                if got { "accepts" } else { "rejects" },
                show_word(w),
                if want { "is" } else { "is not" }
            ));
        }
    }
    cx.label_if(yes > 0 && no > 0, "accepting and rejecting sequences");
    cx.nontrivial = yes > 0 && no > 0 && rules.len() >= 2;
    Ok(())
}

fn words_for(s: &mut Source, g: &G, n: usize, short: usize) -> Vec<Vec<u8>> {
    let rules = g.clean();
    let mut w = gref::words(s, g, &rules, n, 24);
    w.extend(gref::short_words(g.nt, short));
    w.sort();
    w.dedup();
    w
}

pub fn c10(s: &mut Source, cx: &mut Cx) -> R {
    let g = gref::slr_grammar(s);
    let w = words_for(s, &g, 8, 40);
    check_c10(&g, &w, cx)
}

/// Grammars with past defects and the shapes the statements name.
pub const GRAMMARS: &[&str] = &[
    "S: a S b | c",
    "S: a b | a c",
    "S: a S a | b",
    "S: A B; A: a | ; B: b | ",
    "S: ",
    "S: A; A: B; B: ",
    "S: S a | ",
    "S: a S | ",
    "S: S a T | T; T: T b F | F; F: c S d | e",
    "S: T U; U: a T U | ; T: F W; W: b F W | ; F: c S d | e",
    "S: L; L: L b I | I; I: a",
    "S: a S b S | ",
    "S: A A; A: a A | b",
    "S: a | A; A: b A",
    "S: a A | b; A: A c",
    "S: b A | a; A: A c; C: c",
    "S: a; B: b B | c",
    "S: O P Q; O: a | ; P: b | ; Q: c | ",
    "S: A b | C d; A: a; C: c",
    "S: a L b; L: L I | ; I: c | d",
    "S: A; A: a A | ",
    "S: a B; B: b C; C: c | ",
    "A: a B b | a; B: A",
    "S: B a; B: C; C: D; D: ",
    "S: X S | a; X: b",
    "S: N a; N: N b | ",
    "S: a T; T: U; U: b T | c",
    "S: T; T: T a | U; U: b | c T d",
    "S: a E; E: E b E c | d",
    "S: D; D: a L b; L: D L | ",
];

/// The fixed grammars: small ones, large ones, and a machine of more than 256
/// states.
const PINNED: usize = GRAMMARS.len() + gref::BIG.len() + 10;

fn pinned_grammar(i: usize) -> Option<G> {
    if let Some(t) = GRAMMARS.iter().chain(gref::BIG).nth(i) {
        return Some(G::read(t));
    }
    match i - GRAMMARS.len() - gref::BIG.len() {
        0 => Some(gref::wide(24, 13)),
        1 => Some(gref::wide(9, 24)),
        2 => Some(gref::tower(8, 20)),
        3 => Some(gref::tower(9, 20)),
        4 => Some(gref::tower(0, 40)),
        5 => Some(gref::tower(10, 20)),
        k @ 6..=9 => Some(gref::many(k as u32 - 6)),
        _ => None,
    }
}

/// The same, followed by the ones that are not SLR.
fn any_grammar(i: usize) -> Option<G> {
    match NOT_SLR.get(i) {
        Some(t) => Some(G::read(t)),
        None => pinned_grammar(i - NOT_SLR.len()),
    }
}

/// Words for a fixed grammar: short ones, and sentences and their neighbours.
fn pinned_words(g: &G, short: usize, n: usize) -> Vec<Vec<u8>> {
    let s = &mut Source::random(7, 100);
    let rules = g.clean();
    let mut w = gref::short_words(g.nt, short);
    w.extend(gref::words(s, g, &rules, n, 40));
    w.extend(gref::words(s, g, &rules, n / 20, 200));
    w.sort();
    w.dedup();
    w
}

/// More than 65 536 tokens.
const LONG: usize = 66_000;

/// Sequences of about so many tokens, and whether they are sentences.
fn long_case(i: usize, n: usize) -> Option<(&'static str, Vec<u8>, bool)> {
    let many = |unit: &[u8], n: usize| unit.repeat(n);
    let join = |a: Vec<u8>, b: Vec<u8>| [a, b].concat();
    const NESTED: &str = "S: a S b | c";
    Some(match i {
        0 => ("S: S a | a", many(&[0], n), true),
        1 => ("S: S a | a", join(many(&[0], n), vec![1]), false),
        2 => ("S: a S | b", join(many(&[0], n), vec![1]), true),
        3 => ("S: a S | b", many(&[0], n), false),
        4 => (NESTED, [many(&[0], n), vec![2], many(&[1], n)].concat(), true),
        5 => (NESTED, [many(&[0], n), vec![2], many(&[1], n - 1)].concat(), false),
        6 => (NESTED, [many(&[0], n), vec![2], many(&[1], n + 1)].concat(), false),
        7 => ("S: S b T | T; T: T c F | F; F: d S e | a", join(many(&[0, 1, 0, 2, 3, 0, 1, 0, 4, 1], n / 10), vec![0]), true),
        8 => ("S: S b T | T; T: T c F | F; F: d S e | a", many(&[0, 1, 0, 2, 3, 0, 1, 0, 4, 1], n / 10), false),
        9 => ("S: A S | ; A: a B b; B: | B c", many(&[0, 2, 2, 1, 0, 1], n / 6), true),
        _ => return None,
    })
}

/// With `answer`, whether the answer is right, and otherwise that there is one.
fn check_long(i: usize, answer: bool, cx: &mut Cx) -> Option<R> {
    let (g, w, want) = long_case(i, LONG)?;
    let g = G::read(g);
    cx.describe(format!("grammar {} on a sequence of {} tokens", g.text(), w.len()));
    cx.label("64 tokens or more");
    cx.nontrivial = true;
    cx.comparisons += 1;
    let mut run = || {
        let p = match construct(&g) {
            Ok(Built::Yes(p)) => p,
            _ if !answer => return Ok(()),
            _ => return Err(format!("grammar {} is rejected", g.text())),
        };
        let text = word_text(&w, &numbered(&w));
        let _call = work::Call::enter();
        let lexer = Lexer::builder().with_token_map(r"[a-zA-Zα-ω]\d*", tok).map_err(|e| format!("{e}"))?.tokenize(&text);
        // the tree is not printed: that takes one level of the stack per level
        let got = guarded(|| p.parse(lexer).is_ok()).map_err(|m| format!("parsing panics: {m}"))?;
        if answer && got != want {
            let what = if got { "accepts" } else { "rejects" };
            return Err(format!("grammar {} {what} the sequence of {} tokens of case {i}", g.text(), w.len()));
        }
        Ok(())
    };
    Some(run())
}

pub fn c10_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let Some(g) = pinned_grammar(i) else {
        return check_long(i - PINNED, true, cx);
    };
    let w = pinned_words(&g, 1200, 120);
    Some(check_c10(&g, &w, cx))
}

// ------------------------------------------------------------------------ C11

fn check_tree(g: &G, rules: &BTreeSet<Rule>, t: &Tree, want: &[(u8, u32)]) -> R {
    if t.var != Some(g.start) {
        return Err("the root is not the start variable".into());
    }
    let mut leaves = Vec::new();
    let mut stack = vec![t];
    // pre-order over the children as stored: leaves come out last token first
    while let Some(n) = stack.pop() {
        match (n.var, n.leaf) {
            (Some(v), _) => {
                let mut b: Vec<Sym> = n
                    .kids
                    .iter()
                    .map(|k| match (k.var, k.leaf) {
                        (Some(w), _) => Sym::V(w),
                        (_, Some((kind, _))) => Sym::T(kind),
                        _ => Sym::E,
                    })
                    .collect();
                b.reverse();
                if !rules.contains(&(v, b.clone())) {
                    return Err(format!(
                        "the node {} with children {} (last first) is no rule",
                        gref::sym_text(&Sym::V(v)),
                        b.iter().rev().map(gref::sym_text).collect::<String>()
                    ));
                }
                for k in n.kids.iter().rev() {
                    stack.push(k);
                }
            }
            (None, Some(l)) => {
                if !n.kids.is_empty() {
                    return Err("a token has children".into());
                }
                leaves.push(l);
            }
            _ => return Err("a node is neither a variable nor a token".into()),
        }
    }
    leaves.reverse();
    if leaves != want {
        return Err(format!("the leaves (reversed) are {leaves:?}, the tokens {want:?}"));
    }
    Ok(())
}

fn check_c11(g: &G, words: &[Vec<u8>], cx: &mut Cx) -> R {
    let rules = g.clean();
    let set: BTreeSet<Rule> = rules.iter().cloned().collect();
    cx.describe(format!("grammar {} on {} token sequences", g.text(), words.len()));
    label_grammar(cx, g, &rules);
    let Built::Yes(p) = construct(g)? else {
        cx.label("not accepted by the constructor");
        return Ok(());
    };
    let mut trees = 0;
    for w in words {
        let Some(t) = parse_word(&p, w)? else { continue };
        trees += 1;
        let want: Vec<(u8, u32)> = w.iter().copied().zip(numbered(w)).collect();
        cx.comparisons += 1;
        let tree = read_tree(&t)?;
        check_tree(g, &set, &tree, &want)
            .map_err(|e| format!("grammar {}, tokens {}: {e}; tree {t}", g.text(), show_word(w)))?;
        cx.nontrivial |= w.len() >= 2 && !tree.kids.is_empty();
    }
    cx.label_if(trees >= 3, "three trees or more");
    Ok(())
}

pub fn c11(s: &mut Source, cx: &mut Cx) -> R {
    let g = gref::slr_grammar(s);
    let rules = g.clean();
    let mut w: Vec<Vec<u8>> = Vec::new();
    for _ in 0..10 {
        let cap = if s.chance(1, 60) { 200 } else { 30 };
        if let Some(x) = gref::sentence(s, &g, &rules, cap) {
            w.push(x);
        }
    }
    w.extend(gref::short_words(g.nt, 20));
    w.sort();
    w.dedup();
    check_c11(&g, &w, cx)
}

pub fn c11_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let Some(g) = pinned_grammar(i) else {
        let (g, w, _) = long_case(i - PINNED, 3000)?;
        return Some(check_c11(&G::read(g), &[w], cx));
    };
    let w = pinned_words(&g, 1200, 200);
    Some(check_c11(&g, &w, cx))
}

// ------------------------------------------------------------------------ C12

fn check_c12(g: &G, cx: &mut Cx) -> R {
    let rules = g.clean();
    cx.describe(format!("grammar {}", g.text()));
    label_grammar(cx, g, &rules);
    let want = gref::slr_conflict(g.nv as usize, g.start, &rules);
    // FOLLOW may or may not count rules of unreachable variables; leave out
    // the grammars where that decides
    let reach = gref::reachable(g.nv as usize, g.start, &rules);
    let used: Vec<Rule> = rules.iter().filter(|r| reach[r.0 as usize]).cloned().collect();
    if gref::slr_conflict(g.nv as usize, g.start, &used).is_some() != want.is_some() {
        cx.label("left out: unreachable rules decide");
        return Ok(());
    }
    cx.label(match want {
        None => "SLR(1)",
        Some(Conflict::ShiftReduce) => "shift/reduce conflict",
        Some(Conflict::ReduceReduce) => "reduce/reduce conflict",
        Some(Conflict::AcceptReduce) => "accept/reduce conflict",
    });
    cx.nontrivial = rules.len() >= 3;
    cx.comparisons += 1;
    let got = matches!(construct(g)?, Built::Yes(_));
    if got != want.is_none() {
        return Err(format!(
            "grammar {} is {}, but the textbook table has {}",
            g.text(),
            if got { "accepted" } else { "rejected as not SLR" },
            match want {
                None => "no conflict".into(),
                Some(c) => format!("a {c:?} conflict"),
            }
        ));
    }
    Ok(())
}

pub fn c12(s: &mut Source, cx: &mut Cx) -> R {
    let mut g = gref::grammar(s);
    if s.chance(1, 6) {
        g = gref::pad(s, &g);
    }
    check_c12(&g, cx)
}

const NOT_SLR: &[&str] = &[
    "S: S S | a", "S: a | A; A: a", "S: L b R | R; L: c R | a; R: L", "S: S a S | b", "S: A a | B b; A: ; B: ",
    "S: S | a", "S: A a A b | B b B a; A: ; B: ", "S: a E c | a F d | b F c | b E d; E: e; F: e", "S: a S b | a S | c",
    "S: A | b; A: S", "S: A | B; A: a; B: a", "S: A | ; A: ", "S: S a | S | b", "S: A A; A: a | ", "S: A B; A: a | ; B: a | ",
    "S: a A | a; A: ", "S: A | a; A: B; B: a", "S: S S | ", "S: a S | S a | b", "S: A b; A: a | A; C: c",
];

pub fn c12_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    Some(check_c12(&any_grammar(i)?, cx))
}

// ------------------------------------------------------------------------ C13

type ItemKey = (u8, Vec<Sym>, usize);

fn parse_item(line: &str, names: &BTreeMap<String, Sym>) -> Result<ItemKey, String> {
    let words: Vec<&str> = line.split_whitespace().collect();
    let sym = |w: &str| names.get(w).copied().ok_or_else(|| format!("unknown symbol {w:?} in item {line:?}"));
    if words.len() < 2 {
        return Err(format!("item {line:?} has no body"));
    }
    let Sym::V(h) = sym(words[0])? else { return Err(format!("the head of {line:?} is no variable")) };
    if !matches!(words[1], "➞" | "->" | "→" | "➜" | "::=" | ":") {
        return Err(format!("no arrow in item {line:?}"));
    }
    let mut b = Vec::new();
    let mut cursor = None;
    for w in &words[2..] {
        if matches!(*w, "•" | "·" | "∙" | "●") {
            if cursor.replace(b.len()).is_some() {
                return Err(format!("two cursors in item {line:?}"));
            }
        } else {
            match sym(w)? {
                Sym::E => {}
                y => b.push(y),
            }
        }
    }
    let cursor = cursor.ok_or_else(|| format!("no cursor in item {line:?}"))?;
    Ok((h, b, cursor))
}

fn check_c13_dot(text: &str, g: &G, rules: &[Rule], names: &BTreeMap<String, Sym>, cx: &mut Cx) -> R {
    let d = dbg::read_dot(text).map_err(|e| format!("not well-formed dot: {e}"))?;
    let mut states: BTreeMap<String, BTreeSet<ItemKey>> = BTreeMap::new();
    for (id, label) in &d.nodes {
        let mut items = BTreeSet::new();
        for l in dbg::label_lines(label) {
            let it = parse_item(&l, names)?;
            if !items.insert(it) {
                return Err(format!("state {id} shows the item {l:?} twice"));
            }
        }
        states.insert(id.clone(), items);
    }
    let want = gref::lr0(rules, g.start, false);
    let key = |set: &BTreeSet<gref::It>| -> BTreeSet<ItemKey> {
        set.iter().map(|(r, c)| (rules[*r].0, rules[*r].1.clone(), *c)).collect()
    };
    let wanted: Vec<BTreeSet<ItemKey>> = want.states.iter().map(key).collect();
    let show = |s: &BTreeSet<ItemKey>| -> String {
        s.iter()
            .map(|(h, b, c)| {
                let mut t: Vec<String> = b.iter().map(gref::sym_text).collect();
                t.insert(*c, "•".into());
                format!("{} -> {}", gref::sym_text(&Sym::V(*h)), t.join(" "))
            })
            .collect::<Vec<_>>()
            .join(", ")
    };
    // states
    let mut by_items: BTreeMap<&BTreeSet<ItemKey>, &String> = BTreeMap::new();
    for (id, items) in &states {
        cx.comparisons += 1;
        if let Some(other) = by_items.insert(items, id) {
            return Err(format!("states {other} and {id} have the same items {{{}}}", show(items)));
        }
        if !wanted.contains(items) {
            return Err(format!("state {id} {{{}}} is not in the canonical collection", show(items)));
        }
    }
    for w in &wanted {
        if !by_items.contains_key(w) {
            return Err(format!("the state {{{}}} is missing", show(w)));
        }
    }
    // start
    match states.get("0") {
        Some(s) if *s == wanted[0] => {}
        _ => return Err("state 0 is not the closure of the start rules".into()),
    }
    // transitions
    let mut got: BTreeMap<(String, Sym), String> = BTreeMap::new();
    for (a, b, l) in &d.edges {
        let l = dbg::label_lines(l).join(" ");
        let y = *names.get(l.trim()).ok_or_else(|| format!("unknown symbol {l:?} on a transition"))?;
        if got.insert((a.clone(), y), b.clone()).is_some() {
            return Err(format!("state {a} has two transitions on {}", gref::sym_text(&y)));
        }
    }
    let mut n = 0;
    for (i, row) in want.trans.iter().enumerate() {
        let from = by_items[&wanted[i]];
        for (y, to) in row {
            n += 1;
            cx.comparisons += 1;
            match got.get(&(from.clone(), *y)) {
                None => return Err(format!("state {from} has no transition on {}", gref::sym_text(y))),
                Some(t) if t == by_items[&wanted[*to]] => {}
                Some(t) => return Err(format!("the transition of state {from} on {} leads to {t}", gref::sym_text(y))),
            }
        }
    }
    if got.len() != n {
        return Err("there are transitions no item asks for".into());
    }
    Ok(())
}

fn check_c13(g: &G, style: u32, twice: bool, cx: &mut Cx) -> R {
    let rules = g.clean();
    cx.describe(format!("grammar {}, name style {style}", g.text()));
    label_grammar(cx, g, &rules);
    cx.label_if(style > 0 && style < 6, "names with special characters");
    cx.label_if(style > 6, "long names");
    let want = gref::lr0(&rules, g.start, false);
    cx.label_if(want.states.len() >= 10, "ten states or more");
    let merges = {
        let mut seen = BTreeSet::new();
        want.trans.iter().flat_map(|r| r.values()).any(|x| !seen.insert(*x))
    };
    cx.label_if(merges, "a state reached in two ways");
    cx.nontrivial = want.states.len() >= 4 && merges;
    STYLE.with(|x| x.set(style));
    let mut names: BTreeMap<String, Sym> = BTreeMap::new();
    for v in 0..g.nv {
        names.insert(format!("{:?}", V(v)), Sym::V(v));
    }
    for t in 0..g.nt {
        names.insert(format!("{:?}", T::new(t, PLACE(t))), Sym::T(t));
    }
    names.insert(format!("{:?}", Symbol::<V, T>::Epsilon), Sym::E);
    for e in ["ε", "ϵ"] {
        names.insert(e.into(), Sym::E);
    }
    let dot = guarded(|| {
        let machine = Cfsm::from_grammar(build(g));
        let dot = machine.to_dot();
        STYLE.with(|x| x.set(6));
        (dot, twice.then(|| machine.to_dot()))
    });
    STYLE.with(|x| x.set(0));
    let (dot, same) = dot.map_err(|p| format!("building or printing the machine panics: {p}"))?;
    check_c13_dot(&dot, g, &rules, &names, cx).map_err(|e| format!("grammar {}: {e}; dot output: {dot}", g.text()))?;
    let Some(same) = same else { return Ok(()) };
    cx.label("printed with the same names for variables and terminals");
    let want = simple_dot(&dot, &|w| match names.get(w)? {
        Sym::V(n) | Sym::T(n) => Some(format!("x{n}")),
        Sym::E => None,
    });
    cx.comparisons += 1;
    if want? != simple_dot(&same, &|_| None)? {
        return Err(format!("grammar {}: with variables and terminals of the same names, the dot output is {same} and not as {dot}", g.text()));
    }
    Ok(())
}

/// The states of a dot text as sorted lists of items, and its transitions
/// between these, each word replaced by the given function where it knows it.
type Simple = (Vec<Vec<String>>, Vec<(Vec<String>, String, Vec<String>)>);

fn simple_dot(text: &str, word: &dyn Fn(&str) -> Option<String>) -> Result<Simple, String> {
    let d = dbg::read_dot(text).map_err(|e| format!("not well-formed dot: {e}"))?;
    let line = |l: &str| {
        let w = l.split_whitespace().map(|w| word(w).unwrap_or_else(|| w.to_string()));
        w.collect::<Vec<_>>().join(" ")
    };
    let nodes: BTreeMap<&String, Vec<String>> = d
        .nodes
        .iter()
        .map(|(id, l)| {
            let mut items: Vec<String> = dbg::label_lines(l).iter().map(|l| line(l)).collect();
            items.sort();
            (id, items)
        })
        .collect();
    let mut edges = Vec::new();
    for (a, b, l) in &d.edges {
        let (Some(x), Some(y)) = (nodes.get(a), nodes.get(b)) else { return Err(format!("no node for the transition from {a} to {b}")) };
        edges.push((x.clone(), line(&dbg::label_lines(l).join(" ")), y.clone()));
    }
    edges.sort();
    let mut states: Vec<Vec<String>> = nodes.into_values().collect();
    states.sort();
    Ok((states, edges))
}

pub fn c13(s: &mut Source, cx: &mut Cx) -> R {
    let style = [0, 1, 2, 3, 4, 5, 7, 8][s.weighted(&[10, 2, 2, 2, 2, 2, 1, 1])];
    let mut g = gref::grammar(s);
    if s.chance(1, 4) {
        g = gref::pad(s, &g);
    }
    let twice = s.chance(1, 4);
    check_c13(&g, style, twice, cx)
}

pub fn c13_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let g = any_grammar(i / 2)?;
    let style = [1, 2, 3, 4, 5, 7, 8][i / 2 % 7];
    let style = if style > 6 && g.rules.iter().map(|r| r.1.len()).sum::<usize>() > 150 { 1 } else { style };
    Some(check_c13(&g, (i as u32 % 2) * style, true, cx))
}

// ------------------------------------------------------------------------ C14

/// Everything one can see of a grammar: acceptance and the result per word.
fn behaviour(g: &G, words: &[Vec<u8>]) -> Result<Vec<Option<String>>, String> {
    match construct(g)? {
        Built::NotSlr => Ok(vec![Some("not SLR".into())]),
        Built::Yes(p) => words.iter().map(|w| parse_word(&p, w)).collect(),
    }
}

fn first_difference(words: &[Vec<u8>], a: &[Option<String>], b: &[Option<String>]) -> Option<String> {
    if a == b {
        return None;
    }
    if a.len() != b.len() || a.len() != words.len() {
        let show = |x: &[Option<String>]| if x == [Some("not SLR".to_string())] { "not accepted" } else { "accepted" };
        return Some(format!("the one is {}, the other {}", show(a), show(b)));
    }
    let i = (0..a.len()).find(|i| a[*i] != b[*i]).unwrap();
    Some(format!("tokens {}: {:?} against {:?}", show_word(&words[i]), a[i], b[i]))
}

fn check_c14(g: &G, padded: &G, words: &[Vec<u8>], cx: &mut Cx) -> R {
    let rules = g.clean();
    cx.describe(format!("grammar {} against {}", g.text(), padded.text()));
    label_grammar(cx, g, &rules);
    cx.label_if(padded.rules.iter().any(|(_, b)| !b.is_empty() && strip_len(b) == 0), "body of epsilon symbols only");
    cx.label_if(padded.rules.iter().any(|(_, b)| b.last() == Some(&Sym::E) && strip_len(b) > 0), "trailing epsilon");
    cx.label_if(padded.rules.iter().any(|(_, b)| b.first() == Some(&Sym::E) && strip_len(b) > 0), "leading epsilon");
    let a = behaviour(g, words)?;
    let b = behaviour(padded, words)?;
    cx.comparisons += words.len() as u64;
    cx.label(if a == [Some("not SLR".to_string())] { "not SLR" } else { "accepted" });
    cx.nontrivial = a.iter().filter(|x| x.is_some()).count() >= 2 && padded != g;
    if let Some(d) = first_difference(words, &a, &b) {
        return Err(format!("{} and {} differ: {d}", g.text(), padded.text()));
    }
    // empty bodies and epsilon bodies derive exactly the empty sequence
    if a != [Some("not SLR".to_string())] {
        for (w, r) in words.iter().zip(&b) {
            let want = gref::derives(g.nv as usize, g.start, &rules, w);
            cx.comparisons += 1;
            if want != r.is_some() {
                return Err(format!("{}: tokens {} give {r:?}", padded.text(), show_word(w)));
            }
        }
    }
    Ok(())
}

fn strip_len(b: &[Sym]) -> usize {
    gref::strip(b).len()
}

pub fn c14(s: &mut Source, cx: &mut Cx) -> R {
    let g = if s.chance(1, 5) { gref::grammar(s) } else { gref::slr_grammar(s) };
    let p = gref::pad(s, &g);
    let w = words_for(s, &g, 6, 20);
    check_c14(&g, &p, &w, cx)
}

pub fn c14_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let g = any_grammar(i / 6)?;
    let mut p = g.clone();
    for (_, b) in &mut p.rules {
        match i % 6 {
            4 => *b = b.iter().flat_map(|x| [Sym::E, *x, Sym::E, Sym::E, Sym::E, Sym::E, Sym::E]).collect(),
            5 => {
                let k = b.len() / 2;
                b.splice(k..k, [Sym::E; 9]);
                b.extend([Sym::E; 16]);
                b.splice(0..0, [Sym::E; 20]);
            }
            0 => b.push(Sym::E),
            1 => b.insert(0, Sym::E),
            2 => *b = b.iter().flat_map(|x| [*x, Sym::E, Sym::E]).collect(),
            _ => {
                *b = b.iter().flat_map(|x| [Sym::E, *x]).collect();
                b.push(Sym::E);
            }
        }
    }
    let w = pinned_words(&g, 60, 20);
    Some(check_c14(&g, &p, &w, cx))
}

// ------------------------------------------------------------------------ C15

fn check_c15(g: &G, variants: &[G], seeds: &[u64], words: &[Vec<u8>], cx: &mut Cx) -> R {
    let rules = g.clean();
    cx.describe(format!("grammar {}, {} rule orders, {} hash seeds", g.text(), variants.len(), seeds.len()));
    label_grammar(cx, g, &rules);
    let base = behaviour(g, words)?;
    let accepted = base != [Some("not SLR".to_string())];
    cx.label(if accepted { "accepted" } else { "not SLR" });
    cx.nontrivial = rules.len() >= 3 && (!accepted || base.iter().filter(|x| x.is_some()).count() >= 2);
    let large = g.rules.iter().map(|r| r.1.len() + 1).sum::<usize>() > 250;
    let enough = if large { 2 } else { seeds.len() };
    for (i, seed) in seeds.iter().enumerate().take(enough) {
        // in a quarter of the runs the user's hash functions are constant, unless that takes too long
        let flat = i % 4 == 1 && !large;
        let b = with_hash_seed(*seed, || {
            FLAT.with(|x| x.set(flat));
            HASH_MODE.with(|x| x.set(flat as u32));
            let r = behaviour(g, words);
            FLAT.with(|x| x.set(false));
            HASH_MODE.with(|x| x.set(0));
            r
        })
        .map_err(|p| format!("panic: {p}"))??;
        cx.comparisons += words.len() as u64;
        if let Some(d) = first_difference(words, &base, &b) {
            return Err(format!("grammar {} depends on the hash seed: {d}", g.text()));
        }
    }
    for (v, seed) in variants.iter().zip(seeds.iter().cycle()) {
        let b = with_hash_seed(*seed, || behaviour(v, words)).map_err(|p| format!("panic: {p}"))??;
        cx.comparisons += words.len() as u64;
        if let Some(d) = first_difference(words, &base, &b) {
            return Err(format!("{} and {} differ: {d}", g.text(), v.text()));
        }
    }
    if accepted {
        // one parser, moved around, used for all words twice, in another order
        let Built::Yes(p) = construct(g)? else { return Err("second construction differs".into()) };
        let mut holder = vec![p];
        holder.reserve(32);
        let p = Box::new(holder.pop().unwrap());
        for round in 0..2 {
            for k in 0..words.len() {
                let i = if round == 0 { words.len() - 1 - k } else { (k * 7 + 3) % words.len() };
                let r = parse_word(&p, &words[i])?;
                cx.comparisons += 1;
                if r != base[i] {
                    return Err(format!(
                        "grammar {}: tokens {} give {r:?} on a used parser and {:?} on a fresh one",
                        g.text(),
                        show_word(&words[i]),
                        base[i]
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn c15(s: &mut Source, cx: &mut Cx) -> R {
    if s.chance(1, 3) {
        let (pt, text) = p_lex::gen_lexer_case(s);
        cx.describe(format!("lexer {pt:?} on {text:?} under several hash seeds"));
        cx.label("lexer");
        let base = p_lex::outcome(&pt, &text);
        cx.nontrivial = pt.len() >= 2 && base.contains("#1");
        for _ in 0..4 {
            let seed = s.word() as u64;
            let b = with_hash_seed(seed, || p_lex::outcome(&pt, &text)).map_err(|p| format!("panic: {p}"))?;
            cx.comparisons += 1;
            if b != base {
                return Err(format!("lexer {pt:?} on {text:?} depends on the hash seed: {base} against {b}"));
            }
        }
        if s.chance(1, 20) {
            if let Some(b) = p_lex::outcome_alone(&pt, &text) {
                cx.label("lexer, also in a process of its own");
                cx.comparisons += 1;
                if b != base {
                    return Err(format!(
                        "lexer {pt:?} on {text:?} depends on the lexers built before: {base}, but {b} in a process of its own"
                    ));
                }
            }
        }
        return Ok(());
    }
    let g = if s.chance(1, 4) { gref::grammar(s) } else { gref::slr_grammar(s) };
    let mut variants = Vec::new();
    for _ in 0..2 {
        let mut v = g.clone();
        s.shuffle(&mut v.rules);
        for _ in 0..s.below(3) {
            let r = v.rules[s.index(v.rules.len())].clone();
            v.rules.push(r);
        }
        variants.push(v);
    }
    let seeds: Vec<u64> = (0..4).map(|_| s.word() as u64).collect();
    let w = words_for(s, &g, 5, 12);
    check_c15(&g, &variants, &seeds, &w, cx)
}

pub fn c15_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let g = any_grammar(i)?;
    let mut v = g.clone();
    v.rules.reverse();
    let mut v2 = g.clone();
    v2.rules.extend(g.rules.clone());
    let w = pinned_words(&g, 60, 10);
    Some(check_c15(&g, &[v, v2], &[1, 2, 3, 4, 5, 6, 7, 8], &w, cx))
}

// ------------------------------------------------------------------------ C16

#[derive(Clone, Debug)]
enum Op {
    SetStart(bool, u8),
    Rule(bool, u8, Vec<Sym>),
    Rules(bool, u8, Vec<Vec<Sym>>),
}

fn norm(b: &[Sym]) -> Vec<Sym> {
    if b.is_empty() {
        vec![Sym::E]
    } else {
        b.to_vec()
    }
}

fn check_c16(ops: &[Op], cx: &mut Cx) -> R {
    cx.describe(format!("builder calls {ops:?}"));
    let mut rules: BTreeSet<Rule> = BTreeSet::new();
    let mut start = None;
    let mut b = Grammar::<V, T>::builder();
    let place: &dyn Fn(u8) -> u32 = &PLACE;
    for op in ops {
        match op {
            Op::SetStart(by_ref, v) => {
                start = Some(*v);
                if *by_ref {
                    b.set_start_variable(V(*v));
                } else {
                    b = b.with_start_variable(V(*v));
                }
            }
            Op::Rule(by_ref, v, r) => {
                let new = rules.insert((*v, norm(r)));
                if *by_ref {
                    let got = b.add_rule(V(*v), body(r, place));
                    cx.comparisons += 1;
                    if got != new {
                        return Err(format!("{ops:?}: add_rule of {op:?} reports {got}, the rule is new: {new}"));
                    }
                } else {
                    b = b.with_rule(V(*v), body(r, place));
                }
            }
            Op::Rules(by_ref, v, rs) => {
                let bodies: Vec<Body> = rs.iter().map(|r| body(r, place)).collect();
                for r in rs {
                    rules.insert((*v, norm(r)));
                }
                if *by_ref {
                    b.add_rules(V(*v), bodies);
                } else {
                    b = b.with_rules(V(*v), bodies);
                }
            }
        }
    }
    let heads: BTreeSet<u8> = rules.iter().map(|r| r.0).collect();
    let missing = rules
        .iter()
        .flat_map(|r| r.1.iter())
        .filter_map(|y| if let Sym::V(v) = y { Some(*v) } else { None })
        .chain(start)
        .any(|v| !heads.contains(&v));
    cx.comparisons += 1;
    cx.label(match (start.is_some(), missing) {
        (true, false) => "complete",
        (false, false) => "no start variable",
        (true, true) => "variable without rule",
        (false, true) => "no start variable, and a variable without rule",
    });
    cx.nontrivial = ops.len() >= 3 && rules.len() >= 2;
    let g = match guarded(|| b.build()) {
        Ok(g) => {
            if start.is_none() || missing {
                return Err(format!("{ops:?} builds an incomplete grammar"));
            }
            g
        }
        Err(m) => {
            if start.is_some() && !missing {
                return Err(format!("{ops:?} is complete, but building panics: {m}"));
            }
            // the message names what is missing: it may stop at the first
            let low = m.to_lowercase();
            let says_start = low.contains("start variable") && !low.contains("rule");
            let says_rule = low.contains("rule");
            if !((start.is_none() && says_start) || (missing && says_rule)) {
                return Err(format!("{ops:?}: the message does not name the missing piece: {m}"));
            }
            return Ok(());
        }
    };
    // the rules of the grammar, observed through the machine started at each
    // variable: the first state holds the rules with the cursor in front
    let start = start.unwrap();
    let nv = 1 + heads.iter().max().copied().unwrap();
    let nt = 1 + rules.iter().flat_map(|r| r.1.iter()).filter_map(|y| if let Sym::T(t) = y { Some(*t) } else { None }).max().unwrap_or(0);
    let model = G { nv, nt, start, rules: rules.iter().cloned().collect() };
    let mut dup = BTreeSet::new();
    if model.rules.iter().any(|(h, b)| !dup.insert((*h, gref::strip(b)))) {
        // rules that differ only by epsilons are not told apart by the machine reader
        cx.label("rules equal up to epsilon");
        return Ok(());
    }
    let mut names: BTreeMap<String, Sym> = BTreeMap::new();
    for v in 0..nv {
        names.insert(format!("{:?}", V(v)), Sym::V(v));
    }
    for t in 0..nt {
        names.insert(format!("{:?}", T::new(t, PLACE(t))), Sym::T(t));
    }
    names.insert(format!("{:?}", Symbol::<V, T>::Epsilon), Sym::E);
    let dot = guarded(|| Cfsm::from_grammar(g).to_dot()).map_err(|p| format!("{ops:?}: building the machine panics: {p}"))?;
    check_c13_dot(&dot, &model, &model.clean(), &names, cx)
        .map_err(|e| format!("{ops:?}: the machine is not that of the rules added: {e}"))
}

pub fn c16(s: &mut Source, cx: &mut Cx) -> R {
    let large = s.chance(1, 12);
    let nv = if large { s.range(4, 12) } else { s.range(1, 4) };
    let nt = if large { s.range(2, 12) } else { s.range(1, 3) };
    let n = if large { s.range(8, 40) } else { s.range(1, 9) };
    let mut ops = Vec::new();
    let mut pool: Vec<(u8, Vec<Sym>)> = Vec::new();
    let one = |s: &mut Source, pool: &mut Vec<(u8, Vec<Sym>)>| -> (u8, Vec<Sym>) {
        if !pool.is_empty() && s.chance(1, 4) {
            return s.pick(pool).clone();
        }
        let h = s.below(nv) as u8;
        let len = if s.chance(1, 30) { s.range(4, 10) as usize } else { s.weighted(&[2, 5, 4, 2]) };
        let b: Vec<Sym> = (0..len)
            .map(|_| match s.weighted(&[6, 5, 2]) {
                0 => Sym::T(s.below(nt) as u8),
                1 => Sym::V(s.below(nv) as u8),
                _ => Sym::E,
            })
            .collect();
        pool.push((h, b.clone()));
        (h, b)
    };
    for _ in 0..n {
        let by_ref = s.chance(1, 2);
        match s.weighted(&[6, 3, 2]) {
            0 => {
                let (h, b) = one(s, &mut pool);
                ops.push(Op::Rule(by_ref, h, b));
            }
            1 => {
                let k = if s.chance(1, 60) { s.range(20, 80) } else { s.below(4) };
                let (h, first) = one(s, &mut pool);
                let mut rs = vec![first];
                for _ in 0..k {
                    rs.push(one(s, &mut pool).1);
                }
                if s.chance(1, 12) {
                    rs.clear();
                }
                ops.push(Op::Rules(by_ref, h, rs));
            }
            _ => ops.push(Op::SetStart(by_ref, s.below(nv) as u8)),
        }
    }
    // usually complete it
    if s.chance(2, 3) {
        let heads: BTreeSet<u8> = ops
            .iter()
            .filter_map(|o| match o {
                Op::Rule(_, h, _) => Some(*h),
                Op::Rules(_, h, r) if !r.is_empty() => Some(*h),
                _ => None,
            })
            .collect();
        for v in 0..nv as u8 {
            if !heads.contains(&v) {
                let at = s.index(ops.len() + 1);
                ops.insert(at, Op::Rule(s.chance(1, 2), v, vec![Sym::T(0)]));
            }
        }
        if !ops.iter().any(|o| matches!(o, Op::SetStart(..))) {
            let at = s.index(ops.len() + 1);
            let o = Op::SetStart(s.chance(1, 2), s.below(nv) as u8);
            ops.insert(at, o);
        }
        // now and then drop one call again
        if s.chance(1, 5) {
            let at = s.index(ops.len());
            ops.remove(at);
        }
    }
    check_c16(&ops, cx)
}

pub fn c16_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let t = |x| Sym::T(x);
    let v = |x| Sym::V(x);
    let cases: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::SetStart(true, 0)],
        vec![Op::SetStart(false, 0)],
        vec![Op::Rule(true, 0, vec![t(0)])],
        vec![Op::SetStart(true, 0), Op::Rules(true, 0, vec![])],
        vec![Op::SetStart(true, 1), Op::Rule(true, 0, vec![t(0)])],
        vec![Op::SetStart(true, 1), Op::SetStart(false, 0), Op::Rule(true, 0, vec![t(0)])],
        vec![Op::SetStart(true, 0), Op::SetStart(false, 1), Op::Rule(true, 0, vec![t(0)])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![v(1)])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![t(0)]), Op::Rule(true, 1, vec![v(2)])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![v(1)]), Op::Rule(false, 1, vec![t(0)])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![t(0), v(1)])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![t(0), v(0), v(1), t(0)])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![t(0)]), Op::Rule(true, 0, vec![t(0)])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![]), Op::Rule(true, 0, vec![Sym::E])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![Sym::E]), Op::Rule(true, 0, vec![])],
        vec![Op::SetStart(true, 0), Op::Rules(true, 0, vec![vec![t(0)], vec![t(1)]]), Op::Rule(true, 0, vec![t(1)]), Op::Rule(true, 0, vec![t(1), t(0)])],
        vec![Op::Rules(false, 0, vec![vec![t(0)], vec![v(1), t(1)]]), Op::Rules(false, 1, vec![vec![]]), Op::SetStart(false, 1)],
        vec![Op::Rules(false, 0, vec![vec![t(0)]]), Op::Rules(true, 0, vec![vec![t(1)]]), Op::SetStart(false, 0), Op::Rules(true, 0, vec![vec![t(0), t(0)], vec![]])],
        vec![Op::SetStart(true, 0), Op::Rule(true, 0, vec![v(0)])],
    ];
    if let Some(c) = cases.get(i) {
        return Some(check_c16(c, cx));
    }
    // many rules in one call or one by one, and a long rule
    let pairs = |k: u8| -> Vec<Vec<Sym>> { (0..k).flat_map(|a| (0..k).map(move |b| vec![Sym::T(a), Sym::T(b)])).collect() };
    let mut ops = match i - cases.len() {
        0 => vec![Op::Rules(true, 0, pairs(18))],
        1 => vec![Op::Rules(false, 0, pairs(18))],
        2 => pairs(18).into_iter().map(|r| Op::Rule(true, 0, r)).collect(),
        3 => pairs(18).into_iter().map(|r| Op::Rule(false, 0, r)).collect(),
        4 => pairs(9).into_iter().chain(pairs(9)).map(|r| Op::Rule(true, 0, r)).collect(),
        5 => (0..250).map(|k| Op::Rules(true, k, vec![vec![v((k + 1) % 250), t(0)], vec![t(1)]])).collect(),
        // the last one has no rule
        6 => (0..250).map(|k| Op::Rules(true, k, vec![vec![v(k + 1), t(0)], vec![t(1)]])).collect(),
        7 => vec![Op::Rule(true, 0, (0..300).map(|k| if k % 7 == 3 { v(0) } else { t(k as u8 % 3) }).collect())],
        8 => vec![Op::Rule(true, 0, (0..300).map(|k| if k == 299 { v(1) } else { t(k as u8 % 3) }).collect())],
        9 => (0..40).map(|k| Op::Rules(k % 2 == 0, k % 5, pairs(4).into_iter().skip(k as usize % 9).collect())).collect(),
        _ => return None,
    };
    ops.push(Op::SetStart(true, 0));
    Some(check_c16(&ops, cx))
}

// ------------------------------------------------------------------------ C17

fn check_c17(g: &G, texts: &[String], cx: &mut Cx) -> R {
    let rules = g.clean();
    cx.describe(format!("grammar {} on {} streams", g.text(), texts.len()));
    label_grammar(cx, g, &rules);
    // whether and how it is constructed is another property
    let p = match construct(g) {
        Ok(Built::Yes(p)) => p,
        _ => {
            cx.label("not accepted by the constructor");
            return Ok(());
        }
    };
    let (mut ok, mut err) = (0, 0);
    for t in texts {
        let n = t.chars().count() as u64 + 10;
        // generous: a parse makes a bounded number of steps per token
        work::limit_probes(n * n * 40 + 200_000);
        work::limit_allocs(n * n * 40 + 2_000_000);
        work::limit_steps((n * n * 40 + 2_000_000) * 500);
        let before = work::steps();
        let r = parse_text(&p, t).map_err(|e| format!("grammar {}: {e}", g.text()));
        work::default_probes();
        work::default_allocs();
        work::default_steps();
        if std::env::var_os("PV_RATIO").is_some() {
            eprintln!("ratio {} {n}", (n * n * 40 + 2_000_000) * 500 / (work::steps() - before));
        }
        cx.comparisons += 1;
        match r? {
            Some(_) => ok += 1,
            None => err += 1,
        }
    }
    cx.label_if(ok > 0, "some stream parsed");
    cx.label_if(err > 0, "some stream rejected");
    cx.nontrivial = err > 0 && texts.iter().any(|t| t.len() >= 4);
    Ok(())
}

pub fn c17(s: &mut Source, cx: &mut Cx) -> R {
    let mut g = if s.chance(1, 3) { gref::grammar(s) } else { gref::slr_grammar(s) };
    let dead = s.chance(1, 4);
    if dead {
        cx.label_if(gref::add_dead_end(s, &mut g), "dead end added");
    }
    let rules = g.clean();
    let mut texts: Vec<String> = Vec::new();
    if dead || s.chance(1, 8) {
        for _ in 0..6 {
            let w = gref::expansion(s, &g, &rules, 24);
            texts.push(word_text(&w, &numbered(&w)));
        }
    }
    let far = s.chance(1, 30);
    for w in gref::words(s, &g, &rules, 5, if far { 200 } else { 30 }) {
        texts.push(word_text(&w, &numbered(&w)));
    }
    let plain = |w: &[u8]| word_text(w, &numbered(w));
    for _ in 0..3 {
        let n = s.below(30);
        let w: Vec<u8> = (0..n).map(|_| s.below(g.nt as u32 + 2).min(25) as u8).collect();
        texts.push(plain(&w));
    }
    if s.chance(1, 6) {
        // far longer than any sentence seen
        let unit: Vec<u8> = gref::sentence(s, &g, &rules, 12).unwrap_or_else(|| vec![0]);
        let mut w = Vec::new();
        while w.len() < 300 && !unit.is_empty() {
            w.extend(&unit);
        }
        texts.push(plain(&w));
        texts.push(plain(&vec![s.below(g.nt as u32) as u8; 300]));
        cx.label("long streams");
    }
    // streams the lexer cannot read to the end
    let k = s.index(texts.len());
    let mut t: Vec<char> = texts[k].chars().collect();
    let at = s.index(t.len() + 1);
    t.insert(at, '?');
    texts.push(t.into_iter().collect());
    for kind in 0..(g.nt + 1).min(25) {
        texts.push(plain(&[kind]));
        texts.push(plain(&[kind, kind]));
    }
    check_c17(&g, &texts, cx)
}

pub fn c17_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    const MORE: &[&str] = &[
        "S: a A; A: A c", "S: A; A: A a | b A", "S: S a", "S: a S", "S: A | b; A: a A", "S: A b; A: ; B: B", "S: b | a B C; B: B a; C: c C",
        "S: A; A: A", "S: a | b B; B: B c | C; C: a C", "S: a S b; B: a",
        "S: a A | b B c; A: B A; B: ", "S: A a; A: B A b; B: ", "S: a | b A; A: B A; B: C; C: ", "S: a A b | c; A: A B; B: ",
        "S: a A | b; A: B C A; B: ; C: ", "S: a A; A: B; B: C A; C: ", "S: a | A; A: A B | B A a; B: ", "S: A b; A: C A; C: D; D: ",
        "S: a T; T: U T c; U: ", "S: a | b T; T: U T c | d T; U: ", "S: a S | T; T: U; U: V U b; V: ", "S: a; A: A; B: C; C: B", "S: a A; A: B; B: A b",
        "S: a A b; A: A A", "S: a; B: B a B; C: B C",
        "S: a | A B; A: c c c c c; B: B d", "S: a | b A B b; A: c d c d; B: B", "S: A B; A: a b a b a; B: c B",
    ];
    let g = match MORE.get(i) {
        Some(t) => G::read(t),
        None => match pinned_grammar(i - MORE.len()) {
            Some(g) => g,
            None => return check_long(i - MORE.len() - PINNED, false, cx),
        },
    };
    let mut texts: Vec<String> =
        gref::short_words(g.nt + 1, 400).iter().map(|w| word_text(w, &numbered(w))).collect();
    for k in 0..=g.nt {
        texts.push(word_text(&vec![k; 500], &vec![0; 500]));
    }
    texts.extend(["?".into(), "a?".into(), "a?b".into(), "b ".into()]);
    texts.extend(pinned_words(&g, 0, 60).iter().map(|w| word_text(w, &numbered(w))));
    let s = &mut Source::random(11, 100);
    for _ in 0..40 {
        let w = gref::expansion(s, &g, &g.clean(), 24);
        texts.push(word_text(&w, &numbered(&w)));
    }
    Some(check_c17(&g, &texts, cx))
}

// ------------------------------------------------------------------------ C18

macro_rules! kind_maps {
    ($($i:literal)*) => {
        const KIND_MAPS: &[fn(&str) -> T] =
            &[$({ fn f(s: &str) -> T { T::new($i, value_of(s)) } f }),*];
    };
}
kind_maps!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25);

fn value_of(s: &str) -> u32 {
    crate::engine::fnv(s.as_bytes()) as u32 & 0xffff
}

fn check_c18(g: &G, pats: &[re::Re], text: &[char], cx: &mut Cx) -> R {
    let rules = g.clean();
    let set: BTreeSet<Rule> = rules.iter().cloned().collect();
    let st: String = text.iter().collect();
    let pt: Vec<String> = pats.iter().map(re::text).collect();
    cx.describe(format!("tokens {pt:?}, grammar {}, text {st:?}", g.text()));
    label_grammar(cx, g, &rules);
    let Built::Yes(p) = construct(g)? else {
        cx.label("not accepted by the constructor");
        return Ok(());
    };
    let (toks, stop) = re::ref_lex(pats, text);
    let kinds: Vec<u8> = toks.iter().map(|t| t.0 as u8).collect();
    let whole = stop == text.len();
    let sentence = gref::derives(g.nv as usize, g.start, &rules, &kinds);
    cx.label(match (whole, sentence) {
        (true, true) => "tokenises into a sentence",
        (true, false) => "tokenises, no sentence",
        (false, true) => "cannot be tokenised after a sentence",
        (false, false) => "cannot be tokenised",
    });
    cx.label_if(toks.len() >= 30, "thirty tokens or more");
    cx.nontrivial = toks.len() >= 2;
    let mut b = Lexer::builder();
    for (i, p) in pt.iter().enumerate() {
        b = b.with_token_map(p, KIND_MAPS[i]).map_err(|e| format!("pattern {p:?} was rejected: {e}"))?;
    }
    let lexer = b.tokenize(&st);
    let got = guarded(|| p.parse(lexer).ok().map(|c| format!("{c:?}"))).map_err(|m| format!("parsing {st:?} panics: {m}"))?;
    cx.comparisons += 1;
    if got.is_some() != (whole && sentence) {
        return Err(format!(
            "{}: the text is {}; it tokenises into {:?}{}, which is {}a sentence",
            cx.desc,
            if got.is_some() { "parsed" } else { "rejected" },
            kinds.iter().map(|k| gref::letter(*k)).collect::<String>(),
            if whole { String::new() } else { format!(" up to {stop} of {}", text.len()) },
            if sentence { "" } else { "not " }
        ));
    }
    if let Some(t) = got {
        let want: Vec<(u8, u32)> =
            toks.iter().map(|(k, a, b)| (*k as u8, value_of(&text[*a..*b].iter().collect::<String>()))).collect();
        check_tree(g, &set, &read_tree(&t)?, &want).map_err(|e| format!("{}: {e}", cx.desc))?;
    }
    Ok(())
}

pub fn c18(s: &mut Source, cx: &mut Cx) -> R {
    let mut g = gref::slr_grammar(s);
    if g.nt > 8 && s.chance(3, 4) {
        g = G::read("S: a S b | c");
    }
    let alpha: &[char] = match s.weighted(&[5, 2, 1]) {
        0 => &['a', 'b', '+', '1'],
        1 => &['a', 'é', '+', '🌕'],
        _ => &['a', ' ', '\n', '\t'],
    };
    // one pattern per terminal, plus up to one the grammar does not know
    let n = (g.nt as usize + s.index(2)).min(KIND_MAPS.len());
    let pats: Vec<re::Re> = (0..n)
        .map(|i| match s.weighted(&[5, 3, 2]) {
            0 => {
                // its own letter, possibly with a tail
                let c = re::Re::Set(re::Set::Ch(if i < 16 { b'k' + i as u8 } else { b'A' + i as u8 } as char));
                match s.below(4) {
                    0 => re::Re::Cat(vec![c, gen::word(s, alpha, 2)]),
                    1 => re::Re::Rep(Box::new(c), re::Quant { min: 1, max: None }),
                    _ => c,
                }
            }
            1 => gen::word(s, alpha, 3),
            _ => gen::pattern(s, alpha, 1, 40),
        })
        .map(gen::flatten)
        .collect();
    let rules = g.clean();
    let mut text = Vec::new();
    let far = s.chance(1, 12);
    let words = gref::words(s, &g, &rules, 2, if far { 120 } else { 12 });
    let w = s.pick(&words).clone();
    for k in w {
        if (k as usize) < pats.len() {
            gen::sample(&pats[k as usize], s, alpha, &mut text, if far { 260 } else { 60 });
        }
    }
    match s.weighted(&[5, 3, 2, 1]) {
        0 => {}
        1 => {
            let at = *s.pick(&[0, text.len(), text.len() / 2]);
            text.insert(at, *s.pick(&['?', ' ', 'é', '\n']));
        }
        2 => gen::mutate(&mut text, s, alpha),
        _ => {
            text.push('?');
            let i = s.index(pats.len());
            gen::sample(&pats[i], s, alpha, &mut text, if far { 260 } else { 60 });
        }
    }
    text.truncate(if far { 250 } else { 50 });
    check_c18(&g, &pats, &text, cx)
}

pub fn c18_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    // digits, plus, times
    let g = G::read("S: S b a | S c a | a");
    let pats: Vec<re::Re> = [r"\d+", r"\+", r"\*"].iter().map(|p| re::parse(p).unwrap()).collect();
    let texts = [
        "3+4", "3+4x", "x3+4", "3x+4", "3+4 ", " 3+4", "3 +4", "3+", "", "x", " ", "3+4*", "3+4*5é", "é", "33+44*5", "3++4", "+", "3\n", "3+4\u{0}",
    ];
    if let Some(t) = texts.get(i) {
        let t: Vec<char> = t.chars().collect();
        return Some(check_c18(&g, &pats, &t, cx));
    }
    // overlapping tokens
    let g = G::read("S: S I | I; I: a | b | c | d");
    let pats: Vec<re::Re> = ["a", "abcx", "b", "c"].iter().map(|p| re::parse(p).unwrap()).collect();
    let more = ["abc", "abcabcx", "abca", "abcab", "abcd", "ab", "xab", "abx", "abcxx", "abcabcabc", "aabcxabc"];
    let Some(t) = more.get(i - texts.len()) else { return c18_long(i - texts.len() - more.len(), cx) };
    let t: Vec<char> = t.chars().collect();
    Some(check_c18(&g, &pats, &t, cx))
}

/// Long texts of sums and products, with something no token matches at the end,
/// at the start or in between, or one token too many.
fn c18_long(i: usize, cx: &mut Cx) -> Option<R> {
    let sum = |n: usize| "3+44*".repeat(n) + "5";
    let tail = |n: usize, t: &str| sum(n) + t;
    let (text, want) = match i {
        0 => (sum(LONG / 4), true),
        1 => (tail(LONG / 4, "x"), false),
        2 => (tail(LONG / 4, "x+") + &sum(LONG / 4), false),
        3 => (tail(LONG / 4, "+") + &sum(LONG / 4), true),
        4 => (tail(LONG / 4, "+"), false),
        5 => ("x".to_string() + &sum(LONG / 4), false),
        6 => (tail(0, &"x".repeat(LONG)), false),
        7 => ("7".repeat(LONG), true),
        8 => ("7".repeat(LONG) + "x", false),
        9 => (tail(300, "x"), false),
        10 => (tail(300, ""), true),
        11 => (tail(300, "x+") + &sum(300), false),
        12 => (tail(300, "+") + &sum(300), true),
        _ => return None,
    };
    cx.describe(format!("tokens \\d+, \\+ and \\*, text of {} characters, case {i}", text.len()));
    cx.label(if want { "tokenises into a sentence" } else { "long text that is not parsed" });
    cx.label("thirty tokens or more");
    cx.nontrivial = true;
    cx.comparisons += 1;
    let g = G::read("S: S b a | S c a | a");
    let mut run = || {
        let Built::Yes(p) = construct(&g)? else { return Err(format!("grammar {} is rejected", g.text())) };
        let mut b = Lexer::builder();
        for (i, p) in [r"\d+", r"\+", r"\*"].iter().enumerate() {
            b = b.with_token_map(p, KIND_MAPS[i]).map_err(|e| format!("pattern {p:?} was rejected: {e}"))?;
        }
        let lexer = b.tokenize(&text);
        let got = guarded(|| p.parse(lexer).is_ok()).map_err(|m| format!("parsing panics: {m}"))?;
        match got == want {
            true => Ok(()),
            false => Err(format!("{}: the text is {}", cx.desc, if got { "parsed" } else { "rejected" })),
        }
    };
    Some(run())
}

// ------------------------------------------------------------------------ C19

/// What safe code can do with a machine or parser depends on the traits it has.
/// The inherent method is taken when the type has the trait, the one of
/// [`Otherwise`] when it does not.
struct Able<X>(X);
trait Otherwise<X> {
    fn copy(&self) -> Option<X> {
        None
    }
}
impl<X> Otherwise<X> for Able<&X> {}
impl<X: Clone> Able<&X> {
    #[allow(dead_code)]
    fn copy(&self) -> Option<X> {
        Some(self.0.clone())
    }
}
trait OtherwiseStay<X> {
    fn unpinned(self) -> Option<Box<X>>;
}
impl<X> OtherwiseStay<X> for Able<Pin<Box<X>>> {
    fn unpinned(self) -> Option<Box<X>> {
        None
    }
}
impl<X: Unpin> Able<Pin<Box<X>>> {
    #[allow(dead_code)]
    fn unpinned(self) -> Option<Box<X>> {
        Some(Pin::into_inner(self.0))
    }
}

/// The grammar with some of its rules added more than once. A set of rules that
/// is full then makes room for a rule it does not need.
fn build_again(s: &mut Source, g: &G) -> Grammar<V, T> {
    let place: &dyn Fn(u8) -> u32 = &PLACE;
    let mut b = Grammar::builder().with_start_variable(V(g.start));
    for (v, r) in &g.rules {
        b.add_rule(V(*v), body(r, place));
        if s.chance(1, 3) {
            b.add_rule(V(*v), body(r, place));
        }
    }
    for (v, r) in &g.rules {
        b.add_rule(V(*v), body(r, place));
    }
    b.build()
}

/// Random histories over grammars, machines, parsers and trees. The oracle is
/// the memory checker the binary is built with, plus agreement of results.
pub fn c19(s: &mut Source, cx: &mut Cx) -> R {
    let _call = work::Call::enter();
    let n = s.range(3, 14);
    let mut grammars: Vec<(G, Grammar<V, T>)> = Vec::new();
    let mut machines = Vec::new();
    let mut parsers: Vec<(G, Box<Slr<V, T>>)> = Vec::new();
    let mut loose: Vec<(G, Slr<V, T>)> = Vec::new();
    let mut trees: Vec<String> = Vec::new();
    let mut csts = Vec::new();
    let mut log = Vec::new();
    let g0 = gref::slr_grammar(s);
    let b = if s.chance(1, 2) { build_again(s, &g0) } else { build(&g0) };
    grammars.push((g0.clone(), b));
    let mut used = 0;
    for _ in 0..n {
        match s.weighted(&[2, 3, 4, 5, 2, 3, 2, 2, 2, 2, 1]) {
            0 => {
                let g = if s.chance(1, 3) { gref::grammar(s) } else { gref::slr_grammar(s) };
                let b = if s.chance(1, 2) { build_again(s, &g) } else { build(&g) };
                log.push("grammar");
                grammars.push((g, b));
            }
            1 => {
                if let Some((g, b)) = grammars.last().cloned() {
                    log.push("machine");
                    machines.push((g, Cfsm::from_grammar(b)));
                }
            }
            2 => {
                let k = s.index(grammars.len());
                let (g, b) = if s.chance(1, 2) && grammars.len() > 1 { grammars.swap_remove(k) } else { grammars[k].clone() };
                log.push("parser");
                match guarded(|| Slr::new(b)) {
                    Ok(p) if s.chance(1, 2) => loose.push((g, p)),
                    Ok(p) => parsers.push((g, Box::new(p))),
                    Err(_) => log.push("(not SLR)"),
                }
            }
            3 => {
                let all = parsers.len() + loose.len();
                if all > 0 {
                    let k = s.index(all);
                    let (g, p): (&G, &Slr<V, T>) =
                        if k < parsers.len() { (&parsers[k].0, &parsers[k].1) } else { (&loose[k - parsers.len()].0, &loose[k - parsers.len()].1) };
                    let rules = g.clean();
                    for w in gref::words(s, g, &rules, 2, 10) {
                        let text = word_text(&w, &numbered(&w));
                        let lexer = Lexer::builder().with_token_map(r"[a-zA-Zα-ω]\d*", tok).unwrap().tokenize(&text);
                        used += 1;
                        if let Ok(Ok(c)) = guarded(|| p.parse(lexer)) {
                            trees.push(format!("{c:?}"));
                            csts.push(c);
                        }
                    }
                    log.push("parse");
                }
            }
            4 => {
                for (_, m) in &machines {
                    used += m.to_dot().len().min(1);
                    used += format!("{m:?}").len().min(1);
                    used += format!("{:?}", m.as_ref().get_grammar()).len().min(1);
                }
                log.push("print machines");
            }
            5 => {
                for (_, p) in &loose {
                    used += format!("{p:?}").len().min(1);
                }
                for (_, p) in &parsers {
                    used += format!("{p:#?}").len().min(1);
                }
                log.push("print parsers");
            }
            6 => {
                // move everything around
                loose.reserve(64);
                loose.reverse();
                if let Some((g, p)) = loose.pop() {
                    parsers.insert(0, (g, Box::new(p)));
                }
                if parsers.len() > 1 {
                    let k = s.index(parsers.len());
                    let (g, p) = parsers.swap_remove(k);
                    loose.insert(0, (g, *p));
                }
                machines.shrink_to_fit();
                machines.reverse();
                if !machines.is_empty() && s.chance(1, 4) {
                    // out of its place, if that is allowed
                    let k = s.index(machines.len());
                    let (_, m) = machines.swap_remove(k);
                    if let Some(m) = Able(m).unpinned() {
                        let moved = vec![*m];
                        used += moved[0].to_dot().len().min(1);
                        log.push("move a machine out");
                    }
                }
                log.push("move");
            }
            7 if !machines.is_empty() => {
                let k = s.index(machines.len());
                let (g, m) = machines.swap_remove(k);
                let copy = m.as_ref().get_grammar().clone();
                drop(m);
                grammars.push((g, copy));
                log.push("drop machine, keep its grammar");
            }
            8 => {
                if !parsers.is_empty() {
                    let k = s.index(parsers.len());
                    parsers.remove(k);
                }
                if loose.len() > 1 {
                    let k = s.index(loose.len());
                    loose.swap_remove(k);
                }
                log.push("drop parsers");
            }
            9 => {
                grammars.truncate(1);
                log.push("drop grammars");
                // replace originals by copies, if there can be any
                for (_, m) in &mut machines {
                    if let Some(copy) = Able(&*m).copy() {
                        *m = copy;
                        log.push("copy a machine");
                    }
                }
                for (_, p) in &mut loose {
                    if let Some(copy) = Able(&*p).copy() {
                        *p = copy;
                        log.push("copy a parser");
                    }
                }
            }
            _ => {
                if loose.len() > 1 {
                    let (a, b) = loose.split_at_mut(1);
                    std::mem::swap(&mut a[0], &mut b[0]);
                }
                log.push("swap");
            }
        }
    }
    // trees outlive their parsers
    if s.chance(1, 2) {
        parsers.clear();
        loose.clear();
        machines.clear();
    }
    for (c, t) in csts.iter().zip(&trees) {
        cx.comparisons += 1;
        if format!("{c:?}") != *t {
            return Err("a tree changed after it was returned".into());
        }
    }
    for (_, m) in &machines {
        used += m.to_dot().len().min(1);
    }
    cx.describe(format!("grammar {}, then {}", g0.text(), log.join(", ")));
    cx.label_if(!trees.is_empty(), "trees returned");
    cx.label_if(!machines.is_empty() || log.contains(&"print machines"), "machines printed or kept");
    cx.label_if(log.contains(&"move") || log.contains(&"swap"), "values moved");
    cx.nontrivial = used >= 2;
    Ok(())
}

pub fn c19_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let g = any_grammar(i / 2)?;
    let _call = work::Call::enter();
    cx.describe(format!("grammar {}: build, print, move, parse, drop", g.text()));
    cx.nontrivial = true;
    let b = if i % 2 == 0 { build(&g) } else { build_again(&mut Source::random(i as u64, 100), &g) };
    let m = Cfsm::from_grammar(b.clone());
    let mut out = m.to_dot().len() + format!("{m:?}").len();
    let held = vec![m];
    let mut moved = Vec::with_capacity(8);
    moved.extend(held);
    out += moved[0].to_dot().len();
    if let Ok(p) = guarded(|| Slr::new(b)) {
        out += format!("{p:?}").len();
        let p = Box::new(p);
        let mut v = Vec::new();
        v.push(*p);
        let mut keep = Vec::new();
        for w in pinned_words(&g, 40, 10) {
            let text = word_text(&w, &numbered(&w));
            let lexer = Lexer::builder().with_token_map(r"[a-zA-Zα-ω]\d*", tok).unwrap().tokenize(&text);
            if let Ok(Ok(c)) = guarded(|| v[0].parse(lexer)) {
                keep.push(c);
            }
        }
        drop(v);
        out += format!("{keep:?}").len();
    }
    drop(moved);
    cx.comparisons += out.min(1) as u64;
    Some(Ok(()))
}

// ------------------------------------------------------------------------ C20

fn shape(t: &Tree) -> Tree {
    Tree { var: t.var, leaf: t.leaf.map(|(k, _)| (k, 0)), kids: t.kids.iter().map(shape).collect() }
}

fn leaves(t: &Tree, out: &mut Vec<(u8, u32)>) {
    if let Some(l) = t.leaf {
        out.push(l);
    }
    for k in &t.kids {
        leaves(k, out);
    }
}

fn check_c20(g: &G, mode: u32, places: &[Vec<u32>], words: &[(Vec<u8>, Vec<Vec<u32>>)], cx: &mut Cx) -> R {
    let rules = g.clean();
    cx.describe(format!("grammar {}, hash mode {mode}, {} placeholder choices, {} words", g.text(), places.len(), words.len()));
    label_grammar(cx, g, &rules);
    cx.label(match mode {
        0 => "terminal hash by kind",
        1 => "constant terminal hash",
        _ => "colliding terminal hash",
    });
    HASH_MODE.with(|m| m.set(mode));
    FLAT.with(|m| m.set(mode == 1));
    let r = check_c20_inner(g, &rules, places, words, cx);
    HASH_MODE.with(|m| m.set(0));
    FLAT.with(|m| m.set(false));
    r
}

fn check_c20_inner(g: &G, rules: &[Rule], places: &[Vec<u32>], words: &[(Vec<u8>, Vec<Vec<u32>>)], cx: &mut Cx) -> R {
    let mut parsers = Vec::new();
    for pl in places {
        parsers.push(construct_from(|| build_with(g, &|k| pl[k as usize]))?);
    }
    let accepted = matches!(parsers[0], Built::Yes(_));
    for p in &parsers {
        cx.comparisons += 1;
        if matches!(p, Built::Yes(_)) != accepted {
            return Err(format!("grammar {}: acceptance depends on the placeholder values", g.text()));
        }
    }
    if !accepted {
        cx.label("not accepted by the constructor");
        return Ok(());
    }
    for (w, valss) in words {
        let mut first: Option<Option<Tree>> = None;
        let want = gref::derives(g.nv as usize, g.start, rules, w);
        for vals in valss {
            for (p, pl) in parsers.iter().zip(places) {
                let Built::Yes(p) = p else { unreachable!() };
                let text = word_text(w, vals);
                let r = match parse_text(p, &text)? {
                    None => None,
                    Some(t) => Some(read_tree(&t)?),
                };
                cx.comparisons += 1;
                if r.is_some() != want {
                    return Err(format!(
                        "grammar {} with placeholders {pl:?} {} {text:?}",
                        g.text(),
                        if want { "rejects" } else { "accepts" }
                    ));
                }
                if let Some(t) = &r {
                    let mut l = Vec::new();
                    leaves(t, &mut l);
                    l.reverse();
                    let tokens: Vec<(u8, u32)> = w.iter().copied().zip(vals.iter().copied()).collect();
                    if l != tokens {
                        return Err(format!("grammar {}: the leaves {l:?} are not the tokens {tokens:?}", g.text()));
                    }
                    cx.nontrivial |= w.len() >= 2;
                }
                let sh = r.as_ref().map(shape);
                match &first {
                    None => first = Some(sh),
                    Some(f) if *f == sh => {}
                    Some(_) => {
                        return Err(format!("grammar {}: the tree of {text:?} depends on the values", g.text()));
                    }
                }
            }
        }
    }
    Ok(())
}

fn value(s: &mut Source) -> u32 {
    match s.weighted(&[4, 2, 1]) {
        0 => s.below(4),
        1 => s.below(1000),
        _ => s.below(1 << 30),
    }
}

pub fn c20(s: &mut Source, cx: &mut Cx) -> R {
    let g = gref::slr_grammar(s);
    let rules = g.clean();
    let mode = s.below(3);
    let places: Vec<Vec<u32>> = (0..2).map(|_| (0..g.nt).map(|_| value(s)).collect()).collect();
    let mut ws = gref::words(s, &g, &rules, 4, 16);
    // tokens without placeholder are foreign; keep kinds the grammar has mostly
    ws.extend(gref::short_words(g.nt, 8));
    ws.sort();
    ws.dedup();
    let words = ws
        .into_iter()
        .map(|w| {
            let vals = (0..2).map(|_| w.iter().map(|_| value(s)).collect()).collect();
            (w, vals)
        })
        .collect::<Vec<_>>();
    check_c20(&g, mode, &places, &words, cx)
}

pub fn c20_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let g = pinned_grammar(i / 3)?;
    let nt = g.nt as usize;
    let places = vec![vec![0; nt], (0..nt as u32).map(|k| k + 5).collect(), (0..nt as u32).map(|k| 100 - k).collect()];
    let words = pinned_words(&g, 40, 10)
        .into_iter()
        .map(|w| {
            let n = w.len();
            (w, vec![vec![0; n], numbered(&vec![0; n]), vec![5; n]])
        })
        .collect::<Vec<_>>();
    Some(check_c20(&g, i as u32 % 3, &places, &words, cx))
}

// ------------------------------------------------------------------------ C21

/// Kinds of towers, with the last one for everything else.
const TOWERS: u32 = 16;

/// What there is to do to construct a parser: every new state is compared to the
/// others, to one of them item by item, each symbol by symbol, and what can
/// follow depends on pairs of symbols of the grammar. With a constant hash
/// everything in a table is compared too. Second, symbols and items of the
/// machine.
fn machine_work(g: &G, flat: bool) -> (u64, u64) {
    let rules = g.clean();
    let m = gref::lr0(&rules, g.start, true);
    let items: usize = m.states.iter().map(|x| x.len()).sum();
    let edges: usize = m.trans.iter().map(|x| x.len()).sum();
    let longest = g.rules.iter().map(|r| r.1.len() + 1).max().unwrap_or(1);
    let bodies = (0..g.nv).map(|v| rules.iter().filter(|r| r.0 == v).count()).max().unwrap_or(1);
    let most = if flat { bodies + g.nv as usize } else { 1 };
    let symbols: usize = g.rules.iter().map(|r| r.1.len() + 1).sum::<usize>() + 20;
    let states = m.states.len().max(1);
    let compared = edges * longest * (states + 10 * items / states);
    ((compared * most + symbols * symbols * symbols) as u64, (items + symbols) as u64)
}

fn check_c21(g: &G, flat: bool, cx: &mut Cx) -> R {
    let rules = g.clean();
    cx.describe(format!("grammar {}{}", g.text(), if flat { ", constant hash" } else { "" }));
    label_grammar(cx, g, &rules);
    cx.label_if(flat, "constant hash");
    let nv = g.nv as usize;
    cx.label_if(gref::productive(nv, &rules).iter().any(|x| !x), "a variable without end");
    cx.label_if(gref::unit_cycle(nv, &rules), "a variable that derives itself");
    cx.nontrivial = rules.len() >= 3;
    let (size, items) = machine_work(g, flat);
    cx.label_if(items >= 300, "large machine");
    // the costliest grammars need a small part of it
    let budget = 100 * size;
    let before = (work::allocs(), work::probes(), work::steps());
    let r = (|| {
        FLAT.with(|x| x.set(flat));
        HASH_MODE.with(|x| x.set(flat as u32));
        work::limit_probes(budget);
        work::limit_allocs(budget);
        work::limit_steps(100 * budget);
        let b = guarded(|| build(g)).map_err(|p| format!("building the grammar panics: {p}"))?;
        let copy = b.clone();
        let dot = guarded(|| Cfsm::from_grammar(copy).to_dot()).map_err(|p| format!("building or printing the machine panics: {p}"))?;
        cx.comparisons += 1 + dot.len().min(1) as u64;
        match construct_from(|| b)? {
            Built::Yes(_) => cx.label("parser constructed"),
            Built::NotSlr => cx.label("reported as not SLR"),
        }
        Ok(())
    })();
    FLAT.with(|x| x.set(false));
    HASH_MODE.with(|x| x.set(0));
    work::default_probes();
    work::default_allocs();
    work::default_steps();
    if std::env::var_os("PV_RATIO").is_some() {
        let n = (work::allocs() - before.0).max(work::probes() - before.1);
        eprintln!("ratio {} {} {} {}", budget / n.max(1), 100 * budget / (work::steps() - before.2).max(1), size, g.text());
    }
    r.map_err(|e: String| format!("grammar {}: {e}", g.text()))
}

pub fn c21(s: &mut Source, cx: &mut Cx) -> R {
    let mut g = if s.chance(1, 12) {
        let (kind, n) = (s.below(TOWERS), s.range(1, 10) as u8);
        gref::tower(kind, if s.chance(1, 20) && !matches!(kind, 3 | 6) { n + 12 } else { n })
    } else {
        gref::grammar(s)
    };
    match s.weighted(&[4, 2, 2, 1]) {
        0 => {}
        1 => g = gref::pad(s, &g),
        2 => {
            // more ways round
            for _ in 0..s.range(1, 4) {
                let (h, v) = (s.below(g.nv as u32) as u8, s.below(g.nv as u32) as u8);
                let mut b = vec![Sym::V(v)];
                if s.chance(1, 2) {
                    b.push(Sym::V(s.below(g.nv as u32) as u8));
                }
                g.rules.push((h, b));
            }
        }
        _ => {
            // and ways to vanish
            for _ in 0..s.range(1, 4) {
                g.rules.push((s.below(g.nv as u32) as u8, vec![]));
            }
        }
    }
    let flat = s.chance(1, 10);
    check_c21(&g, flat, cx)
}

pub fn c21_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let towers = TOWERS as usize * 5;
    if i < towers {
        let n = [3, 8, 14, 20, 40][i % 5];
        let kind = i as u32 / 5;
        return Some(check_c21(&gref::tower(kind, if matches!(kind, 3 | 6) { n.min(9) } else { n }), false, cx));
    }
    Some(check_c21(&any_grammar(i - towers)?, false, cx))
}
