//! Reference grammar theory: textbook FIRST/FOLLOW/LR(0)/SLR(1), a chart
//! recogniser for arbitrary context-free grammars, and grammar generators.

use crate::engine::Source;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Sym {
    T(u8),
    V(u8),
    E,
}

pub type Rule = (u8, Vec<Sym>);

/// A grammar as its user writes it: rules in order of addition, epsilon
/// symbols included.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct G {
    pub nv: u8,
    pub nt: u8,
    pub start: u8,
    pub rules: Vec<Rule>,
}

pub fn strip(body: &[Sym]) -> Vec<Sym> {
    body.iter().copied().filter(|s| *s != Sym::E).collect()
}

/// How tokens of a kind are written.
pub fn letter(kind: u8) -> char {
    match kind {
        0..=25 => (b'a' + kind) as char,
        26..=51 => (b'A' + kind - 26) as char,
        _ => char::from_u32(0x3b1 + kind as u32 - 52).unwrap(),
    }
}

/// The kind of the token written like this.
pub fn letter_kind(c: char) -> u8 {
    match c {
        'a'..='z' => c as u8 - b'a',
        'A'..='Z' => c as u8 - b'A' + 26,
        _ => (c as u32 - 0x3b1) as u8 + 52,
    }
}

pub fn sym_text(s: &Sym) -> String {
    match s {
        Sym::T(t) => letter(*t).to_string(),
        Sym::V(v) if *v < 26 => ((b'A' + v) as char).to_string(),
        Sym::V(v) => format!("V{v}"),
        Sym::E => "ε".into(),
    }
}

impl G {
    pub fn text(&self) -> String {
        let mut out = format!("start {}; ", sym_text(&Sym::V(self.start)));
        let rs: Vec<String> = self
            .rules
            .iter()
            .map(|(h, b)| {
                format!(
                    "{} -> {}",
                    sym_text(&Sym::V(*h)),
                    if b.is_empty() { "(empty)".into() } else { b.iter().map(sym_text).collect::<Vec<_>>().join(" ") }
                )
            })
            .collect();
        out += &rs.join("; ");
        out
    }

    /// The set of rules without epsilon symbols.
    pub fn clean(&self) -> Vec<Rule> {
        let set: BTreeSet<Rule> = self.rules.iter().map(|(h, b)| (*h, strip(b))).collect();
        set.into_iter().collect()
    }

    /// Reads the notation of `text` ("S: a S b | ; ..."): uppercase are
    /// variables, lowercase terminals, `_` an explicit epsilon. The first head
    /// is the start variable.
    pub fn read(t: &str) -> G {
        let mut g = G { nv: 0, nt: 0, start: 0, rules: Vec::new() };
        let mut first = None;
        for part in t.split(';') {
            let part = part.trim();
            if part.is_empty() {
                continue;
            }
            let (h, bodies) = part.split_once(':').expect("rule");
            let h = h.trim().as_bytes()[0] - b'A';
            first.get_or_insert(h);
            g.nv = g.nv.max(h + 1);
            for b in bodies.split('|') {
                let body: Vec<Sym> = b
                    .split_whitespace()
                    .map(|x| match x.as_bytes()[0] {
                        b'_' => Sym::E,
                        c @ b'a'..=b'z' => Sym::T(c - b'a'),
                        c => Sym::V(c - b'A'),
                    })
                    .collect();
                for s in &body {
                    match s {
                        Sym::T(t) => g.nt = g.nt.max(t + 1),
                        Sym::V(v) => g.nv = g.nv.max(v + 1),
                        Sym::E => {}
                    }
                }
                g.rules.push((h, body));
            }
        }
        // number the variables in order of appearance
        let mut names: Vec<u8> = Vec::new();
        let mut number = |v: u8| match names.iter().position(|x| *x == v) {
            Some(i) => i as u8,
            None => {
                names.push(v);
                names.len() as u8 - 1
            }
        };
        g.start = number(first.unwrap());
        for (h, b) in &mut g.rules {
            *h = number(*h);
            for y in b {
                if let Sym::V(v) = y {
                    *v = number(*v);
                }
            }
        }
        g.nv = names.len() as u8;
        g
    }
}

// ------------------------------------------------------------- textbook sets

pub struct Sets {
    pub nullable: Vec<bool>,
    /// Bit t: terminal t.
    pub first: Vec<u64>,
    /// Bit t: terminal t; bit `EOF`: end of input.
    pub follow: Vec<u64>,
}

pub const EOF: u32 = 63;

pub fn sets(nv: usize, start: u8, rules: &[Rule]) -> Sets {
    let mut nullable = vec![false; nv];
    let mut first = vec![0u64; nv];
    loop {
        let before = (nullable.clone(), first.clone());
        for (h, b) in rules {
            let h = *h as usize;
            let mut all = true;
            for s in b {
                match s {
                    Sym::T(t) => {
                        first[h] |= 1 << t;
                        all = false;
                        break;
                    }
                    Sym::V(v) => {
                        first[h] |= first[*v as usize];
                        if !nullable[*v as usize] {
                            all = false;
                            break;
                        }
                    }
                    Sym::E => {}
                }
            }
            nullable[h] |= all;
        }
        if (&nullable, &first) == (&before.0, &before.1) {
            break;
        }
    }
    let mut follow = vec![0u64; nv];
    follow[start as usize] |= 1 << EOF;
    loop {
        let before = follow.clone();
        for (h, b) in rules {
            let mut after = follow[*h as usize];
            for s in b.iter().rev() {
                match s {
                    Sym::T(t) => after = 1 << t,
                    Sym::V(v) => {
                        let v = *v as usize;
                        follow[v] |= after;
                        after = if nullable[v] { after | first[v] } else { first[v] };
                    }
                    Sym::E => {}
                }
            }
        }
        if follow == before {
            break;
        }
    }
    Sets { nullable, first, follow }
}

/// Variables that derive some token sequence.
pub fn productive(nv: usize, rules: &[Rule]) -> Vec<bool> {
    let mut p = vec![false; nv];
    loop {
        let before = p.clone();
        for (h, b) in rules {
            if b.iter().all(|s| !matches!(s, Sym::V(v) if !p[*v as usize])) {
                p[*h as usize] = true;
            }
        }
        if p == before {
            return p;
        }
    }
}

pub fn reachable(nv: usize, start: u8, rules: &[Rule]) -> Vec<bool> {
    let mut r = vec![false; nv];
    r[start as usize] = true;
    loop {
        let before = r.clone();
        for (h, b) in rules {
            if r[*h as usize] {
                for s in b {
                    if let Sym::V(v) = s {
                        r[*v as usize] = true;
                    }
                }
            }
        }
        if r == before {
            return r;
        }
    }
}

// ------------------------------------------------------------ LR(0) and SLR(1)

/// An item: index of a rule, cursor. Rule index `usize::MAX` is the augmented
/// start rule.
pub type It = (usize, usize);

fn closure(rules: &[Rule], start: u8, kernel: &BTreeSet<It>) -> BTreeSet<It> {
    let mut set = kernel.clone();
    let mut todo: Vec<It> = kernel.iter().copied().collect();
    while let Some((r, c)) = todo.pop() {
        let next = if r == usize::MAX {
            if c == 0 {
                Some(Sym::V(start))
            } else {
                None
            }
        } else {
            rules[r].1.get(c).copied()
        };
        if let Some(Sym::V(v)) = next {
            for (i, (h, _)) in rules.iter().enumerate() {
                if *h == v && set.insert((i, 0)) {
                    todo.push((i, 0));
                }
            }
        }
    }
    set
}

pub struct Lr0 {
    pub states: Vec<BTreeSet<It>>,
    pub trans: Vec<BTreeMap<Sym, usize>>,
}

/// The canonical collection; with or without the augmented start item.
pub fn lr0(rules: &[Rule], start: u8, augmented: bool) -> Lr0 {
    let kernel: BTreeSet<It> = if augmented {
        BTreeSet::from([(usize::MAX, 0)])
    } else {
        rules.iter().enumerate().filter(|(_, r)| r.0 == start).map(|(i, _)| (i, 0)).collect()
    };
    let first = closure(rules, start, &kernel);
    let mut index: BTreeMap<BTreeSet<It>, usize> = BTreeMap::from([(first.clone(), 0)]);
    let mut states = vec![first];
    let mut trans: Vec<BTreeMap<Sym, usize>> = Vec::new();
    let mut i = 0;
    while i < states.len() {
        let mut by: BTreeMap<Sym, BTreeSet<It>> = BTreeMap::new();
        for (r, c) in &states[i] {
            let next = if *r == usize::MAX {
                if *c == 0 {
                    Some(Sym::V(start))
                } else {
                    None
                }
            } else {
                rules[*r].1.get(*c).copied()
            };
            if let Some(s) = next {
                by.entry(s).or_default().insert((*r, c + 1));
            }
        }
        let mut row = BTreeMap::new();
        for (s, k) in by {
            let set = closure(rules, start, &k);
            let id = *index.entry(set.clone()).or_insert_with(|| {
                states.push(set);
                states.len() - 1
            });
            row.insert(s, id);
        }
        trans.push(row);
        i += 1;
    }
    Lr0 { states, trans }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conflict {
    ShiftReduce,
    ReduceReduce,
    AcceptReduce,
}

/// The first conflict of the SLR(1) table of the augmented grammar.
pub fn slr_conflict(nv: usize, start: u8, rules: &[Rule]) -> Option<Conflict> {
    let f = sets(nv, start, rules);
    let m = lr0(rules, start, true);
    let mut found = None;
    for (set, row) in m.states.iter().zip(&m.trans) {
        let mut shifts = 0u64;
        for s in row.keys() {
            if let Sym::T(t) = s {
                shifts |= 1 << t;
            }
        }
        let mut seen = 0u64;
        let accept = set.contains(&(usize::MAX, 1));
        for (r, c) in set {
            if *r == usize::MAX || *c < rules[*r].1.len() {
                continue;
            }
            let la = f.follow[rules[*r].0 as usize];
            if la & shifts != 0 {
                return Some(Conflict::ShiftReduce);
            }
            if la & seen != 0 {
                found = Some(Conflict::ReduceReduce);
            }
            if accept && la >> EOF & 1 == 1 {
                found = found.or(Some(Conflict::AcceptReduce));
            }
            seen |= la;
        }
    }
    found
}

// -------------------------------------------------------------------- chart

/// Whether the start variable derives the word.
pub fn derives(nv: usize, start: u8, rules: &[Rule], word: &[u8]) -> bool {
    let n = word.len();
    if n >= 64 {
        return earley(nv, start, rules, word);
    }
    // ends[v][i]: set of j such that v derives word[i..j]
    let mut ends = vec![vec![0u64; n + 1]; nv];
    loop {
        let mut changed = false;
        for (h, b) in rules {
            for i in 0..=n {
                let mut cur = 1u64 << i;
                for s in b {
                    if cur == 0 {
                        break;
                    }
                    let mut next = 0u64;
                    for j in 0..=n {
                        if cur >> j & 1 == 1 {
                            match s {
                                Sym::T(t) => {
                                    if j < n && word[j] == *t {
                                        next |= 1 << (j + 1);
                                    }
                                }
                                Sym::V(v) => next |= ends[*v as usize][j],
                                Sym::E => next |= 1 << j,
                            }
                        }
                    }
                    cur = next;
                }
                let e = &mut ends[*h as usize][i];
                if *e | cur != *e {
                    *e |= cur;
                    changed = true;
                }
            }
        }
        if !changed {
            break;
        }
    }
    ends[start as usize][0] >> n & 1 == 1
}

/// Whether some variable derives itself in one or more steps.
pub fn unit_cycle(nv: usize, rules: &[Rule]) -> bool {
    let null = sets(nv, 0, rules).nullable;
    let mut to = vec![vec![false; nv]; nv];
    for (h, b) in rules {
        for (i, y) in b.iter().enumerate() {
            if let Sym::V(v) = y {
                let alone = b.iter().enumerate().all(|(k, z)| k == i || matches!(z, Sym::V(w) if null[*w as usize]));
                to[*h as usize][*v as usize] |= alone;
            }
        }
    }
    for k in 0..nv {
        for i in 0..nv {
            for j in 0..nv {
                to[i][j] |= to[i][k] && to[k][j];
            }
        }
    }
    (0..nv).any(|v| to[v][v])
}

/// `derives` for words of any length.
pub fn earley(nv: usize, start: u8, rules: &[Rule], word: &[u8]) -> bool {
    type Item = (usize, usize, usize);
    let nullable = sets(nv, start, rules).nullable;
    let n = word.len();
    let mut all: Vec<BTreeSet<Item>> = Vec::with_capacity(n + 1);
    // waiting[i][v]: items of set i whose next symbol is v
    let mut waiting: Vec<Vec<Vec<Item>>> = Vec::with_capacity(n + 1);
    let mut todo: Vec<Item> = rules.iter().enumerate().filter(|(_, r)| r.0 == start).map(|(i, _)| (i, 0, 0)).collect();
    for i in 0..=n {
        let mut set: BTreeSet<Item> = todo.iter().copied().collect();
        waiting.push(vec![Vec::new(); nv]);
        let mut next = Vec::new();
        while let Some(it @ (r, dot, origin)) = todo.pop() {
            let mut push = |x: Item, todo: &mut Vec<Item>| {
                if set.insert(x) {
                    todo.push(x);
                }
            };
            match rules[r].1.get(dot) {
                None => {
                    let head = rules[r].0 as usize;
                    for (a, b, c) in waiting[origin][head].clone() {
                        push((a, b + 1, c), &mut todo);
                    }
                }
                Some(Sym::T(t)) => {
                    if i < n && word[i] == *t {
                        next.push((r, dot + 1, origin));
                    }
                }
                Some(Sym::V(v)) => {
                    if waiting[i][*v as usize].is_empty() {
                        for (k, rule) in rules.iter().enumerate() {
                            if rule.0 == *v {
                                push((k, 0, i), &mut todo);
                            }
                        }
                    }
                    waiting[i][*v as usize].push(it);
                    if nullable[*v as usize] {
                        push((r, dot + 1, origin), &mut todo);
                    }
                }
                Some(Sym::E) => push((r, dot + 1, origin), &mut todo),
            }
        }
        all.push(set);
        todo = next;
    }
    all[n].iter().any(|(r, dot, o)| *o == 0 && rules[*r].0 == start && *dot == rules[*r].1.len())
}

// --------------------------------------------------------------- generators

/// Grammars that exercise the constructions parsers are written with.
const TEMPLATES: &[&str] = &[
    // lists
    "S: S a | a",
    "S: a S | a",
    "S: S a | ",
    "S: a S | ",
    "S: L; L: L c I | I; I: a | b",
    "S: I T; T: c I T | ; I: a | b",
    "S: a L b; L: L I | ; I: c | d",
    // brackets
    "S: a S b | c",
    "S: a S b | ",
    "S: S a S b | ",
    "S: a S b S | ",
    "S: a L b | d; L: L c S | S",
    // expressions
    "S: S a T | T; T: T b F | F; F: c S d | e",
    "S: T U; U: a T U | ; T: F W; W: b F W | ; F: c S d | e",
    "S: a S | T; T: T b | c",
    "S: S a c | S b c | c",
    // optional parts
    "S: O a; O: b | ",
    "S: O P a; O: b | ; P: c | ",
    "S: a O P; O: b | ; P: c | ",
    "S: O P; O: b | ; P: c | ",
    "S: O P Q; O: a | ; P: b | ; Q: c | ",
    // common prefixes
    "S: a b | a c",
    "S: a b c | a b d | a e",
    "S: A b | C d; A: a; C: a",
    "S: A A; A: a A | b",
    "S: a A | b B; A: c | d A; B: c B | d",
    // statements
    "S: S T | T; T: a b | c E d; E: E a E | b",
    "S: T; T: a e E f T g T | b; E: c | d",
    "S: D; D: a L b; L: D L | ",
    // start recursion in the middle and at the end
    "S: a S a | b",
    "S: A; A: B; B: S a | b",
    "S: a | b S",
    "S: A S | b; A: a",
    // units and chains
    "S: A; A: B; B: C; C: a | b C",
    "S: A | B; A: a; B: b",
    "S: A B C; A: a | ; B: b | ; C: c",
    // useless symbols
    "S: a | A; A: b A",
    "S: a; B: b B | c",
    "S: a S | b; C: S c",
    "S: a A | b; A: A c",
    // not SLR
    "S: S S | a",
    "S: a | A; A: a",
    "S: L b R | R; L: c R | a; R: L",
    "S: S a S | b",
    "S: A a | B b; A: | ; B: ",
    "S: S | a",
    "S: A a A b | B b B a; A: ; B: ",
    "S: a E c | a F d | b F c | b E d; E: e; F: e",
    "S: a S b | a S | c",
    "S: A | b; A: S",
    "S: ",
];

/// Grammars as one would write them for a small language.
pub const BIG: &[&str] = &[
    // values: objects, lists, strings, numbers
    "V: O | L | a | b | c; O: d e | d M e; M: P | M f P; P: a g V; L: h i | h E i; E: V | E f V",
    // statements with expressions
    "P: Q; Q: Q S | ; S: a b E c | d e E f S g S | h Q i | j E c | c; E: E k T | E l T | T; T: T m F | T n F | F; F: e E f | a | o | l F | a e A f; A: B | ; B: B p E | E",
    // declarations
    "U: U D | D; D: T N a | T N b E a | T N c P d B; T: e | f | T g; N: h; P: P i R | R | ; R: T N; B: j L k; L: L C | ; C: E a | l E a; E: E m M | M; M: h | n | c E d",
    // twelve levels of operators
    "A: A a B | B; B: B b C | C; C: C c D | D; D: D d E | E; E: E e F | F; F: F f G | G; G: G g H | H; H: H h I | I; I: I i J | J; J: J j K | K; K: K k L | L; L: l A m | n",
    // the same to the right
    "A: B a A | B; B: C b B | C; C: D c C | D; D: E d D | E; E: F e E | F; F: G f F | G; G: H g G | H; H: h A i | j",
    // many alternatives
    "S: a T | b T | c T | d T | e T | f T | g T | h T | i T | j T | k T | l T | m T; T: n S | o S | p S | q S | r S | s S | t",
    // long bodies
    "S: a b c d e f g h i j k l m n o p q r s t u v w S x | y",
    "S: A b A c A d A e A f A g A h A i A j A k; A: a | ",
    // many optional parts
    "S: A B C D E F G H i; A: a | ; B: b | ; C: c | ; D: d | ; E: e | ; F: f | ; G: g | ; H: h | ",
    "S: a A B C D E F G H; A: a | ; B: b | ; C: c | ; D: d | ; E: e | ; F: f | ; G: g | ; H: h | ",
    // chains of units
    "A: B; B: C; C: D; D: E; E: F; F: G; G: H; H: I; I: J; J: K; K: L; L: M; M: N; N: O; O: P; P: Q; Q: R; R: a R | b",
    "A: B | a; B: C | b; C: D | c; D: E | d; E: F | e; F: G | f; G: H | g; H: h A i",
    // nested lists with separators
    "S: A | S a A; A: B | A b B; B: C | B c C; C: D | C d D; D: e S f | g",
    // the same bodies under several heads
    "S: a A x | b B x | c C x | d D x; A: e A | f; B: e B | f; C: e C | f; D: e D | f",
    "S: a A | b B | c C; A: e E g; B: e E h; C: e E i; E: f E | f",
    // words that share prefixes
    "S: a b c d e | a b c d f | a b c g | a b h | a i | b c d e | b c d f | c d e",
    // nested brackets of five kinds
    "S: S B | ; B: a S b | c S d | e S f | g S h | i S j",
    // tail lists
    "S: I T; T: a I T | ; I: J U; U: b J U | ; J: K W; W: c K W | ; K: L X; X: d L X | ; L: e S f | g",
    // mutual recursion
    "S: a A | b; A: c B | d; B: e C | f; C: g D | h; D: i S | j",
    "S: A a | b; A: B c | d; B: C e | f; C: D g | h; D: S i | j",
    // useless parts
    "S: a S b | c; A: B C; B: b; C: C d | D; D: e D f; E: S E | a",
    // commands with options
    "S: S C a | C a; C: b O A | c O | d A A; O: O o | O p q | ; A: e | f A g | h",
    // types
    "T: F a T | F; F: b | c | d T e | F f T g | h L i; L: L j T | T",
    // not SLR, for all their size
    "P: Q; Q: Q S | ; S: a b E c | d e E f S g S | d e E f S | h Q i; E: E k T | T; T: e E f | a",
    "A: A a B | B; B: B b C | C; C: C c C | D; D: d A e | f",
    "S: a A x | b A y | a B y | b B x; A: e E; B: e E; E: f E | f",
];

/// A machine of some hundred states: `n` rules of `len` symbols.
pub fn wide(n: u8, len: u8) -> G {
    let mut g = G { nv: 2, nt: 25, start: 0, rules: vec![(1, vec![Sym::T(24)])] };
    for i in 0..n {
        let mut b = vec![Sym::T(i % 24)];
        for k in 1..len {
            b.push(match (i as u32 * 7 + k as u32 * 3 + 1) % 11 {
                0 => Sym::V(1),
                1 => Sym::V(0),
                x => Sym::T(((x * 5 + i as u32 + k as u32) % 23) as u8),
            });
        }
        // no reduction but behind a terminal of its own
        b.push(Sym::T(i % 24));
        g.rules.push((0, b));
    }
    g.rules.push((0, vec![Sym::T(24), Sym::T(24)]));
    g
}

/// Grammars with much of one thing.
pub fn many(kind: u32) -> G {
    let (t, v) = (Sym::T, Sym::V);
    let mut g = G { nv: 3, nt: 58, start: 0, rules: Vec::new() };
    match kind {
        // terminals: a list of bracketed things
        0 => {
            g.rules.extend([(0, vec![v(0), v(1)]), (0, vec![v(1)]), (2, vec![]), (2, vec![v(2), t(57)])]);
            g.rules.extend((0..56).map(|i| (1, vec![t(i), v(2), t((i + 1) % 56)])));
        }
        // symbols in a body
        1 => {
            g.nt = 12;
            g.rules.push((0, (0..300u32).map(|i| if i % 7 == 3 { v(1 + (i % 2) as u8) } else { t((i * i % 11) as u8) }).collect()));
            g.rules.extend([(1, vec![t(11)]), (1, vec![]), (2, vec![t(11), v(2)]), (2, vec![])]);
        }
        // variables
        2 => {
            g.nv = 200;
            g.rules.extend((0..199).map(|i| (i, vec![t(i % 40), v(i + 1)])));
            g.rules.extend((0..200).filter(|i| i % 3 > 0).map(|i| (i, vec![t(40 + i % 9)])));
            g.rules.push((199, vec![]));
        }
        // rules of a variable
        _ => {
            g.nv = 2;
            g.nt = 20;
            for i in 0..18 {
                for j in 0..18 {
                    g.rules.push((1, vec![t(i), t(j), t(18)]));
                }
            }
            g.rules.extend([(0, vec![v(1), v(0)]), (0, vec![])]);
        }
    }
    g
}

/// Grammars on which careless construction takes forever.
pub fn tower(kind: u32, n: u8) -> G {
    let (t, v) = (Sym::T, Sym::V);
    let mut g = G { nv: n + 1, nt: 1, start: 0, rules: Vec::new() };
    for i in 0..n {
        match kind {
            // units
            0 => g.rules.push((i, vec![v(i + 1)])),
            // each twice the next
            1 => g.rules.push((i, vec![v(i + 1), v(i + 1)])),
            2 => g.rules.extend([(i, vec![v(i + 1), v(i + 1)]), (i, vec![])]),
            // units between all
            3 => g.rules.extend((0..=n).map(|j| (i, vec![v(j)]))),
            // left and right recursive, without end
            4 => g.rules.push((i, vec![v((i + 1) % n), t(0), v((i + 2) % n)])),
            5 => g.rules.extend([(i, vec![v(i + 1), v(0)]), (i, vec![v((i + n - 1) % n)])]),
            // all may be empty
            6 => g.rules.extend([(i, (0..=n).map(v).collect()), (i, vec![])]),
            7 => g.rules.extend([(i, vec![v(i + 1), t(0)]), (i, vec![v(i + 1)]), (i, vec![])]),
            // operators
            8 => g.rules.extend([(i, vec![v(i), t(i % 24), v(i + 1)]), (i, vec![v(i + 1)])]),
            9 => g.rules.extend([(i, vec![v(i + 1), t(i % 24), v(i)]), (i, vec![v(i + 1)])]),
            // the next one twice, and asked for
            11 if i == 0 => g.rules.push((0, vec![t(0), v(n), v(1)])),
            11 => g.rules.extend([(i, vec![v(i + 1), t(1)]), (i, vec![v(i + 1), t(2)])]),
            // three times, the last one optional
            12 if i == 0 => g.rules.push((0, vec![v(n), v(1), v(1)])),
            12 => g.rules.extend([(i, vec![v(i + 1), v(i + 1), v(i + 1)]), (i, vec![])]),
            // each followed by all others
            13 => g.rules.extend([(i, vec![t(i % 24), v(i + 1), v(0), v(i)]), (i, vec![])]),
            // each behind the next two
            14 => g.rules.extend([(i, vec![v(i + 1), v((i + 2).min(n))]), (i, vec![t(i % 24)])]),
            // a body with everything
            _ if i == 0 => g.rules.push((0, (1..=n).map(v).collect())),
            _ => g.rules.extend([(i, vec![t(i % 24)]), (i, vec![])]),
        }
    }
    g.rules.push((n, vec![t(24)]));
    g.nt = 25;
    g
}

/// Several grammars under one start variable, over the same or different
/// terminals.
fn joined_grammar(s: &mut Source) -> G {
    let mut g = G { nv: 1, nt: 0, start: 0, rules: Vec::new() };
    let n = s.range(2, 3);
    let mut starts = Vec::new();
    let share = s.chance(1, 2);
    for _ in 0..n {
        let part = G::read(s.pick(TEMPLATES));
        let shift = if share || g.nt + part.nt > 20 { 0 } else { g.nt };
        for (h, b) in &part.rules {
            let b = b
                .iter()
                .map(|y| match y {
                    Sym::V(v) => Sym::V(v + g.nv),
                    Sym::T(t) => Sym::T(t + shift),
                    Sym::E => Sym::E,
                })
                .collect();
            g.rules.push((h + g.nv, b));
        }
        starts.push(Sym::V(part.start + g.nv));
        g.nv += part.nv;
        g.nt = g.nt.max(part.nt + shift);
    }
    if s.chance(2, 3) {
        // told apart by their first token
        for y in &starts {
            let t = Sym::T(g.nt);
            g.nt += 1;
            let mut b = vec![t, *y];
            if s.chance(1, 3) {
                b.push(t);
            }
            g.rules.push((0, b));
        }
    } else {
        // one behind the other
        g.rules.push((0, starts));
    }
    g.nt = g.nt.max(1);
    g
}

fn body(s: &mut Source, nv: u8, nt: u8) -> Vec<Sym> {
    let n = s.weighted(&[90, 180, 180, 120, 30, 6]);
    let n = if n == 5 { s.range(5, 12) as usize } else { n };
    (0..n)
        .map(|_| {
            if s.chance(2, 5) {
                Sym::V(s.below(nv as u32) as u8)
            } else {
                Sym::T(s.below(nt as u32) as u8)
            }
        })
        .collect()
}

fn complete(g: &mut G, s: &mut Source) {
    for v in 0..g.nv {
        if !g.rules.iter().any(|r| r.0 == v) {
            let t = s.below(g.nt as u32) as u8;
            g.rules.push((v, vec![Sym::T(t)]));
        }
    }
}

/// Drops repeated rules, keeping order.
pub fn dedup(g: &mut G) {
    let mut seen = BTreeSet::new();
    g.rules.retain(|(h, b)| seen.insert((*h, strip(b))));
}

fn random_grammar(s: &mut Source) -> G {
    let large = s.chance(1, 20);
    let nv = if large { s.range(6, 14) } else { s.range(1, 5) } as u8;
    let nt = if large { s.range(3, 14) } else { s.range(1, 4) } as u8;
    let mut g = G { nv, nt, start: 0, rules: Vec::new() };
    for v in 0..nv {
        let n = 1 + s.weighted(&[4, 5, 3, 1]);
        for _ in 0..n {
            let b = body(s, nv, nt);
            g.rules.push((v, b));
        }
    }
    g
}

/// A grammar whose bodies mostly start with distinct terminals: usually SLR.
fn prefixed_grammar(s: &mut Source) -> G {
    let large = s.chance(1, 20);
    let nv = if large { s.range(7, 16) } else { s.range(2, 6) } as u8;
    let nt = if large { s.range(6, 24) } else { s.range(2, 6) } as u8;
    let mut g = G { nv, nt, start: 0, rules: Vec::new() };
    for v in 0..nv {
        let n = if large && s.chance(1, 4) { s.range(4, 12) as u8 } else { 1 + s.weighted(&[3, 5, 3]) as u8 };
        let shift = s.below(nt as u32) as u8;
        for k in 0..n.min(nt) {
            let mut b = Vec::new();
            match s.weighted(&[8, 2, 2]) {
                0 => {
                    b.push(Sym::T((shift + k) % nt));
                    b.extend(body(s, nv, nt));
                }
                1 => {}
                _ => {
                    // later variables only, so no left recursion by accident
                    let w = v + 1 + s.below(3) as u8;
                    if w < nv {
                        b.push(Sym::V(w));
                    } else {
                        b.push(Sym::T((shift + k) % nt));
                    }
                    b.extend(body(s, nv, nt));
                }
            }
            b.truncate(if large { 12 } else { 4 });
            g.rules.push((v, b));
        }
    }
    g
}

/// Layers of constructions, each over the next: lists, options, brackets,
/// operators, choices. Almost always SLR.
fn layered_grammar(s: &mut Source) -> G {
    let layers = if s.chance(1, 20) { s.range(5, 10) } else { s.range(1, 4) } as u8;
    let mut nv = 0u8;
    let mut nt = 0u8;
    let mut rules: Vec<Rule> = Vec::new();
    let mut fresh_t = || {
        nt += 1;
        Sym::T(nt - 1)
    };
    let mut heads: Vec<u8> = (0..=layers).collect();
    nv += layers + 1;
    for l in 0..layers {
        let (h, x) = (heads[l as usize], Sym::V(heads[l as usize + 1]));
        let me = Sym::V(h);
        match s.below(12) {
            0 => rules.extend([(h, vec![me, fresh_t(), x]), (h, vec![x])]),
            1 => rules.extend([(h, vec![x, fresh_t(), me]), (h, vec![x])]),
            2 => rules.extend([(h, vec![me, x]), (h, vec![])]),
            3 => rules.extend([(h, vec![me, x]), (h, vec![x])]),
            4 => rules.extend([(h, vec![x, me]), (h, vec![])]),
            5 => rules.extend([(h, vec![x]), (h, vec![])]),
            6 => rules.push((h, vec![fresh_t(), x, fresh_t()])),
            7 => rules.extend([(h, vec![fresh_t(), me, fresh_t()]), (h, vec![x])]),
            8 => rules.extend([(h, vec![fresh_t(), me]), (h, vec![x])]),
            9 => rules.extend([(h, vec![x, fresh_t()]), (h, vec![fresh_t(), x])]),
            10 => {
                // tail variable: x (sep x)*
                let tail = nv;
                nv += 1;
                heads.push(tail);
                let sep = fresh_t();
                rules.extend([
                    (h, vec![x, Sym::V(tail)]),
                    (tail, vec![sep, x, Sym::V(tail)]),
                    (tail, vec![]),
                ]);
            }
            _ => {
                // optional prefix and suffix variables
                let (a, b) = (nv, nv + 1);
                nv += 2;
                let (ta, tb) = (fresh_t(), fresh_t());
                rules.extend([
                    (h, vec![Sym::V(a), x, Sym::V(b)]),
                    (a, vec![ta]),
                    (a, vec![]),
                    (b, vec![tb]),
                    (b, vec![]),
                ]);
            }
        }
    }
    let last = heads[layers as usize];
    match s.below(5) {
        0 => rules.push((last, vec![fresh_t()])),
        1 => rules.extend([(last, vec![fresh_t()]), (last, vec![fresh_t()])]),
        2 => rules.extend([(last, vec![fresh_t(), Sym::V(0), fresh_t()]), (last, vec![fresh_t()])]),
        3 => {
            let t = fresh_t();
            rules.extend([(last, vec![t, fresh_t()]), (last, vec![t, fresh_t()])]);
        }
        _ => rules.extend([(last, vec![fresh_t(), Sym::V(0)]), (last, vec![fresh_t()])]),
    }
    G { nv, nt: nt.max(1), start: 0, rules }
}

fn mutate_grammar(g: &mut G, s: &mut Source) {
    let n = s.range(1, 2);
    for _ in 0..n {
        match s.below(6) {
            0 => {
                let h = s.below(g.nv as u32) as u8;
                let b = body(s, g.nv, g.nt);
                g.rules.push((h, b));
            }
            1 if g.rules.len() > 1 => {
                let i = s.index(g.rules.len());
                g.rules.remove(i);
            }
            2 => {
                let i = s.index(g.rules.len());
                let k = s.index(g.rules[i].1.len() + 1);
                let y = if s.chance(1, 2) { Sym::V(s.below(g.nv as u32) as u8) } else { Sym::T(s.below(g.nt as u32) as u8) };
                g.rules[i].1.insert(k, y);
            }
            3 => {
                let i = s.index(g.rules.len());
                if !g.rules[i].1.is_empty() {
                    let k = s.index(g.rules[i].1.len());
                    g.rules[i].1.remove(k);
                }
            }
            4 => {
                let i = s.index(g.rules.len());
                if !g.rules[i].1.is_empty() {
                    let k = s.index(g.rules[i].1.len());
                    g.rules[i].1[k] = Sym::T(s.below(g.nt as u32) as u8);
                }
            }
            _ => {
                let i = s.index(g.rules.len());
                if !g.rules[i].1.is_empty() {
                    let k = s.index(g.rules[i].1.len());
                    g.rules[i].1[k] = Sym::V(s.below(g.nv as u32) as u8);
                }
            }
        }
    }
}

/// Renames variables so that heads are not always in the order of use.
fn permute(g: &mut G, s: &mut Source) {
    let mut p: Vec<u8> = (0..g.nv).collect();
    s.shuffle(&mut p);
    for (h, b) in &mut g.rules {
        *h = p[*h as usize];
        for y in b {
            if let Sym::V(v) = y {
                *v = p[*v as usize];
            }
        }
    }
    g.start = p[g.start as usize];
}

/// A complete grammar without epsilon symbols and without repeated rules.
pub fn grammar(s: &mut Source) -> G {
    let mut g = match s.weighted(&[50, 30, 50, 70, 8, 8]) {
        4 => {
            let mut g = G::read(s.pick(BIG));
            if s.chance(1, 3) {
                mutate_grammar(&mut g, s);
            }
            g
        }
        5 => joined_grammar(s),
        0 => {
            let mut g = G::read(s.pick(TEMPLATES));
            g.nt = g.nt.max(1);
            if s.chance(1, 3) {
                mutate_grammar(&mut g, s);
            }
            g
        }
        1 => random_grammar(s),
        2 => prefixed_grammar(s),
        _ => {
            let mut g = layered_grammar(s);
            if s.chance(1, 4) {
                mutate_grammar(&mut g, s);
            }
            g
        }
    };
    if s.chance(1, 12) {
        // a useless variable
        let v = g.nv;
        g.nv += 1;
        let b = body(s, g.nv, g.nt);
        g.rules.push((v, b));
        if s.chance(1, 2) {
            let h = s.below(g.nv as u32) as u8;
            let mut b = body(s, g.nv, g.nt);
            b.push(Sym::V(v));
            g.rules.push((h, b));
        }
    }
    if s.chance(1, 24) {
        add_dead_end(s, &mut g);
    }
    complete(&mut g, s);
    dedup(&mut g);
    if s.chance(1, 2) {
        permute(&mut g, s);
    }
    g
}

/// A grammar that is SLR(1), by trying a few times.
pub fn slr_grammar(s: &mut Source) -> G {
    for _ in 0..12 {
        let g = grammar(s);
        let rules = g.clean();
        if slr_conflict(g.nv as usize, g.start, &rules).is_none() {
            return g;
        }
    }
    G::read("S: a S b | c")
}

/// Minimal derivation height per variable, `None` if unproductive.
fn heights(nv: usize, rules: &[Rule]) -> Vec<Option<u32>> {
    let mut h: Vec<Option<u32>> = vec![None; nv];
    loop {
        let mut changed = false;
        for (v, b) in rules {
            let mut m = 0;
            let mut ok = true;
            for y in b {
                if let Sym::V(w) = y {
                    match h[*w as usize] {
                        Some(x) => m = m.max(x),
                        None => ok = false,
                    }
                }
            }
            if ok && h[*v as usize].is_none_or(|x| m + 1 < x) {
                h[*v as usize] = Some(m + 1);
                changed = true;
            }
        }
        if !changed {
            return h;
        }
    }
}

/// A random sentence, if the start variable derives any and luck has it short.
pub fn sentence(s: &mut Source, g: &G, rules: &[Rule], cap: usize) -> Option<Vec<u8>> {
    let h = heights(g.nv as usize, rules);
    h[g.start as usize]?;
    let mut out = Vec::new();
    let mut stack = vec![(Sym::V(g.start), 0u32)];
    let long = cap > 64;
    let budget = if long { cap as u32 } else { s.range(3, 12) };
    let want = if long { s.range(20, cap as u32) as usize } else { usize::MAX };
    let mut steps = 0;
    while let Some((y, depth)) = stack.pop() {
        steps += 1;
        if out.len() + stack.len() > cap * 4 || steps > 600 + cap * 8 {
            return None;
        }
        match y {
            Sym::T(t) => out.push(t),
            Sym::E => {}
            Sym::V(v) => {
                let cand: Vec<&Rule> = rules
                    .iter()
                    .filter(|(hd, b)| *hd == v && b.iter().all(|z| !matches!(z, Sym::V(w) if h[*w as usize].is_none())))
                    .collect();
                let cost = |r: &Rule| {
                    r.1.iter().map(|z| if let Sym::V(w) = z { h[*w as usize].unwrap() } else { 0 }).max().unwrap_or(0)
                };
                let more: Vec<&&Rule> = cand.iter().filter(|r| r.1.iter().any(|z| matches!(z, Sym::V(_)))).collect();
                let r = if depth >= budget || out.len() + stack.len() >= want {
                    *cand.iter().min_by_key(|r| cost(r)).unwrap()
                } else if long && !more.is_empty() && s.chance(3, 4) {
                    more[s.index(more.len())]
                } else {
                    cand[s.index(cand.len())]
                };
                for z in r.1.iter().rev() {
                    stack.push((*z, depth + 1));
                }
            }
        }
    }
    if out.len() <= cap {
        Some(out)
    } else {
        None
    }
}

/// The tokens of a leftmost expansion as far as it gets. Unlike a sentence it
/// also goes where no sentence is.
pub fn expansion(s: &mut Source, g: &G, rules: &[Rule], cap: usize) -> Vec<u8> {
    let cap = 1 + s.index(cap);
    let mut todo = vec![Sym::V(g.start)];
    let mut out = Vec::new();
    for _ in 0..8 * cap {
        match todo.pop() {
            Some(Sym::T(t)) => out.push(t),
            Some(Sym::V(v)) => {
                let own: Vec<&Rule> = rules.iter().filter(|r| r.0 == v).collect();
                todo.extend(own[s.index(own.len())].1.iter().rev());
            }
            Some(Sym::E) => {}
            None => break,
        }
        if out.len() >= cap {
            break;
        }
    }
    out
}

/// Adds alternatives that begin well and never end.
pub fn add_dead_end(s: &mut Source, g: &mut G) -> bool {
    if g.nv > 20 || g.nt > 20 {
        return false;
    }
    let (a, b) = (g.nv, g.nv + 1);
    g.nv += 2;
    // a token of its own keeps the grammar SLR, mostly
    let own = s.chance(2, 3);
    if own {
        g.nt += 1;
    }
    let t = |s: &mut Source, g: &G| Sym::T(s.below(g.nt as u32) as u8);
    let n = 1 + s.index(6);
    let mut begin: Vec<Sym> = (0..n).map(|_| t(s, g)).collect();
    if own {
        begin[0] = Sym::T(g.nt - 1);
    }
    let last = t(s, g);
    let never = match s.below(5) {
        0 => vec![Sym::V(b), last],
        1 => vec![last, Sym::V(b)],
        2 => vec![Sym::V(b)],
        3 => vec![Sym::V(b), Sym::V(b)],
        _ => vec![Sym::V(a), Sym::V(b)],
    };
    let into = s.below(a as u32) as u8;
    let mut rest = vec![Sym::V(a), Sym::V(b)];
    if s.chance(1, 3) {
        rest.push(t(s, g));
    }
    if s.chance(1, 3) {
        rest.insert(0, t(s, g));
    }
    g.rules.extend([(into, rest), (a, begin), (b, never)]);
    true
}

/// Sentences, near-sentences, prefixes and noise, over `nt` kinds plus one the
/// grammar does not mention.
pub fn words(s: &mut Source, g: &G, rules: &[Rule], n: usize, cap: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let kinds = g.nt as u32 + 1;
    for _ in 0..n {
        let cap = if s.chance(1, 80) { cap * 8 } else { cap };
        if let Some(w) = sentence(s, g, rules, cap) {
            out.push(w.clone());
            let mut m = w.clone();
            match s.below(5) {
                0 => {
                    let k = s.index(m.len() + 1);
                    m.truncate(k);
                }
                1 => m.push(s.below(kinds) as u8),
                2 if !m.is_empty() => {
                    let k = s.index(m.len());
                    m.remove(k);
                }
                3 if !m.is_empty() => {
                    let k = s.index(m.len());
                    m[k] = s.below(kinds) as u8;
                }
                _ => {
                    let k = s.index(m.len() + 1);
                    m.insert(k, s.below(kinds) as u8);
                }
            }
            m.truncate(cap);
            out.push(m);
            if w.len() * 2 <= cap && s.chance(1, 4) {
                let mut d = w.clone();
                d.extend(&w);
                out.push(d);
            }
        } else {
            let len = s.below(6);
            out.push((0..len).map(|_| s.below(kinds) as u8).collect());
        }
    }
    if s.chance(1, 4) {
        out.push(expansion(s, g, rules, cap));
    }
    out.sort();
    out.dedup();
    out
}

/// All words over the first `nt` kinds with at most `limit` words in total.
pub fn short_words(nt: u8, limit: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    loop {
        let next: Vec<Vec<u8>> = last
            .iter()
            .flat_map(|w| {
                (0..nt).map(move |t| {
                    let mut v = w.clone();
                    v.push(t);
                    v
                })
            })
            .collect();
        if out.len() + next.len() > limit || next.is_empty() || next[0].len() > 8 {
            return out;
        }
        out.extend(next.iter().cloned());
        last = next;
    }
}

/// Inserts epsilon symbols into bodies.
pub fn pad(s: &mut Source, g: &G) -> G {
    let mut p = g.clone();
    for (_, b) in &mut p.rules {
        let n = s.weighted(&[3, 4, 2, 1]);
        for _ in 0..n {
            let k = s.index(b.len() + 1);
            b.insert(k, Sym::E);
        }
        if s.chance(1, 40) {
            // many in a row
            let k = s.index(b.len() + 1);
            let n = s.range(3, 24) as usize;
            b.splice(k..k, vec![Sym::E; n]);
        }
    }
    p
}
