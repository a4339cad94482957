//! Generators of patterns and texts.

use crate::engine::Source;
use crate::re::{self, Class, Item, Quant, Re, Set};

const ALPHABETS: &[&[char]] = &[
    &['a', 'b'],
    &['a', 'b', 'c'],
    &['a', 'b', 'c', 'd'],
    &['0', '1', 'x', ' '],
    &['a', 'é', '🌕', '\n'],
    &['*', '(', 'a', '\\', ']'],
    &['+', '-', '7', '.', 'w'],
    &['ß', '→', 'b', '\u{0}'],
    &['a', 'A', 'b', 'B'],
    &['\r', '\n', 'a', ' ', '\t'],
    &['e', '\u{301}', '\u{feff}', '\u{85}'],
    &['_', 'i', 'f', '0', ' '],
    &['<', '=', '>', '-', '/'],
    &['"', '\'', 'k', ',', '}'],
    &['²', '٣', '3', 'Ⅷ', 'ℵ'],
    &['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}'],
];

pub fn alphabet(s: &mut Source) -> &'static [char] {
    ALPHABETS[s.weighted(&[12, 16, 8, 4, 6, 2, 2, 2, 2, 2, 1, 2, 2, 1, 1, 1])]
}

fn class(s: &mut Source) -> Class {
    re::CLASSES[s.weighted(&[4, 2, 1, 2, 1, 1, 1])]
}

pub fn set(s: &mut Source, alpha: &[char]) -> Set {
    match s.weighted(&[14, 2, 3]) {
        0 => Set::Ch(*s.pick(alpha)),
        1 => Set::Class(class(s)),
        _ => {
            let neg = s.chance(1, 3);
            let n = s.weighted(&[0, 80, 80, 40, 18, 2, 1]);
            let n = match n {
                5 => s.range(5, 14) as usize,
                6 => s.range(15, 40) as usize,
                n => n,
            };
            let items = (0..n)
                .map(|_| match s.weighted(&[6, 2, 1]) {
                    0 => Item::Ch(*s.pick(alpha)),
                    1 => {
                        let (a, b) = (*s.pick(alpha), *s.pick(alpha));
                        // mostly forward ranges
                        if a <= b || s.chance(1, 8) {
                            Item::Range(a, b)
                        } else {
                            Item::Range(b, a)
                        }
                    }
                    _ => Item::Class(class(s)),
                })
                .collect();
            Set::Group(neg, items)
        }
    }
}

pub fn quant(s: &mut Source) -> Quant {
    let small = |s: &mut Source| {
        match s.weighted(&[100, 4, 1]) {
            0 => s.weighted(&[2, 4, 5, 3]) as u32,
            1 => s.range(4, 11),
            _ => s.range(12, 40),
        }
    };
    match s.weighted(&[5, 4, 4, 3, 3, 4]) {
        0 => Quant { min: 0, max: None },
        1 => Quant { min: 1, max: None },
        2 => Quant { min: 0, max: Some(1) },
        3 => {
            let n = small(s);
            Quant { min: n, max: Some(n) }
        }
        4 => Quant { min: small(s), max: None },
        _ => {
            let a = small(s);
            let b = small(s);
            if a <= b || s.chance(1, 12) {
                Quant { min: a, max: Some(b) }
            } else {
                Quant { min: b, max: Some(a) }
            }
        }
    }
}

fn item(s: &mut Source, alpha: &[char], depth: u32) -> Re {
    let group = depth > 0 && s.chance(2, 5);
    let x = if group {
        Re::Group(Box::new(expr(s, alpha, depth - 1)))
    } else {
        Re::Set(set(s, alpha))
    };
    if s.chance(if group { 3 } else { 2 }, 5) {
        Re::Rep(Box::new(x), quant(s))
    } else {
        x
    }
}

fn expr(s: &mut Source, alpha: &[char], depth: u32) -> Re {
    let alts = 1 + s.weighted(&[120, 60, 18, 2]);
    let alts = if alts == 4 { s.range(4, 9) as usize } else { alts };
    let mut xs: Vec<Re> = (0..alts)
        .map(|_| {
            let n = 1 + s.weighted(&[100, 100, 40, 18, 2]);
            let n = if n == 5 { s.range(5, 12) as usize } else { n };
            let mut items: Vec<Re> = (0..n).map(|_| item(s, alpha, depth)).collect();
            if items.len() == 1 {
                items.pop().unwrap()
            } else {
                Re::Cat(items)
            }
        })
        .collect();
    if xs.len() == 1 {
        xs.pop().unwrap()
    } else {
        Re::Alt(xs)
    }
}

/// A random expression whose configuration space stays below `cap`.
pub fn pattern(s: &mut Source, alpha: &[char], depth: u32, cap: u64) -> Re {
    for _ in 0..4 {
        let e = expr(s, alpha, depth);
        if re::weight(&e) <= cap {
            return e;
        }
    }
    Re::Set(Set::Ch(*s.pick(alpha)))
}

/// Groups inside groups, most of them repeated, with something around them.
pub fn tower(s: &mut Source, alpha: &[char], cap: u64) -> Re {
    let levels = if s.chance(1, 4) { s.range(9, 24) } else { s.range(3, 8) };
    let mut x = Re::Set(set(s, alpha));
    let mut bounds = 1;
    for _ in 0..levels {
        let mut y = Re::Group(Box::new(x));
        if s.chance(3, 5) {
            let mut q = quant(s);
            let n = q.max.unwrap_or(q.min).max(1) as u64 + 1;
            if bounds * n > cap {
                q = Quant { min: 0, max: None };
            } else {
                bounds *= n;
            }
            y = Re::Rep(Box::new(y), q);
        }
        let mut xs = vec![y];
        if s.chance(2, 5) {
            xs.insert(0, item(s, alpha, 0));
        }
        if s.chance(2, 5) {
            xs.push(Re::Set(set(s, alpha)));
        }
        x = if xs.len() == 1 { xs.pop().unwrap() } else { Re::Cat(xs) };
        if s.chance(1, 6) {
            x = Re::Alt(vec![x, Re::Set(set(s, alpha))]);
        }
    }
    x
}

/// A sequence or alternation of many small parts.
pub fn long(s: &mut Source, alpha: &[char]) -> Re {
    let n = s.range(40, 300) as usize;
    let small = |s: &mut Source| match s.weighted(&[20, 3, 2, 2]) {
        0 => Re::Set(Set::Ch(*s.pick(alpha))),
        1 => Re::Set(set(s, alpha)),
        2 => Re::Rep(Box::new(Re::Set(Set::Ch(*s.pick(alpha)))), quant(s)),
        _ => Re::Group(Box::new(Re::Cat((0..2).map(|_| Re::Set(Set::Ch(*s.pick(alpha)))).collect()))),
    };
    if s.chance(1, 4) {
        Re::Alt(
            (0..n)
                .map(|_| match s.range(1, 8) {
                    1 => small(s),
                    k => Re::Cat((0..k).map(|_| Re::Set(Set::Ch(*s.pick(alpha)))).collect()),
                })
                .collect(),
        )
    } else {
        Re::Cat((0..n).map(|_| small(s)).collect())
    }
}

/// Gives one repetition bounds no text reaches, or an upper bound without effect.
pub fn widen(re: &mut Re, s: &mut Source) {
    match re {
        Re::Empty | Re::Set(_) => {}
        Re::Cat(xs) | Re::Alt(xs) => {
            let i = s.index(xs.len());
            widen(&mut xs[i], s);
        }
        Re::Group(x) => widen(x, s),
        Re::Rep(x, q) => {
            if s.chance(1, 3) {
                return widen(x, s);
            }
            let base = *s.pick(&[255u32, 256, 65_535, 65_536, 131_072, 1 << 24, 1 << 31, u32::MAX - 3]);
            let n = base + s.below(4);
            *q = match s.weighted(&[4, 1, 1, 1]) {
                0 => Quant { min: q.min, max: Some(n) },
                1 => Quant { min: n, max: Some(n) },
                2 => Quant { min: n, max: None },
                _ => Quant { min: n, max: Some(n.saturating_add(2)) },
            };
        }
    }
}

/// A string of literals.
pub fn word(s: &mut Source, alpha: &[char], max: u32) -> Re {
    let max = if s.chance(1, 50) { 20 } else { max };
    let n = s.range(1, max);
    let xs: Vec<Re> = (0..n).map(|_| Re::Set(Set::Ch(*s.pick(alpha)))).collect();
    if xs.len() == 1 {
        xs.into_iter().next().unwrap()
    } else {
        Re::Cat(xs)
    }
}

/// Characters to try for a set: those of the alphabet that belong to it.
fn member_char(set: &Set, s: &mut Source, alpha: &[char]) -> Option<char> {
    let c: Vec<char> = alpha.iter().copied().filter(|c| set.has(*c)).collect();
    if !c.is_empty() {
        return Some(*s.pick(&c));
    }
    let extra = ['a', 'Z', '0', '9', ' ', '\n', '_', 'é', '🌕', '~', '\u{0}', '٣'];
    let c: Vec<char> = extra.iter().copied().filter(|c| set.has(*c)).collect();
    if !c.is_empty() {
        return Some(*s.pick(&c));
    }
    if let Set::Group(false, items) = set {
        for i in items {
            match i {
                Item::Ch(c) => return Some(*c),
                Item::Range(a, b) if a <= b => return Some(if s.chance(1, 2) { *b } else { *a }),
                _ => {}
            }
        }
    }
    if let Set::Ch(c) = set {
        return Some(*c);
    }
    None
}

/// Appends a (usually) member string of the expression.
pub fn sample(re: &Re, s: &mut Source, alpha: &[char], out: &mut Vec<char>, cap: usize) {
    if out.len() >= cap {
        return;
    }
    match re {
        Re::Empty => {}
        Re::Set(set) => {
            if let Some(c) = member_char(set, s, alpha) {
                out.push(c);
            }
        }
        Re::Cat(xs) => {
            for x in xs {
                sample(x, s, alpha, out, cap);
            }
        }
        Re::Alt(xs) => {
            let i = s.index(xs.len());
            sample(&xs[i], s, alpha, out, cap);
        }
        Re::Group(x) => sample(x, s, alpha, out, cap),
        Re::Rep(x, q) => {
            let hi = q.max.unwrap_or(q.min.saturating_add(3));
            let lo = q.min.min(hi);
            let hi = hi.min(lo.saturating_add(6));
            let n = (lo + s.below(hi - lo + 1)).min(64);
            for _ in 0..n {
                if out.len() >= cap {
                    return;
                }
                sample(x, s, alpha, out, cap);
            }
        }
    }
}

/// Small random edits of a string.
pub fn mutate(w: &mut Vec<char>, s: &mut Source, alpha: &[char]) {
    let n = s.weighted(&[0, 5, 2, 1]);
    for _ in 0..n {
        match s.weighted(&[3, 3, 3, 2, 2]) {
            0 => {
                let c = *s.pick(alpha);
                let i = s.index(w.len() + 1);
                w.insert(i, c);
            }
            1 if !w.is_empty() => {
                let i = s.index(w.len());
                w.remove(i);
            }
            2 if !w.is_empty() => {
                let i = s.index(w.len());
                w[i] = *s.pick(alpha);
            }
            3 => {
                let k = s.index(w.len() + 1);
                w.truncate(k);
            }
            4 if !w.is_empty() => {
                let i = s.index(w.len());
                let c = w[i];
                w.insert(i, c);
            }
            _ => {}
        }
    }
}

/// A list of patterns over one alphabet, some related to each other.
pub fn patterns(s: &mut Source, alpha: &[char], max: u32) -> Vec<Re> {
    let n = 1 + s.below(max) as usize;
    let mut out: Vec<Re> = Vec::new();
    for i in 0..n {
        let p = match s.weighted(&[5, 3, 2, 2]) {
            0 => word(s, alpha, 4),
            1 => pattern(s, alpha, 1, 60),
            2 => pattern(s, alpha, 2, 120),
            // an earlier pattern, extended: forces overruns and ties
            _ if i > 0 => {
                let base = out[s.index(i)].clone();
                let tail = if s.chance(1, 2) { word(s, alpha, 3) } else { item(s, alpha, 0) };
                let base = match base {
                    Re::Cat(_) | Re::Set(_) | Re::Rep(..) | Re::Group(_) => base,
                    other => Re::Group(Box::new(other)),
                };
                Re::Cat(vec![base, tail])
            }
            _ => word(s, alpha, 3),
        };
        out.push(flatten(p));
    }
    if out.len() > 1 && s.chance(1, 5) {
        // something for every character, last or first
        let any = Re::Set(Set::Class(Class::Any));
        if s.chance(1, 6) {
            out[0] = any;
        } else {
            *out.last_mut().unwrap() = any;
        }
    }
    out
}

/// Joins nested concatenations so the tree is the one its text denotes.
pub fn flatten(re: Re) -> Re {
    match re {
        Re::Cat(xs) => {
            let mut out = Vec::new();
            for x in xs {
                match flatten(x) {
                    Re::Cat(ys) => out.extend(ys),
                    y => out.push(y),
                }
            }
            if out.len() == 1 {
                out.pop().unwrap()
            } else {
                Re::Cat(out)
            }
        }
        Re::Alt(xs) => {
            let mut out = Vec::new();
            for x in xs {
                match flatten(x) {
                    Re::Alt(ys) => out.extend(ys),
                    y => out.push(y),
                }
            }
            Re::Alt(out)
        }
        Re::Group(x) => Re::Group(Box::new(flatten(*x))),
        Re::Rep(x, q) => Re::Rep(Box::new(flatten(*x)), q),
        x => x,
    }
}

/// A text made of members of the patterns, near-members and noise.
pub fn text(s: &mut Source, alpha: &[char], pats: &[Re], cap: usize) -> Vec<char> {
    let mut out = Vec::new();
    // either members only, which keeps a lexer going, or a mixture
    let tame = s.chance(2, 5);
    let segs = if s.chance(1, 20) { 0 } else { s.range(1, if cap > 64 { 90 } else { 8 }) };
    for _ in 0..segs {
        match s.weighted(if tame { &[12, 1, 0, 0] } else { &[6, 4, 3, 1] }) {
            0 => {
                let p = s.index(pats.len());
                sample(&pats[p], s, alpha, &mut out, cap);
            }
            1 => {
                let p = s.index(pats.len());
                let mut w = Vec::new();
                sample(&pats[p], s, alpha, &mut w, 14);
                mutate(&mut w, s, alpha);
                out.extend(w);
            }
            2 => {
                let n = s.below(4);
                for _ in 0..n {
                    out.push(*s.pick(alpha));
                }
            }
            _ => out.push(*s.pick(&['!', 'q', 'é', '\n', '9', '\u{10FFFF}'])),
        }
    }
    out.truncate(cap);
    out
}

/// Every string over `alpha` of at most `len` characters.
pub fn all_strings(alpha: &[char], len: usize) -> Vec<Vec<char>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..len {
        let mut next = Vec::new();
        for w in &last {
            for c in alpha {
                let mut v: Vec<char> = w.clone();
                v.push(*c);
                next.push(v);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
