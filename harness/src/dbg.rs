//! Readers for the two textual outputs of the parser crate: derived `Debug`
//! text (trees) and dot text (machines). Both look at structure only, not at
//! field names or layout.

use std::collections::BTreeMap;

// --------------------------------------------------------------------- Debug

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Atom(String),
    Comp(Vec<D>),
    List(Vec<D>),
}

struct Rd<'a> {
    c: &'a [u8],
    i: usize,
}

impl Rd<'_> {
    fn ws(&mut self) {
        while self.i < self.c.len() && self.c[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.c.get(self.i).copied().unwrap_or(0)
    }
    fn ident(&mut self) -> String {
        self.ws();
        let s = self.i;
        while self.i < self.c.len() && (self.c[self.i].is_ascii_alphanumeric() || b"_-.".contains(&self.c[self.i])) {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.c[s..self.i]).into()
    }
    fn seq(&mut self, close: u8) -> Result<Vec<D>, String> {
        let mut out = Vec::new();
        loop {
            match self.peek() {
                c if c == close => {
                    self.i += 1;
                    return Ok(out);
                }
                b',' => self.i += 1,
                0 => return Err("unterminated debug text".into()),
                _ => out.push(self.value()?),
            }
        }
    }
    fn value(&mut self) -> Result<D, String> {
        match self.peek() {
            b'[' => {
                self.i += 1;
                return Ok(D::List(self.seq(b']')?));
            }
            b'(' => {
                self.i += 1;
                return Ok(D::Comp(self.seq(b')')?));
            }
            _ => {}
        }
        let id = self.ident();
        if id.is_empty() {
            return Err(format!("unexpected text at {} of the debug output", self.i));
        }
        match self.peek() {
            b'{' => {
                self.i += 1;
                Ok(D::Comp(self.seq(b'}')?))
            }
            b'(' => {
                self.i += 1;
                Ok(D::Comp(self.seq(b')')?))
            }
            b':' => {
                // a field: its name does not matter
                self.i += 1;
                self.value()
            }
            _ => Ok(D::Atom(id)),
        }
    }
}

pub fn read_debug(t: &str) -> Result<D, String> {
    let mut r = Rd { c: t.as_bytes(), i: 0 };
    let v = r.value()?;
    if r.peek() != 0 {
        return Err("trailing debug text".into());
    }
    Ok(v)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tree {
    /// The variable's number, or `None` for a leaf.
    pub var: Option<u8>,
    /// Kind and value of a leaf.
    pub leaf: Option<(u8, u32)>,
    pub kids: Vec<Tree>,
}

fn symbol(d: &D) -> Option<(Option<u8>, Option<(u8, u32)>)> {
    match d {
        D::Atom(a) => {
            if let Some(n) = a.strip_prefix('v').and_then(|x| x.parse().ok()) {
                return Some((Some(n), None));
            }
            let (k, v) = a.strip_prefix('t')?.split_once('_')?;
            Some((None, Some((k.parse().ok()?, v.parse().ok()?))))
        }
        D::Comp(xs) => xs.iter().find_map(symbol),
        D::List(_) => None,
    }
}

pub fn tree(d: &D) -> Option<Tree> {
    match d {
        D::Atom(_) => {
            let (var, leaf) = symbol(d)?;
            Some(Tree { var, leaf, kids: vec![] })
        }
        D::List(_) => None,
        D::Comp(xs) => {
            let lists: Vec<&Vec<D>> = xs.iter().filter_map(|x| if let D::List(l) = x { Some(l) } else { None }).collect();
            match lists.len() {
                0 if xs.len() == 1 => tree(&xs[0]),
                0 => {
                    let (var, leaf) = symbol(d)?;
                    Some(Tree { var, leaf, kids: vec![] })
                }
                1 => {
                    let (var, leaf) = xs.iter().filter(|x| !matches!(x, D::List(_))).find_map(symbol)?;
                    let kids = lists[0].iter().map(tree).collect::<Option<Vec<_>>>()?;
                    Some(Tree { var, leaf, kids })
                }
                _ => None,
            }
        }
    }
}

// ----------------------------------------------------------------------- dot

#[derive(Debug, Default)]
pub struct Dot {
    /// Node label per node statement.
    pub nodes: BTreeMap<String, String>,
    /// (from, to, label)
    pub edges: Vec<(String, String, String)>,
}

#[derive(Clone, Debug, PartialEq)]
enum W {
    Id(String),
    Str(String),
    P(char),
    Arrow,
}

/// Tokens of the dot language (the part without comments, HTML and ports).
fn dot_tokens(t: &str) -> Result<Vec<W>, String> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '"' {
            // only \" is an escape here; other backslashes stay for the label
            let mut s = String::new();
            i += 1;
            loop {
                match c.get(i) {
                    None => return Err("unterminated string".into()),
                    Some('"') => break,
                    Some('\\') => {
                        let Some(n) = c.get(i + 1) else { return Err("unterminated string".into()) };
                        s.push('\\');
                        s.push(*n);
                        i += 2;
                    }
                    Some(x) => {
                        s.push(*x);
                        i += 1;
                    }
                }
            }
            i += 1;
            out.push(W::Str(s));
        } else if ch == '-' && c.get(i + 1) == Some(&'>') {
            out.push(W::Arrow);
            i += 2;
        } else if ch.is_alphanumeric() || ch == '_' || ch == '-' || ch == '.' {
            let s = i;
            i += 1;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.') {
                i += 1;
            }
            out.push(W::Id(c[s..i].iter().collect()));
        } else if "{}[];,=".contains(ch) {
            out.push(W::P(ch));
            i += 1;
        } else {
            return Err(format!("stray character {ch:?} outside a string"));
        }
    }
    Ok(out)
}

pub fn read_dot(t: &str) -> Result<Dot, String> {
    let w = dot_tokens(t)?;
    let mut i = 0;
    let id = |x: Option<&W>| match x {
        Some(W::Id(s)) | Some(W::Str(s)) => Some(s.clone()),
        _ => None,
    };
    if w.first() != Some(&W::Id("digraph".into())) {
        return Err("no digraph".into());
    }
    i += 1;
    if id(w.get(i)).is_some() {
        i += 1;
    }
    if w.get(i) != Some(&W::P('{')) {
        return Err("no opening brace".into());
    }
    i += 1;
    let mut dot = Dot::default();
    loop {
        match w.get(i) {
            None => return Err("no closing brace".into()),
            Some(W::P('}')) => {
                i += 1;
                break;
            }
            Some(W::P(';')) => {
                i += 1;
                continue;
            }
            _ => {}
        }
        let Some(a) = id(w.get(i)) else { return Err(format!("unexpected {:?}", w[i])) };
        i += 1;
        let mut to = None;
        match w.get(i) {
            Some(W::P('=')) => {
                if id(w.get(i + 1)).is_none() {
                    return Err("attribute without value".into());
                }
                i += 2;
                continue;
            }
            Some(W::Arrow) => {
                let Some(b) = id(w.get(i + 1)) else { return Err("edge without target".into()) };
                to = Some(b);
                i += 2;
            }
            _ => {}
        }
        let mut label = None;
        while w.get(i) == Some(&W::P('[')) {
            i += 1;
            loop {
                match w.get(i) {
                    Some(W::P(']')) => {
                        i += 1;
                        break;
                    }
                    Some(W::P(',' | ';')) => i += 1,
                    x => {
                        let Some(k) = id(x) else { return Err(format!("bad attribute list at {x:?}")) };
                        if w.get(i + 1) != Some(&W::P('=')) {
                            return Err(format!("attribute {k:?} without value"));
                        }
                        let Some(v) = id(w.get(i + 2)) else { return Err(format!("attribute {k:?} without value")) };
                        i += 3;
                        if k == "label" {
                            label = Some(v);
                        }
                    }
                }
            }
        }
        match to {
            Some(b) => dot.edges.push((a, b, label.unwrap_or_default())),
            None if matches!(a.as_str(), "node" | "edge" | "graph") => {}
            None => {
                if dot.nodes.insert(a.clone(), label.unwrap_or_default()).is_some() {
                    return Err(format!("node {a} is declared twice"));
                }
            }
        }
    }
    if i != w.len() {
        return Err("text after the closing brace".into());
    }
    Ok(dot)
}

/// Lines of a label with its escapes resolved.
pub fn label_lines(l: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut it = l.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n' | 'l' | 'r') => out.push(String::new()),
                Some(x) => out.last_mut().unwrap().push(x),
                None => {}
            }
        } else if c == '\n' {
            out.push(String::new());
        } else {
            out.last_mut().unwrap().push(c);
        }
    }
    out.retain(|x| !x.trim().is_empty());
    out
}
