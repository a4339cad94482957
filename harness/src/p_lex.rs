//! Properties of the lexer, C01 to C09.

use crate::engine::{guarded, Cx, Source};
use crate::gen;
use crate::lx::{self, lex, lex_more, Tok};
use crate::re::{self, Class, Item, Quant, Re, Set};
use crate::work::Call;
use pango_lexer::Lexer;

type R = Result<(), String>;

fn string(cs: &[char]) -> String {
    cs.iter().collect()
}

fn texts(pats: &[Re]) -> Vec<String> {
    pats.iter().map(re::text).collect()
}

fn describe(pats: &[String], text: &str) -> String {
    if text.len() > 8000 {
        let start: String = text.chars().take(40).collect();
        return format!("{} patterns on {} characters {start:?}...", pats.len(), text.chars().count());
    }
    format!("patterns {pats:?} on {text:?}")
}

/// What the reference lexer saw, for labels.
struct Shape {
    toks: Vec<re::RefTok>,
    stop: usize,
    overrun: bool,
    tie: bool,
    nested: bool,
}

fn shape(pats: &[Re], text: &[char]) -> Shape {
    let (toks, stop) = re::ref_lex(pats, text);
    let mut overrun = false;
    let mut tie = false;
    let mut starts: Vec<(usize, usize)> = toks.iter().map(|t| (t.1, t.2)).collect();
    if stop < text.len() {
        starts.push((stop, stop));
    }
    for (at, end) in starts {
        let mut from = re::Bits::new(text.len());
        from.set(at);
        let mut winners = 0;
        for p in pats {
            let mut hw = at;
            let m = re::step_hw(p, text, &from, &mut hw);
            if m.max() == Some(end) && end > at {
                winners += 1;
            }
            overrun |= hw > end;
        }
        tie |= winners > 1;
    }
    Shape { toks, stop, overrun, tie, nested: pats.iter().any(re::nested_quant) }
}

fn label(cx: &mut Cx, sh: &Shape, text: &[char]) {
    cx.label_if(sh.overrun, "overrun (backs off from a longer attempt)");
    cx.label_if(sh.tie, "tie between patterns");
    cx.label_if(sh.stop < text.len(), "stops before the end");
    cx.label_if(sh.nested, "nested quantifiers");
    cx.label_if(text.iter().any(|c| !c.is_ascii()), "multi-byte text");
    cx.label_if(sh.toks.len() >= 4, "four or more tokens");
    cx.label_if(sh.toks.len() >= 40, "forty or more tokens");
    cx.label_if(sh.toks.iter().any(|t| t.2 - t.1 >= 32), "token of 32 or more characters");
    cx.label_if(text.len() > 64, "text of more than 64 characters");
    cx.nontrivial = sh.toks.len() >= 2 && (sh.overrun || sh.tie || sh.nested);
}

fn gen_case(s: &mut Source) -> (Vec<Re>, Vec<char>) {
    let alpha = gen::alphabet(s);
    // mostly small; a tail with many patterns, with long texts, or with both
    let many = s.chance(1, 30);
    let long = s.chance(1, 60);
    let pats = gen::patterns(s, alpha, if many { 14 } else { 5 });
    // backing off makes lexing quadratic: long texts go with small patterns
    let weight: u64 = pats.iter().map(re::weight).sum();
    let cap = if long { (6_000 / weight.max(1)).clamp(36, 300) as usize } else { 36 };
    let text = gen::text(s, alpha, &pats, cap);
    (pats, text)
}

fn own(pats: &[Re]) -> Result<(), String> {
    // the harness's two views of a pattern must agree
    for p in pats {
        let t = re::text(p);
        match re::parse(&t) {
            Ok(q) if q == *p => {}
            other => panic!("harness error: {t:?} denotes {p:?} but reads as {other:?}"),
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------ C01

fn check_c01(pats: &[Re], text: &[char], cx: &mut Cx) -> R {
    let pt = texts(pats);
    let st = string(text);
    cx.describe(describe(&pt, &st));
    let sh = shape(pats, text);
    label(cx, &sh, text);
    let want: Vec<Tok> = sh
        .toks
        .iter()
        .map(|(k, a, b)| Tok { kind: *k, source: string(&text[*a..*b]), pos: (*a, *b) })
        .collect();
    cx.comparisons += 1;
    let got = lex(&pt, &st).map_err(|e| e.text())?;
    if got != want {
        return Err(format!("yields {} but longest match gives {}", lx::show(&got), lx::show(&want)));
    }
    Ok(())
}

pub fn c01(s: &mut Source, cx: &mut Cx) -> R {
    let (pats, text) = gen_case(s);
    own(&pats)?;
    check_c01(&pats, &text, cx)
}

/// Explicit pattern lists and texts: past defects and boundary shapes.
const LEX_CASES: &[(&[&str], &str)] = &[
    (&["a", "abcx", "b", "c", "d"], "abcd"),
    (&["a", "abc"], "ab"),
    (&["b{4}"], "bbbbbb"),
    (&["ab"], "xab"),
    (&["(a*b){2}"], "aabab"),
    (&["((a){2}b){2}"], "aabaab"),
    (&["a", "b", "c", "abcdef", "bcdeg", "d", "e"], "abcdeabcde"),
    (&["ab*c", "a", "b"], "abbbabbbcabb"),
    (&["a", "a"], "aa"),
    (&["a+", "a"], "aaa"),
    (&["if", r"\w+", r"\s+"], "if iffy fi"),
    (&[""], "a"),
    (&["", "a"], "aa"),
    (&["a*"], "baa"),
    (&["é→", "é", "→+"], "é→é→→→é"),
    (&["a{0}", "b"], "ab"),
    (&["a{0}b", "a"], "ba"),
    (&["(ab){2,3}", "a", "b"], "ababababab"),
    (&["x.*y", "x", "[^y]"], "xabxy xab"),
];

fn parsed<S: AsRef<str>>(pats: &[S]) -> Vec<Re> {
    pats.iter().map(|p| re::parse(p.as_ref()).expect("explicit pattern")).collect()
}

/// Fixed cases of a size the generator does not reach, and whole lexers as one
/// would write them.
fn scale_case(i: usize) -> Option<(Vec<String>, String)> {
    let own = |p: &[&str]| p.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    const KEYWORDS: &[&str] = &[
        "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl",
        "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static",
        "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn",
        "abstract", "become", "box", "do",
    ];
    const PROGRAM: &str = "int main(void) {\n\tint _x1 = 0x1F + 42 - 7.5e3; // sum\n\tif (_x1 <= 10 && !done) { x->y = x--; z <<= 2; }\n\t/* block * comment **/ char *s = \"a \\\" quote\";\n\treturn x1...y;\n}\n";
    Some(match i {
        0 => {
            let mut p = own(KEYWORDS);
            p.extend(own(&[r"[_a-zA-Z][_a-zA-Z\d]*", r"\s+", r"\d+"]));
            let mut t = String::new();
            for k in KEYWORDS {
                t += &format!("{k} {k}x {} {k}1\n", &k[..k.len() - 1]);
            }
            (p, t)
        }
        1 => {
            // the general pattern first: it wins every tie
            let mut p = own(&[r"[a-zA-Z]+", r"\s"]);
            p.extend(own(KEYWORDS));
            (p, KEYWORDS.join(" "))
        }
        2 => (own(&["a+", "b"]), format!("{}b{}bb", "a".repeat(3000), "a".repeat(255))),
        3 => (own(&["a", "a*b"]), "a".repeat(300)),
        4 => {
            let p: Vec<String> = ('a'..='z').chain('A'..='Z').chain('0'..='9').map(String::from).collect();
            let t: String = (0..400usize).map(|k| p[k * 37 % p.len()].clone()).collect();
            (p, t)
        }
        5 => {
            let w = "abcdefghij".repeat(26);
            let t = format!("{w}{}x{w}!", &w[..w.len() - 1]);
            (own(&[&w, "[a-j]", "x"]), t)
        }
        6 => (own(&["(ab){100}", "ab", "b"]), format!("{}b{}", "ab".repeat(199), "ab".repeat(101))),
        7 => (own(&[&format!("{}a{}*b", "(".repeat(150), ")".repeat(150)), "a"]), "aaabaaa".into()),
        8 => (
            own(&[
                "int", "char", "void", "if", "return", r"[_a-zA-Z]\w*", r"[_a-zA-Z][_\w]*", r"0x[\da-fA-F]+", r"\d+",
                r"\d+\.\d+(e[\+\-]?\d+)?", r"//[^\n]*", r"/\*([^\*]|\*+[^\*/])*\*+/", r#""([^"\\]|\\.)*""#, r"\s+",
                r"\(", r"\)", r"\{", r"\}", "=", "==", "<", "<=", "<<", "<<=", r"\-", r"\-\-", r"\->", r"\+", r"\*", "/",
                "!", "&&", ";", r"\.", r"\.\.\.", ",",
            ]),
            PROGRAM.into(),
        ),
        9 => (own(&[r"\d+", r"\d+\.\d+", r"\.\.", r"\.", " "]), "1..2 1.5 1. 1.. 12..34.56.78...9".into()),
        10 => (
            own(&[r"\+", r"\+\+", r"\+=", "<", "<<", "<<=", "<=", "<=>", r"\-", r"\->", r"\-\-", "=", "==", "==="]),
            "+++=<<<<=<=>=->--->===<=<=>=====+-+<<=>".into(),
        ),
        11 => (own(&["é{3}", "é", "🌕+é", "🌕"]), format!("{}{}é{}", "é".repeat(500), "🌕".repeat(40), "🌕".repeat(9))),
        12 => (own(&["a", "b", "."]), "abc\n".repeat(1200)),
        13 => (own(&["\r\n", "\n", "\r", "[^\r\n]+"]), "one\r\ntwo\nthree\r\rfour\n\r\n\u{85}five\u{2028}".into()),
        14 => (own(&["\u{feff}", r"\w+", r"\s", "."]), "\u{feff}a\u{feff} e\u{301}\u{200d}x\u{0}".into()),
        15 => (own(&[r"[a-z]+", r"[a-z]+[0-9]", r"[a-z]+[0-9][0-9]+x", "[0-9]"]), "ab1cd12ef123xgh12345678901234567890y".into()),
        16 => (own(&["a{256}", "a{255}", "a"]), format!("{}b", "a".repeat(256 * 2 + 255 + 3))),
        17 => {
            // every pattern is a prefix of the next, and the last one never ends
            let p: Vec<String> = (1..=40).rev().map(|n| "a".repeat(n * 3)).chain([r"a*z".into()]).collect();
            (p, "a".repeat(400))
        }
        _ => return None,
    })
}

const SCALE_CASES: usize = 18;

/// Patterns, and the tokens of a text too long for the reference lexer.
fn huge_case(i: usize) -> Option<(Vec<String>, Vec<(usize, String)>)> {
    let own = |p: &[&str]| p.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let a = |n| "a".repeat(n);
    Some(match i {
        0 => {
            let p: Vec<String> = (0..300).map(|k| format!("w{k:03}")).chain(own(&["w", r"\d", r"w\d"])).collect();
            let mut t = Vec::new();
            for k in 0..600 {
                let k = k * 137 % 300;
                t.push((k, format!("w{k:03}")));
                t.push((300, "w".into()));
            }
            t.push((299, "w299".into()));
            t.push((302, "w3".into()));
            t.push((301, "0".into()));
            (p, t)
        }
        1 => (own(&["a+", "b"]), vec![(0, a(70_000)), (1, "b".into()), (0, a(65_536)), (1, "b".into()), (0, a(65_535))]),
        2 => (own(&["a", "b", "."]), (0..70_000).map(|k| (k % 3, ["a", "b", "c"][k % 3].to_string())).collect()),
        3 => {
            let words = ["éa", "🌕", "aé🌕a", " "];
            (own(&[" ", "[éa🌕]+"]), (0..40_000).map(|k| if k % 2 == 0 { (1, words[k / 2 % 3].to_string()) } else { (0, " ".into()) }).collect())
        }
        4 => (
            own(&["a{65536}", "a{65537}", "b", "a{3}"]),
            vec![(1, a(65_537)), (1, a(65_537)), (0, a(65_536)), (2, "b".into()), (0, a(65_536)), (2, "b".into()), (3, a(3))],
        ),
        5 => (own(&["a{70000,}", "b", "(ab){33000}"]), vec![(0, a(70_000)), (1, "b".into()), (0, a(70_001)), (1, "b".into()), (2, "ab".repeat(33_000))]),
        6 => {
            let long = "abcdefghijklmnopqrstuvwxyz".repeat(110);
            (own(&[&long, "[a-z]", "!"]), vec![(0, long.clone()), (2, "!".into()), (0, long)])
        }
        7 => {
            // many alternatives and many ranges in one pattern
            let words: Vec<String> = (0..300).map(|k| format!("x{k:03}y")).collect();
            let ranges: String = (0..300u32).map(|k| { let c = |n| char::from_u32(0x4E00 + n).unwrap(); format!("{}-{}", c(4 * k), c(4 * k + 1)) }).collect();
            let p = vec![words.join("|"), format!("[{ranges}]"), format!("[^{ranges}xy0-9]")];
            let mut t: Vec<(usize, String)> = words.iter().map(|w| (0, w.clone())).collect();
            for n in 0..1200u32 {
                t.push((if n % 4 < 2 { 1 } else { 2 }, char::from_u32(0x4E00 + n).unwrap().to_string()));
            }
            (p, t)
        }
        _ => return None,
    })
}

/// The patterns, the text and its tokens.
fn huge(i: usize, cx: &mut Cx) -> Option<(Vec<String>, String, Vec<Tok>)> {
    let (p, toks) = huge_case(i)?;
    let text: String = toks.iter().map(|t| t.1.as_str()).collect();
    cx.describe(format!("{} patterns, a text of {} characters in {} tokens", p.len(), text.chars().count(), toks.len()));
    cx.label("text of more than 64 characters");
    cx.nontrivial = true;
    let mut at = 0;
    let toks = toks.into_iter().map(|(kind, source)| {
        let from = at;
        at += source.chars().count();
        Tok { kind, source, pos: (from, at) }
    });
    let toks = toks.collect();
    Some((p, text, toks))
}

/// Fails at the first difference of two lists of tokens.
fn same_tokens(what: &str, got: &[Tok], want: &[Tok]) -> R {
    let short = |t: Option<&Tok>| t.map(|t| (t.kind, t.pos, t.source.chars().take(20).collect::<String>()));
    match (0..=want.len().max(got.len())).find(|k| got.get(*k) != want.get(*k)) {
        None => Ok(()),
        Some(k) => Err(format!("{what}: token {k} is {:?} and should be {:?}", short(got.get(k)), short(want.get(k)))),
    }
}

fn check_huge(i: usize, cx: &mut Cx) -> Option<R> {
    let (p, text, want) = huge(i, cx)?;
    cx.comparisons += 1;
    Some(lex(&p, &text).map_err(|e| e.text()).and_then(|got| same_tokens(&format!("large case {i}"), &got, &want)))
}

pub fn c01_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let Some((p, t)) = LEX_CASES.get(i) else {
        let Some((p, t)) = scale_case(i - LEX_CASES.len()) else {
            return check_huge(i - LEX_CASES.len() - SCALE_CASES, cx);
        };
        let t: Vec<char> = t.chars().collect();
        return Some(check_c01(&parsed(&p), &t, cx));
    };
    let t: Vec<char> = t.chars().collect();
    Some(check_c01(&parsed(p), &t, cx))
}

// ------------------------------------------------------------------------ C02

fn check_c02(pt: &[String], text: &[char], cx: &mut Cx) -> R {
    let st = string(text);
    cx.describe(describe(pt, &st));
    let toks = lex(pt, &st).map_err(|e| e.text())?;
    let mut at = 0;
    for (i, t) in toks.iter().enumerate() {
        cx.comparisons += 1;
        if t.pos.0 != at {
            return Err(format!("token {i} starts at {}, not at {at}", t.pos.0));
        }
        if t.pos.1 <= t.pos.0 || t.pos.1 > text.len() {
            return Err(format!("token {i} has the range {:?}", t.pos));
        }
        if t.source != string(&text[t.pos.0..t.pos.1]) {
            return Err(format!(
                "token {i} {:?} does not carry the text {:?} of its range",
                t.source.chars().take(100).collect::<String>(),
                string(&text[t.pos.0..t.pos.1.min(t.pos.0 + 100)])
            ));
        }
        at = t.pos.1;
    }
    // restarting at any boundary gives the same rest; of very many, some
    let step = toks.len() / if text.len() > 2500 { 2 } else { 24 } + 1;
    for cut in (1..=toks.len()).filter(|c| c % step == 0 || *c == toks.len()) {
        let from = toks[cut - 1].pos.1;
        let rest = string(&text[from..]);
        let fresh = lex(pt, &rest).map_err(|e| e.text())?;
        let shifted: Vec<Tok> = fresh
            .into_iter()
            .map(|t| Tok { pos: (t.pos.0 + from, t.pos.1 + from), ..t })
            .collect();
        cx.comparisons += 1;
        same_tokens(&format!("restarted at {from}"), &shifted, &toks[cut..])?;
    }
    Ok(())
}

pub fn c02(s: &mut Source, cx: &mut Cx) -> R {
    let (pats, text) = gen_case(s);
    own(&pats)?;
    let sh = shape(&pats, &text);
    label(cx, &sh, &text);
    check_c02(&texts(&pats), &text, cx)
}

pub fn c02_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let Some((p, t)) = LEX_CASES.get(i) else {
        let Some((p, t)) = scale_case(i - LEX_CASES.len()) else {
            let (p, t, _) = huge(i - LEX_CASES.len() - SCALE_CASES, cx)?;
            return Some(check_c02(&p, &t.chars().collect::<Vec<_>>(), cx));
        };
        let t: Vec<char> = t.chars().collect();
        label(cx, &shape(&parsed(&p), &t), &t);
        return Some(check_c02(&p, &t, cx));
    };
    let t: Vec<char> = t.chars().collect();
    let pats = parsed(p);
    label(cx, &shape(&pats, &t), &t);
    Some(check_c02(&texts(&pats), &t, cx))
}

// ------------------------------------------------------------------------ C03

/// The longest match at the start of the text, as the lexer sees it.
fn lexer_longest(pattern: &str, text: &str) -> Result<Option<usize>, String> {
    let _call = Call::enter();
    let b = Lexer::builder()
        .with_token_unit(pattern, 0usize)
        .map_err(|e| format!("valid pattern {pattern:?} was rejected: {}", e.to_string().trim()))?;
    let mut l = b.tokenize(text);
    match l.next() {
        None => Ok(None),
        Some(t) if t.pos.0 == 0 && t.pos.1 > 0 => Ok(Some(t.pos.1)),
        Some(t) => Err(format!("{pattern:?} on {text:?}: first token at {:?}", t.pos)),
    }
}

fn check_c03(p: &Re, words: &[Vec<char>], cx: &mut Cx) -> R {
    let pt = re::text(p);
    let wrapped = Re::Cat(vec![
        if *p == Re::Empty { Re::Empty } else { Re::Group(Box::new(p.clone())) },
        Re::Set(Set::Ch('!')),
    ]);
    let wt = re::text(&wrapped);
    cx.describe(format!("pattern {pt:?} on {} strings", words.len()));
    cx.label_if(re::nested_quant(p), "nested quantifiers");
    cx.label_if(re::empty_rounds(p), "quantified part matching the empty string");
    cx.label_if(re::nullable(p), "matches the empty string");
    cx.label_if(re::depth(p) >= 2, "groups nested two deep or more");
    let (mut yes, mut no) = (0, 0);
    for w in words {
        let mut wx = w.clone();
        wx.push('!');
        if re::matches(p, w) {
            yes += 1;
        } else {
            no += 1;
        }
        for (pattern, tree, text) in [(&pt, p, w), (&wt, &wrapped, &wx)] {
            let want = re::longest(tree, text, 0);
            let st = string(text);
            let got = lexer_longest(pattern, &st)?;
            cx.comparisons += 1;
            if got != want {
                return Err(format!(
                    "pattern {pattern:?} on {st:?} matches {got:?} characters, its language says {want:?}"
                ));
            }
        }
    }
    cx.nontrivial = yes > 0 && no > 0 && matches!(p, Re::Rep(..) | Re::Cat(_) | Re::Alt(_));
    Ok(())
}

fn words_for(s: &mut Source, p: &Re, alpha: &[char], n: usize, longest: usize) -> Vec<Vec<char>> {
    let mut words = Vec::new();
    for _ in 0..n {
        let mut w = Vec::new();
        gen::sample(p, s, alpha, &mut w, longest);
        words.push(w.clone());
        gen::mutate(&mut w, s, alpha);
        words.push(w);
    }
    let short = match alpha.len() {
        0..=2 => 4,
        3 => 3,
        _ => 2,
    };
    words.extend(gen::all_strings(alpha, short));
    words.sort();
    words.dedup();
    words
}

pub fn c03(s: &mut Source, cx: &mut Cx) -> R {
    let alpha = gen::alphabet(s);
    let depth = s.range(0, 3);
    let cap = if s.chance(1, 20) { 600 } else { 160 };
    let mut p = if s.chance(1, 25) { gen::tower(s, alpha, 150) } else { gen::pattern(s, alpha, depth, cap) };
    if s.chance(1, 25) {
        gen::widen(&mut p, s);
    }
    let long = s.chance(1, 40);
    if long {
        p = gen::long(s, alpha);
    }
    let p = gen::flatten(p);
    own(std::slice::from_ref(&p))?;
    cx.label_if(long, "long sequence or alternation");
    if long {
        let words = words_for(s, &p, alpha, 2, 1000);
        return check_c03(&p, &words, cx);
    }
    let longest = if s.chance(1, 25) { 120 } else { 24 };
    let words = words_for(s, &p, alpha, 6, longest);
    check_c03(&p, &words, cx)
}

const RE_CASES: &[&str] = &[
    "(a*b){2}",
    "((a){2}b){2}",
    "(a*)*",
    "(a?)+",
    "(a?){3}b",
    "(a*){2,3}b",
    "(a|ab)(c|bcd)(d*)",
    "((a|b)*ab){2}",
    "(a{2,3}){2}",
    "(a{2}){2,3}b",
    "a{2,1}",
    "(a|b{2,1})+",
    "((a{0,2}b?){2}a){1,2}",
    "((a?b?)*){2}",
    "(a{0})*b",
    "((ab?)+a){2}",
    "(a|b)|ab",
    "a|b|ab",
    "a(b|a{2})*a?",
    "(((a)))",
    "(((a)?b){2})?a",
    "[]",
    "[^]",
    "a[]|b",
    "",
    "(b|(a{1,2}b){2})*",
    "(a+){3}",
    "(a+b*){2,}",
    "((a|b){2}){2}",
    "(aa|aaa)*",
];

/// Bounds beyond the generated ones, with a unit to repeat around them.
const BOUND_CASES: &[(&str, &str, &[usize])] = &[
    ("a{127}", "a", &[126, 127, 128, 255]),
    ("a{128}", "a", &[127, 128, 129]),
    ("a{255}", "a", &[254, 255, 256, 510]),
    ("a{256}", "a", &[255, 256, 257, 511, 512]),
    ("a{257}", "a", &[1, 256, 257, 258]),
    ("(ab){256}", "ab", &[0, 255, 256, 257]),
    ("(ab){300}", "ab", &[44, 299, 300, 301]),
    ("a{250,260}", "a", &[4, 249, 250, 255, 256, 259, 260, 261]),
    ("a{300,}", "a", &[44, 299, 300, 301, 700]),
    ("(a{16}){17}", "a", &[16, 17, 271, 272, 273]),
    ("(a{3}b?){100}", "aaa", &[99, 100, 101]),
    ("(a|b){300}", "ab", &[22, 149, 150, 151]),
    ("[ab]{0,300}", "ba", &[0, 1, 149, 150, 151]),
    ("(a?){260}", "a", &[0, 1, 259, 260, 261]),
    ("(a*b){64}", "aab", &[63, 64, 65]),
    ("a{1000}", "a", &[999, 1000, 1001]),
    ("a{0,4294967295}", "a", &[0, 1, 300]),
    ("a{4294967295}", "a", &[0, 1, 300]),
    ("(a{2}){4294967295}", "a", &[0, 1, 300]),
    ("a{2,4294967295}", "a", &[1, 2, 300]),
    ("a{4294967294,}", "a", &[0, 1, 300]),
    ("a{65535}", "a", &[0, 1, 2, 300]),
    ("a{65536}", "a", &[0, 1, 2, 300]),
    ("a{65537}", "a", &[0, 1, 2, 300]),
    ("a{65536,65538}", "a", &[0, 1, 2, 3, 300]),
    ("a{65537,}", "a", &[0, 1, 2, 300]),
    ("a{2,65537}", "a", &[0, 1, 2, 3, 300]),
    ("a{0,65536}", "a", &[0, 1, 2, 300]),
    ("(ab){65537}", "ab", &[0, 1, 2, 200]),
    ("(ab?){131073,131074}", "ab", &[0, 1, 2, 200]),
    ("(a|b){16777217}", "ab", &[0, 1, 2, 200]),
    ("a{2147483648}", "a", &[0, 1, 2, 300]),
    ("a{2147483649,}", "a", &[0, 1, 2, 300]),
    ("a{1,2147483648}", "a", &[0, 1, 2, 300]),
    ("(a{2}b){1,4294967295}", "aab", &[0, 1, 2, 100]),
    ("((((((((a)b)*c)+d){2}e)?f)g)+h)*", "abcdabcdefgh", &[0, 1, 2, 9]),
    ("((((((((((((a){2})))))))))))b", "aab", &[0, 1, 2]),
    ("(((((((((((((((((a))+b)?)))))))))*)))))c", "aabab", &[0, 1, 2]),
    ("(x(x(x(x(x(x(x(x(x(a|b){2}y)*y)*y)*y)*y)*y)*y)*y)*y)", "xxxxxxxxxabyyyyyyyyy", &[0, 1, 2]),
    ("(ab{3}c?){40}", "abbb", &[39, 40, 41]),
    ("((a{2}b){3}c){12}", "aabaabaabc", &[11, 12, 13]),
    ("(((a{2}){2}){2}){2}", "a", &[15, 16, 17]),
    ("((((a|b)*c)*d)*e)*", "abcabcdabcde", &[0, 1, 2, 7]),
    ("(((((((a?b)?c)?d)?e)?f)?g)?h)*", "abcdefgh", &[0, 1, 2, 9]),
];

/// Patterns of many parts, with a unit to repeat as in [`BOUND_CASES`].
fn c03_long(i: usize) -> Option<(String, String, Vec<usize>)> {
    let letters: String = ('a'..='z').chain('A'..='Z').collect();
    let word = letters.repeat(8);
    Some(match i {
        0 => (letters.repeat(8), letters, vec![0, 1, 2, 5, 7, 8, 9]),
        1 => ("ab".repeat(300), "ab".into(), vec![1, 63, 64, 127, 128, 129, 299, 300, 301]),
        2 => ("(ab|c)".repeat(140), "abc".into(), vec![1, 69, 70, 71]),
        3 => ("[ab]c?".repeat(70), "abc".into(), vec![1, 34, 35, 36]),
        4 => ("a?".repeat(70), "a".into(), vec![0, 1, 69, 70, 71]),
        5 => ("a+b".repeat(130), "aab".into(), vec![1, 129, 130, 131]),
        6 => ("(a)".repeat(280), "a".into(), vec![1, 127, 128, 255, 256, 279, 280, 281]),
        7 => ("a{1}".repeat(270), "a".into(), vec![1, 127, 128, 255, 256, 269, 270, 271]),
        8 => ((1..=270).map(|n| "a".repeat(n % 40) + &n.to_string()).collect::<Vec<_>>().join("|"), "a".into(), vec![0, 1, 5]),
        9 => ((0..300).map(|n| word[n..n + 3].to_string()).collect::<Vec<_>>().join("|"), "YZa".into(), vec![0, 1, 2]),
        10 => (format!("({}){{2}}", letters.repeat(3)), letters, vec![1, 3, 5, 6, 7]),
        11 => (format!("({})*", ["ab"; 150].join("|")), "ab".into(), vec![0, 1, 40]),
        12 => ("(".repeat(150) + "(ab)*" + &")".repeat(150), "ab".into(), vec![0, 1, 2, 5]),
        13 => ("(".repeat(150) + "ab" + &")".repeat(150) + "*", "ab".into(), vec![0, 1, 2, 5]),
        14 => ("(".repeat(70) + "(ab|c){2}" + &")".repeat(35) + "?" + &")".repeat(35) + "{2}", "ab".into(), vec![0, 1, 2, 3, 4, 5]),
        15 => ("(".repeat(300) + "[ab]?" + &")".repeat(300), "a".into(), vec![0, 1, 2]),
        16 => ("(".repeat(270) + "ab" + &"|c)".repeat(270) + "+", "abc".into(), vec![0, 1, 2, 3]),
        17 => ("(".repeat(40) + "ab" + &"){1}".repeat(40), "ab".into(), vec![0, 1, 2]),
        18 => ("(a".repeat(200) + "(b)+" + &")".repeat(200), "a".into(), vec![1, 199, 200, 201]),
        _ => return None,
    })
}

pub fn c03_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    if let Some(k) = i.checked_sub(RE_CASES.len() + BOUND_CASES.len()) {
        let (p, unit, counts) = c03_long(k)?;
        let p = re::parse(&p).expect("explicit pattern");
        let mut words = Vec::new();
        for n in counts {
            let mut w: Vec<char> = unit.repeat(n).chars().collect();
            words.push(w.clone());
            w.pop();
            words.push(w);
        }
        words.push(("a".repeat(200) + "b").chars().collect());
        words.push(("a".repeat(200) + "bb").chars().collect());
        for n in [1, 12, 135, 269, 270] {
            words.push(("a".repeat(n % 40) + &n.to_string()).chars().collect());
        }
        return Some(check_c03(&p, &words, cx));
    }
    if let Some((p, unit, counts)) = i.checked_sub(RE_CASES.len()).and_then(|k| BOUND_CASES.get(k)) {
        let p = re::parse(p).expect("explicit pattern");
        let mut words = Vec::new();
        for n in *counts {
            let mut w: Vec<char> = unit.repeat(*n).chars().collect();
            words.push(w.clone());
            w.push('b');
            words.push(w.clone());
            w.pop();
            w.pop();
            words.push(w);
        }
        return Some(check_c03(&p, &words, cx));
    }
    let p = re::parse(RE_CASES.get(i)?).expect("explicit pattern");
    let words = gen::all_strings(&['a', 'b'], 7);
    Some(check_c03(&p, &words, cx))
}

// ------------------------------------------------------------------------ C04

const PIECES: &[&str] = &[
    "a", "b", "1", "é", " ", "/", "}", ",", "$", "(", ")", "|", "[", "]", "^", "-", "*", "+", "?", ".",
    "{2}", "{2,}", "{1,2}", "{0}", "{2,1}", "{", "{,2}", "{2", "{2,", "{a}", "{2,3", "{4294967295}",
    "{4294967296}", "{99999999999}", "{1,4294967300}", "\\", "\\w", "\\W", "\\d", "\\D", "\\s", "\\S",
    "\\f", "\\n", "\\r", "\\t", "\\v", "\\0", "\\^", "\\$", "\\\\", "\\.", "\\*", "\\+", "\\?", "\\(",
    "\\)", "\\[", "\\]", "\\|", "\\/", "\\{", "\\}", "\\-", "\\cA", "\\cz", "\\c1", "\\c", "\\x41",
    "\\x4", "\\xg1", "\\x", "\\u0041", "\\u00e", "\\u", "\\ud800", "\\u{0041}", "\\u{1F315}",
    "\\u{10FFFF}", "\\u{110000}", "\\u{41}", "\\u{0041", "\\u{}", "\\u{FFFFFFFF}", "\\q", "\\a", "\\é",
    "[a]", "[^a]", "[a-b]", "[a-]", "[-a]", "[b-a]", "[.]", "[\\d-a]", "[a-\\d]", "[a\\]]", "[*]", "[]",
    "[^]", "()", "(a)", "(a|b)", "a|", "|a",
    "²", "٣", "½", "𝟎", "３", "Ａ", "{²}", "{1²}", "{²,}", "{1,²}", "{٣}", "{1,٣}", "{３}", "\\x²1", "\\x4１", "\\u00４1",
    "\\u{00٣1}", "\\cÀ", "\\cａ", "\\c\u{131}", "{ 2}", "{2 }", "{1, 2}", "{+2}", "{-1}", "{1,-2}", "{0x2}", "{1_0}", "{1.5}",
    "{00000000002}", "{2}{2}", "{1,2}?", "?+", "\\u{+041}", "\\x+1", "\\u+041", "\\x 1", "\\X41", "\\U0041", "\\N", "\\C", "\\B",
    "[\\x41-\\x43]", "[\\cA-\\cC]", "[^\\d]", "[a-c-e]", "[--a]", "[+--]", "[\\--a]", "[a\\-c]", "[(a)]", "[a|b]", "[a{2}]", "[a?]",
    "[a+]", "[\\(]", "[$]", "[/]", "[,]", "[}]", "[ ]", "[\\", "[a\\", "(?:a)", "(?=a)", "(*)", "(+a)", "((", "))", "a||b", "|",
];

fn gen_pattern_text(s: &mut Source) -> String {
    match s.weighted(&[10, 10, 4, 3]) {
        // a soup of pieces
        0 => {
            let n = if s.chance(1, 20) { s.range(8, 40) } else { s.range(1, 7) };
            (0..n).map(|_| *s.pick(PIECES)).collect()
        }
        // a valid pattern, edited
        1 => {
            let alpha = gen::alphabet(s);
            let depth = s.range(0, 2);
            let p = gen::flatten(gen::pattern(s, alpha, depth, 200));
            let mut w: Vec<char> = re::text(&p).chars().collect();
            let edits = s.weighted(&[2, 4, 2, 1]);
            for _ in 0..edits {
                match s.below(3) {
                    0 => {
                        let i = s.index(w.len() + 1);
                        let piece: Vec<char> = s.pick(PIECES).chars().collect();
                        w.splice(i..i, piece);
                    }
                    1 if !w.is_empty() => {
                        let i = s.index(w.len());
                        w.remove(i);
                    }
                    _ if !w.is_empty() => {
                        let (i, j) = (s.index(w.len()), s.index(w.len()));
                        w.swap(i, j);
                    }
                    _ => {}
                }
            }
            string(&w)
        }
        // one construct with its parts chosen apart, in a small context
        3 => {
            const DIGITS: &[char] = &['0', '1', '2', '4', '9', 'a', 'f', 'A', 'F', 'g', 'G', '²', '٣', '３', 'Ａ', ' ', '+', '-', '_', '.', '}', '{', ','];
            let some = |s: &mut Source, most: u32| -> String {
                let n = s.below(most + 1);
                // mostly plain digits
                (0..n).map(|_| if s.chance(1, 4) { *s.pick(DIGITS) } else { DIGITS[s.below(5) as usize] }).collect()
            };
            let mid = match s.below(7) {
                0 => format!("{{{}}}", some(s, 11)),
                1 => format!("{{{},{}}}", some(s, 11), some(s, 11)),
                2 => format!("\\x{}", some(s, 4)),
                3 => format!("\\u{}", some(s, 6)),
                4 => format!("\\u{{{}}}", some(s, 8)),
                5 => format!("\\c{}", any_char(s)),
                _ => format!("\\{}", any_char(s)),
            };
            let (before, after) = (*s.pick(&["a", "", "(", "[", "[^", "[a-", "a|", "b*"]), *s.pick(&["", "b", ")", "]", "-b]", "*", "|b", "{2}"]));
            format!("{before}{mid}{after}")
        }
        // characters
        _ => {
            const CS: &[char] = &[
                'a', '1', '(', ')', '[', ']', '{', '}', '|', '^', '-', '*', '+', '?', '.', '\\', ',', 'x',
                'u', 'c', 'w', '0', 'F', 'é', '\n', '🌕', 'd', '²', '٣', '３',
            ];
            let n = if s.chance(1, 12) { s.range(10, 60) } else { s.range(1, 9) };
            (0..n).map(|_| if s.chance(1, 16) { any_char(s) } else { *s.pick(CS) }).collect()
        }
    }
}

fn accept3(pat: &str) -> Result<[bool; 3], String> {
    fn k0() -> usize {
        1
    }
    fn k1(x: &str) -> usize {
        x.len()
    }
    // registration and building must not panic; lexing something too
    let r = guarded(|| {
        [
            Lexer::builder().with_token_unit(pat, 0usize).map(|b| drop(b.tokenize("a"))).is_ok(),
            Lexer::builder().with_token(pat, k0).map(|b| drop(b.tokenize("a"))).is_ok(),
            Lexer::builder().with_token_map(pat, k1).map(|b| drop(b.tokenize("a"))).is_ok(),
        ]
    });
    r.map_err(|p| format!("registering {pat:?} panics: {p}"))
}

fn check_c04(pat: &str, words: &[Vec<char>], cx: &mut Cx) -> R {
    cx.describe(format!("pattern text {pat:?}"));
    let want = re::parse(pat);
    cx.label(if want.is_ok() { "valid" } else { "invalid" });
    cx.comparisons += 1;
    let got = accept3(pat)?;
    for (name, ok) in ["with_token_unit", "with_token", "with_token_map"].iter().zip(got) {
        if ok != want.is_ok() {
            return Err(format!(
                "{name} {} {pat:?}, which is {}",
                if ok { "accepts" } else { "rejects" },
                if want.is_ok() { "valid".into() } else { format!("invalid ({want:?})") }
            ));
        }
    }
    // the same in the middle of a list
    let listed = guarded(|| {
        Lexer::builder()
            .with_token_unit("a", 0usize)
            .and_then(|b| b.with_token_unit(pat, 1))
            .and_then(|b| b.with_token_unit("b", 2))
            .is_ok()
    })
    .map_err(|p| format!("registering {pat:?} panics: {p}"))?;
    if listed != want.is_ok() {
        return Err(format!("{pat:?} is accepted as second pattern: {listed}"));
    }
    if let Ok(tree) = want {
        // nothing of the text is ignored: the language is the whole pattern's
        if re::weight(&tree) <= 300 {
            for w in words {
                let st = string(w);
                let got = lexer_longest(pat, &st)?;
                let want = re::longest(&tree, w, 0);
                cx.comparisons += 1;
                if got != want {
                    return Err(format!(
                        "accepted pattern {pat:?} on {st:?} matches {got:?}, the whole pattern says {want:?}"
                    ));
                }
            }
        }
        cx.nontrivial = pat.chars().count() >= 3;
    } else {
        cx.nontrivial = true;
    }
    Ok(())
}

pub fn c04(s: &mut Source, cx: &mut Cx) -> R {
    let pat = gen_pattern_text(s);
    let alpha = &['a', 'b', '1', 'é', '²'];
    let mut words = Vec::new();
    if let Ok(t) = re::parse(&pat) {
        for _ in 0..3 {
            let mut w = Vec::new();
            gen::sample(&t, s, alpha, &mut w, 20);
            words.push(w.clone());
            gen::mutate(&mut w, s, alpha);
            words.push(w);
        }
    }
    check_c04(&pat, &words, cx)
}

const C04_CASES: &[&str] = &[
    "a)b", ")", "()", "|a", "a|", "a||b", "(a", "(|a)", "a**", "a{2}{3}", "*a", "+", "?", "{2}", "^a", "a^",
    "-", "a-b", "]", "a]", "[", "[a", "[^", "[a-", "[a-]", "[]", "[^]", "[^]a", "[]]", "[z-a]", "[a-b-c]",
    "[\\w-z]", "[(]", "[|]", "[{]", "[}]", "[,]", "[.]", "[^^]", "[\\^]", "}", "a}", "{", "a{", "a{}", "a{,}",
    "a{,1}", "a{1", "a{1,", "a{1,2", "a{1 }", "a{1,2,3}", "a{01}", "a{4294967295}", "a{4294967296}",
    "a{4294967299}", "a{42949672950}", "a{0,4294967296}", "\\", "a\\", "\\x41b", "\\x4", "\\x", "\\u27A1b",
    "\\u12", "\\u123", "\\uD800", "\\uDFFF", "\\u{0041}", "\\u{00041}", "\\u{000041}", "\\u{0000041}",
    "\\u{41}", "\\u{041}", "\\u{D800}", "\\u{110000}", "\\u{10FFFF}", "\\u{100000041}", "\\u{", "\\u{0041",
    "\\u{0041a", "\\c", "\\c1", "\\cA", "\\cz", "\\c[", "\\e", "\\b", "\\1", "\\ ", "$", "/", "\\$", "\\/", "((a)",
    "(a))", "a|(b", "a|b)", "(a)(b)c)", "(a))(b", "a)*", "[a]]", "(((())))", "a(b|)c", "(?a)", "\\d{2}x)",
    "a{²}", "a{1²}", "a{²1}", "a{1,²}", "a{1²,}", "a{٣}", "a{1,٣}", "a{３}", "a{𝟎}", "a{½}", "a{Ⅷ}", "\\x²1", "\\x1²", "\\x４1",
    "\\u²041", "\\u004²", "\\u{²041}", "\\u{004²}", "\\u{00４1}", "\\c²", "\\cÀ", "\\cé", "\\cａ", "\\c ", "\\c\\", "\\c@", "\\c_", "\\c0",
    "²", "²*", "a²", "[²]", "[²-³]", "[a²-³]", "a{ 1}", "a{1 }", "a{1, 2}", "a{+1}", "a{-1}", "a{1,-1}", "a{1;2}", "a{1.2}", "a{1_000}",
    "a{0x1}", "a{1e1}", "a{00000000000000000000001}", "a{00000000004294967296}", "a{18446744073709551617}",
    "a{18446744073709551616,}", "a{1,18446744073709551617}", "a{340282366920938463463374607431768211457}",
    "\\x+1", "\\x-1", "\\x 1", "\\x1 ", "\\u+041", "\\u{+041}", "\\u{ 041}", "\\u{0041 }", "\\u{0x41}", "\\u{00_41}",
    "\\u{FFFFFFFFF}", "\\u{00000000000000041}", "\\X41", "\\U0041", "\\C1", "\\N", "\\T", "\\F", "\\R", "\\V", "\\O", "\\o", "\\00", "\\01",
    "\\_", "\\,", "\\:", "\\<", "\\=", "\\!", "\\#", "\\%", "\\&", "\\'", "\\\"", "\\~", "\\`", "\\@", "\\;", "\\\n", "\\\u{0}", "\\²",
    "[--]", "[---]", "[-]", "[a--]", "[--a]", "[+--]", "[\\--\\-]", "[a\\-]", "[a\\-b]", "[^-]", "[^-a]", "[^a-]", "[^^]", "[a^]", "[a^b]",
    "[\\^-a]", "[a-\\]", "[a-\\]]", "[\\]-a]", "[\\[-\\]]", "[[]", "[a[]", "[a[b]]", "[*-+]", "[(-)]", "[?]", "[+]", "[|-}]", "[.-a]",
    "[a-.]", "[\\.-\\/]", "[a-b", "[a-b-", "[a-b-]", "[a-b-c-d]", "[\\d-\\w]", "[^", "[^a", "[^]]", "[\\]", "[\\]]", "[\\q]", "[\\x4]",
    "[\\u{41}]", "[\\x4-\\x5]", "[a-\\x4]", "[\\c]", "[\\c]]", "a|b|", "|", "||", "(|)", "(a|)", "(|)*", "()*", "(a)()", "()(a)", "(", "((", "(()",
    "(a(b)", "(a(b)c", "(a|b", "(a*", "(*a)", "(+)", "(?)", "({2})", "a|*", "a|+b", "a|?", "a|{2}", "a*?", "a+?", "a??", "a*+", "a{2}?", "a{2}*",
    "a*{2}", "^", "^^", "a^*", "a^b", "(^a)", "$a", "a$b", "^a$", "a-", "-a", "(-)", "a|-", ".-.", "a--b", "]]", "(])", "a]*", "}{", "a}{2}", "a{{2}}",
    "a{2}}", "a}}", "}}*", "{}", "{a}", "({)", "a{2,3}{4}", "(a{2}){3}", "a{2}(b", ",", ",{2}", "a,b", "\u{0}", "\u{0}*", "\n", "\n+", " ", " {2}",
    "\t|\r", "\u{feff}", "e\u{301}*", "🌕{2}", "[🌕]", "[🌑-🌘]", "[🌘-🌑]", "\\🌕", "\\é", "🌕)", "🌕(", "é\\", "é[", "é{",
];

/// Patterns of a size the generator does not reach, and whether they are valid.
fn c04_big(i: usize) -> Option<(String, bool)> {
    let n = 400;
    let (open, close) = ("(".repeat(n), ")".repeat(n));
    Some(match i {
        0 => (format!("{open}a{close}"), true),
        1 => (format!("{open}a{}", &close[1..]), false),
        2 => (format!("{open}a{close})"), false),
        3 => (format!("{open}{close}"), false),
        4 => ("a|".repeat(n) + "b", true),
        5 => ("a|".repeat(n), false),
        6 => ("ab".repeat(n), true),
        7 => ("ab".repeat(n) + ")", false),
        8 => ("ab".repeat(n) + "\\", false),
        9 => (format!("[{}]", "ab".repeat(n)), true),
        10 => (format!("[{}", "ab".repeat(n)), false),
        11 => ("(a*|b)+".repeat(n / 4), true),
        12 => ("(a*|b)+".repeat(n / 4) + "*", false),
        13 => (format!("{}a{}", "(b|".repeat(n), ")*".repeat(n)), true),
        14 => (format!("{}a{}", "(b|".repeat(n), ")*".repeat(n - 1)), false),
        15 => (format!("a{{{}2}}", "0".repeat(n)), true),
        16 => (format!("a{{{}2", "0".repeat(n)), false),
        17 => (format!("a{{{}}}", "9".repeat(n)), false),
        18 => (format!("\\u{{{}41}}", "0".repeat(n)), false),
        19 => ("[a-b]".repeat(n) + "[b-", false),
        20 => ("🌕".repeat(n) + "{2}{2}", false),
        _ => return None,
    })
}

pub fn c04_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let Some(p) = C04_CASES.get(i) else {
        let (p, valid) = c04_big(i - C04_CASES.len())?;
        assert_eq!(re::parse(&p).is_ok(), valid, "harness error: {p:?}");
        return Some(check_c04(&p, &["a".repeat(3).chars().collect(), "ab".repeat(400).chars().collect()], cx));
    };
    let mut words = gen::all_strings(&['a', 'b'], 3);
    for w in ["Ab", "A", "➡b", "\u{27A1B}", "a}", "}", "abc", "12x", "\u{10FFFF}", "$", "/"] {
        words.push(w.chars().collect());
    }
    Some(check_c04(p, &words, cx))
}

// ------------------------------------------------------------------------ C05

/// One way of writing a character in a pattern.
fn write_char(s: &mut Source, c: char, forms: u32) -> String {
    let v = c as u32;
    let mut ways: Vec<String> = vec![re::lit(c)];
    if forms > 0 {
        match c {
            '\u{c}' => ways.push("\\f".into()),
            '\n' => ways.push("\\n".into()),
            '\r' => ways.push("\\r".into()),
            '\t' => ways.push("\\t".into()),
            '\u{b}' => ways.push("\\v".into()),
            '\0' => ways.push("\\0".into()),
            '/' | '$' => ways.push(format!("\\{c}")),
            _ => {}
        }
        if (1..=26).contains(&v) {
            ways.push(format!("\\c{}", char::from_u32(v + 64).unwrap()));
            ways.push(format!("\\c{}", char::from_u32(v + 96).unwrap()));
        }
        if v <= 0xff {
            ways.push(format!("\\x{v:02x}"));
            ways.push(format!("\\x{v:02X}"));
        }
        if v <= 0xffff {
            ways.push(format!("\\u{v:04x}"));
            ways.push(format!("\\u{v:04X}"));
        }
        ways.push(format!("\\u{{{v:04x}}}"));
        ways.push(format!("\\u{{{v:05X}}}"));
        ways.push(format!("\\u{{{v:06x}}}"));
    }
    let i = s.index(ways.len());
    ways.swap_remove(i)
}

fn any_char(s: &mut Source) -> char {
    const EDGE: &[u32] = &[
        0x0, 0x9, 0xa, 0xb, 0xc, 0xd, 0x1f, 0x20, 0x2f, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x5a, 0x5b, 0x60, 0x61,
        0x7a, 0x7b, 0x7e, 0x7f, 0x80, 0x85, 0xa0, 0xaa, 0xb2, 0xff, 0x100, 0x660, 0x7ff, 0x800, 0x1680,
        0x2028, 0x3000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1d7ce, 0x1f315, 0x10fffe, 0x10ffff,
    ];
    match s.weighted(&[6, 4, 2, 2]) {
        0 => char::from_u32(s.range(0x20, 0x7e)).unwrap(),
        1 => char::from_u32(*s.pick(EDGE)).unwrap(),
        2 => char::from_u32(s.range(0, 0x2fff)).unwrap_or('a'),
        _ => char::from_u32(s.range(0, 0x10ffff)).unwrap_or('\u{e000}'),
    }
}

fn gen_atom(s: &mut Source) -> (String, Set) {
    match s.weighted(&[6, 3, 8]) {
        0 => {
            let c = any_char(s);
            (write_char(s, c, 1), Set::Ch(c))
        }
        1 => {
            let k = *s.pick(&re::CLASSES);
            (k.text().into(), Set::Class(k))
        }
        _ => {
            let neg = s.chance(1, 2);
            let n = s.weighted(&[20, 100, 80, 60, 36, 12, 4]);
            let n = match n {
                5 => s.range(5, 20) as usize,
                6 => s.range(21, 70) as usize,
                n => n,
            };
            // large groups are mostly lists of one sort
            let sort: &[u32] = match if n > 4 { s.below(4) } else { 3 } {
                0 | 1 => &[1, 0, 0],
                2 => &[0, 1, 0],
                _ => &[4, 5, 2],
            };
            let mut items = Vec::new();
            let mut t = String::from(if neg { "[^" } else { "[" });
            for _ in 0..n {
                match s.weighted(sort) {
                    0 => {
                        let c = any_char(s);
                        t += &write_char(s, c, 1);
                        items.push(Item::Ch(c));
                    }
                    1 => {
                        let a = any_char(s);
                        let b = if s.chance(1, 2) {
                            char::from_u32(a as u32 + s.below(40)).unwrap_or(a)
                        } else {
                            any_char(s)
                        };
                        t += &write_char(s, a, 1);
                        t.push('-');
                        t += &write_char(s, b, 1);
                        items.push(Item::Range(a, b));
                    }
                    _ => {
                        let k = *s.pick(&re::CLASSES);
                        t += k.text();
                        items.push(Item::Class(k));
                    }
                }
            }
            t.push(']');
            (t, Set::Group(neg, items))
        }
    }
}

/// Which of the characters the atom turns into its token.
fn members(atom: &str, cs: &[char]) -> Result<Vec<bool>, String> {
    let text = string(cs);
    let _call = Call::enter();
    let b = Lexer::builder()
        .with_token_unit(atom, 1usize)
        .and_then(|b| b.with_token_unit(".", 0))
        .map_err(|e| format!("valid atom {atom:?} was rejected: {}", e.to_string().trim()))?;
    let mut out = Vec::with_capacity(cs.len());
    for (i, t) in b.tokenize(&text).enumerate() {
        if t.pos != (i, i + 1) {
            return Err(format!("{atom:?}: token {i} spans {:?}", t.pos));
        }
        out.push(t.kind == 1);
    }
    if out.len() != cs.len() {
        return Err(format!("{atom:?}: {} tokens for {} characters", out.len(), cs.len()));
    }
    Ok(out)
}

fn check_atom(atom: &str, set: &Set, cs: &[char], cx: &mut Cx) -> R {
    let got = members(atom, cs)?;
    cx.comparisons += cs.len() as u64;
    for (c, m) in cs.iter().zip(&got) {
        if *m != set.has(*c) {
            return Err(format!(
                "{atom:?} {} U+{:04X} {c:?}, which it {}",
                if *m { "matches" } else { "does not match" },
                *c as u32,
                if *m { "does not denote" } else { "denotes" }
            ));
        }
    }
    Ok(())
}

fn neighbours(set: &Set, out: &mut Vec<char>) {
    let mut around = |c: char| {
        for d in -1i64..=1 {
            if let Some(x) = u32::try_from(c as i64 + d).ok().and_then(char::from_u32) {
                out.push(x);
            }
        }
    };
    match set {
        Set::Ch(c) => around(*c),
        Set::Class(_) => {}
        Set::Group(_, items) => {
            for i in items {
                match i {
                    Item::Ch(c) => around(*c),
                    Item::Range(a, b) => {
                        around(*a);
                        around(*b);
                    }
                    Item::Class(_) => {}
                }
            }
        }
    }
}

pub fn c05(s: &mut Source, cx: &mut Cx) -> R {
    match s.weighted(&[8, 4, 1]) {
        0 => {
            let (t, set) = gen_atom(s);
            let mut cs = Vec::new();
            neighbours(&set, &mut cs);
            cs.extend("azAZ09_ -]^\\\n\t\u{a0}é٣🌕Ⅷ\u{2028}\u{0}".chars());
            let n = s.range(4, 40);
            for _ in 0..n {
                cs.push(any_char(s));
            }
            cx.describe(format!("atom {t:?} on {} characters", cs.len()));
            cx.label(match set {
                Set::Ch(_) => "single character",
                Set::Class(_) => "class",
                Set::Group(false, _) => "character group",
                Set::Group(true, _) => "negated character group",
            });
            let inside = cs.iter().filter(|c| set.has(**c)).count();
            cx.nontrivial = inside > 0 && inside < cs.len();
            check_atom(&t, &set, &cs, cx)
        }
        1 => {
            // a sequence of written characters: escapes take exactly their digits
            let n = if s.chance(1, 20) { s.range(6, 30) } else { s.range(2, 5) };
            let mut t = String::new();
            let mut word = Vec::new();
            let mut sets = Vec::new();
            for _ in 0..n {
                let c = if s.chance(1, 2) {
                    *s.pick(&['0', '1', '9', 'a', 'f', 'A', 'F', 'g', '{', '}', 'x', 'u'])
                } else {
                    any_char(s)
                };
                let forms = s.below(2);
                t += &write_char(s, c, forms);
                word.push(c);
                sets.push(Re::Set(Set::Ch(c)));
            }
            cx.describe(format!("written characters {t:?}"));
            cx.label("sequence of escapes");
            cx.nontrivial = t.contains('\\');
            let tree = Re::Cat(sets);
            let mut words = vec![word.clone(), word[..n as usize - 1].to_vec()];
            let mut longer = word.clone();
            longer.push('0');
            words.push(longer);
            let mut w = word.clone();
            gen::mutate(&mut w, s, &['0', 'a', 'F', '}']);
            words.push(w);
            for w in words {
                let st = string(&w);
                let got = lexer_longest(&t, &st)?;
                let want = re::longest(&tree, &w, 0);
                cx.comparisons += 1;
                if got != want {
                    return Err(format!("{t:?} on {st:?} matches {got:?}, its characters say {want:?}"));
                }
            }
            Ok(())
        }
        _ => {
            // bounds are decimal numbers
            let n = match s.weighted(&[12, 12, 4, 3, 1]) {
                0 => s.range(0, 12),
                1 => s.range(9, 40),
                2 => s.range(95, 130),
                3 => s.range(245, 265),
                _ => s.range(500, 1100),
            };
            let span = if s.chance(1, 10) { 300 } else { 5 };
            let m = n + s.below(span);
            let zeros = if s.chance(1, 4) { &"000000000000"[..s.range(1, 12) as usize] } else { "" };
            let (t, q) = match s.below(3) {
                0 => (format!("a{{{zeros}{n}}}"), Quant { min: n, max: Some(n) }),
                1 => (format!("a{{{n},}}"), Quant { min: n, max: None }),
                _ => (format!("a{{{n},{zeros}{m}}}"), Quant { min: n, max: Some(m) }),
            };
            cx.describe(format!("bounds {t:?}"));
            cx.label("quantifier bounds");
            cx.nontrivial = n >= 2;
            for k in [n.saturating_sub(1), n, n + 1, m, m + 1] {
                let w = vec!['a'; k as usize];
                let got = lexer_longest(&t, &string(&w))?;
                let want = (k > 0 && k >= q.min).then(|| q.max.map_or(k, |x| k.min(x)) as usize).filter(|n| *n > 0);
                cx.comparisons += 1;
                if got != want {
                    return Err(format!("{t:?} on a^{k} matches {got:?}, the bounds say {want:?}"));
                }
            }
            Ok(())
        }
    }
}

/// Atoms tried on every Unicode scalar value, in chunks.
const SWEEP: &[&str] = &[
    ".", r"\w", r"\W", r"\d", r"\D", r"\s", r"\S", "[^a]", r"[\w\d]", r"[^\s\x00-\x7f]", r"[\u{10000}-\u{10FFFF}]",
    "[é-🌕]", "[]", "[^]",
];
const CHUNK: u32 = 0x2000;
/// The planes holding all assigned letters, digits and spaces, then the rest.
const CHUNKS: u32 = 0x110000 / CHUNK;

/// Every escape of one character followed by a digit and a letter.
const ESCAPES: &[(&str, char)] = &[
    ("\\f", '\u{c}'), ("\\n", '\n'), ("\\r", '\r'), ("\\t", '\t'), ("\\v", '\u{b}'), ("\\0", '\0'),
    ("\\^", '^'), ("\\$", '$'), ("\\\\", '\\'), ("\\.", '.'), ("\\*", '*'), ("\\+", '+'), ("\\?", '?'),
    ("\\(", '('), ("\\)", ')'), ("\\[", '['), ("\\]", ']'), ("\\|", '|'), ("\\/", '/'), ("\\{", '{'),
    ("\\}", '}'), ("\\-", '-'), ("\\x41", 'A'), ("\\x7E", '~'), ("\\xfF", 'ÿ'), ("\\x00", '\0'),
    ("\\u0041", 'A'), ("\\u27A1", '➡'), ("\\uffFf", '\u{ffff}'), ("\\uD7ff", '\u{d7ff}'), ("\\ue000", '\u{e000}'),
    ("\\u{0041}", 'A'), ("\\u{1F315}", '🌕'), ("\\u{01F315}", '🌕'), ("\\u{10FFFF}", '\u{10FFFF}'),
    ("a", 'a'), ("}", '}'), ("$", '$'), ("/", '/'), (",", ','), ("\"", '"'), ("'", '\''), ("é", 'é'),
    ("\u{0}", '\u{0}'), ("\n", '\n'),
];

pub fn c05_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    if let Some((t, c)) = ESCAPES.get(i) {
        cx.describe(format!("escape {t:?}"));
        cx.label("every escape");
        cx.nontrivial = true;
        let mut near: Vec<char> = (0u32..0x180).map(|v| char::from_u32(v).unwrap()).collect();
        neighbours(&Set::Ch(*c), &mut near);
        let mut run = || {
            check_atom(t, &Set::Ch(*c), &near, cx)?;
            check_atom(&format!("[{t}]"), &Set::Group(false, vec![Item::Ch(*c)]), &near, cx)?;
            check_atom(
                &format!("[{t}-{t}b]"),
                &Set::Group(false, vec![Item::Range(*c, *c), Item::Ch('b')]),
                &near,
                cx,
            )?;
            for tail in ["0", "b", "bF", "9}", "A1"] {
                let mut w = vec![*c];
                w.extend(tail.chars());
                let pat = format!("{t}{tail}");
                let st = string(&w);
                cx.comparisons += 1;
                if lexer_longest(&pat, &st)? != Some(w.len()) {
                    return Err(format!("{pat:?} does not match {st:?}"));
                }
            }
            Ok(())
        };
        return Some(run());
    }
    let i = i - ESCAPES.len();
    if i < 52 {
        let l = char::from_u32(if i < 26 { 'a' as u32 + i as u32 } else { 'A' as u32 + i as u32 - 26 }).unwrap();
        let c = char::from_u32(l as u32 % 32).unwrap();
        let t = format!("\\c{l}");
        cx.describe(format!("escape {t:?}"));
        cx.label("every escape");
        cx.nontrivial = true;
        let cs: Vec<char> = (0u32..0x100).map(|v| char::from_u32(v).unwrap()).collect();
        return Some(check_atom(&t, &Set::Ch(c), &cs, cx));
    }
    let i = (i - 52) as u32;
    let (atom, chunk) = (i / CHUNKS, i % CHUNKS);
    let t = SWEEP.get(atom as usize)?;
    // the quick tier leaves out planes 4 to 13, which hold no assigned character
    let skip = !crate::thorough() && (0x40000..0xe0000).contains(&(chunk * CHUNK));
    if skip {
        cx.describe("skipped".into());
        return Some(Ok(()));
    }
    let cs: Vec<char> = (chunk * CHUNK..(chunk + 1) * CHUNK).filter_map(char::from_u32).collect();
    cx.describe(format!("atom {t:?} on every character of U+{:04X}..", chunk * CHUNK));
    cx.label("every Unicode character");
    cx.nontrivial = true;
    let Ok(Re::Set(set)) = re::parse(t) else { panic!("sweep atom") };
    Some(check_atom(t, &set, &cs, cx))
}

// ------------------------------------------------------------------------ C06

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Const(usize),
    Made(usize),
    Mapped(usize, usize, u64),
}

macro_rules! kinds {
    ($($i:literal)*) => {
        const MADE: &[fn() -> K] = &[$({ fn f() -> K { K::Made($i) } f }),*];
        const MAPPED: &[fn(&str) -> K] =
            &[$({ fn f(s: &str) -> K { K::Mapped($i, s.len(), crate::engine::fnv(s.as_bytes())) } f }),*];
    };
}
kinds!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259 260 261 262 263 264 265 266 267 268 269 270 271 272 273 274 275 276 277 278 279 280 281 282 283 284 285 286 287 288 289 290 291 292 293 294 295 296 297 298 299 300 301 302 303 304 305 306 307 308 309 310 311 312 313 314 315 316 317 318 319);

fn kind_of(form: u32, i: usize, source: &str) -> K {
    match form {
        0 => K::Const(i),
        1 => K::Made(i),
        _ => K::Mapped(i, source.len(), crate::engine::fnv(source.as_bytes())),
    }
}

fn lex_forms(pt: &[String], forms: &[u32], text: &str) -> Result<Vec<(K, String, (usize, usize))>, String> {
    let _call = Call::enter();
    let mut b = Lexer::builder();
    for (i, p) in pt.iter().enumerate() {
        b = match forms[i] {
            0 => b.with_token_unit(p, K::Const(i)),
            1 => b.with_token(p, MADE[i]),
            _ => b.with_token_map(p, MAPPED[i]),
        }
        .map_err(|e| format!("pattern {p:?} was rejected: {}", e.to_string().trim()))?;
    }
    let cap = text.chars().count() + 1;
    let out: Vec<_> = b.tokenize(text).take(cap + 1).map(|t| (t.kind, t.source, t.pos)).collect();
    if out.len() > cap {
        return Err("more tokens than characters".into());
    }
    Ok(out)
}

fn check_c06(pats: &[Re], forms: &[u32], text: &[char], cx: &mut Cx) -> R {
    let pt = texts(pats);
    let st = string(text);
    cx.describe(format!("{} registered as {forms:?}", describe(&pt, &st)));
    let sh = shape(pats, text);
    label(cx, &sh, text);
    let mixed = forms.iter().any(|f| *f != forms[0]);
    cx.label_if(mixed, "mixed registration forms");
    let mapped = sh.toks.iter().any(|t| forms[t.0] == 2);
    cx.label_if(mapped, "token of a mapping function");
    cx.nontrivial = sh.toks.len() >= 2 && (mixed || mapped);
    let got = lex_forms(&pt, forms, &st)?;
    // every token's kind belongs to a pattern, its function and its source
    for (k, source, pos) in &got {
        let i = match k {
            K::Const(i) | K::Made(i) | K::Mapped(i, ..) => *i,
        };
        cx.comparisons += 1;
        if *k != kind_of(forms[i], i, source) {
            return Err(format!(
                "token {source:?}@{pos:?} has kind {k:?} instead of {:?}",
                kind_of(forms[i], i, source)
            ));
        }
    }
    // and the pattern is the one that wins
    let want: Vec<_> = sh
        .toks
        .iter()
        .map(|(i, a, b)| {
            let source = string(&text[*a..*b]);
            (kind_of(forms[*i], *i, &source), source, (*a, *b))
        })
        .collect();
    if got != want {
        return Err(format!("yields {got:?}, expected {want:?}"));
    }
    // boundaries and winners are the same for constants only
    let plain = lex_forms(&pt, &vec![0; pt.len()], &st)?;
    let strip = |v: &[(K, String, (usize, usize))]| -> Vec<(usize, (usize, usize))> {
        v.iter()
            .map(|(k, _, p)| {
                (
                    match k {
                        K::Const(i) | K::Made(i) | K::Mapped(i, ..) => *i,
                    },
                    *p,
                )
            })
            .collect()
    };
    cx.comparisons += 1;
    if strip(&plain) != strip(&got) {
        return Err(format!("winners differ by registration form: {plain:?} against {got:?}"));
    }
    Ok(())
}

pub fn c06(s: &mut Source, cx: &mut Cx) -> R {
    let (pats, text) = gen_case(s);
    own(&pats)?;
    let forms: Vec<u32> = pats.iter().map(|_| s.below(3)).collect();
    check_c06(&pats, &forms, &text, cx)
}

fn check_huge_forms(p: &[String], forms: &[u32], text: &str, want: &[Tok], cx: &mut Cx) -> R {
    let got = lex_forms(p, forms, text)?;
    for (i, (k, source, pos)) in got.iter().enumerate() {
        cx.comparisons += 1;
        let ok = want.get(i).is_some_and(|w| w.source == *source && w.pos == *pos && *k == kind_of(forms[w.kind], w.kind, source));
        if !ok {
            let source: String = source.chars().take(20).collect();
            return Err(format!("token {i} {source:?} at {pos:?} has the kind {k:?}"));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} tokens instead of {}", got.len(), want.len()));
    }
    Ok(())
}

pub fn c06_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let (pats, t) = match LEX_CASES.get(i / 4) {
        Some((p, t)) => (parsed(p), t.to_string()),
        None => match scale_case(i / 4 - LEX_CASES.len()) {
            Some((p, t)) => (parsed(&p), t),
            None => {
                let i = i - 4 * (LEX_CASES.len() + SCALE_CASES);
                let (p, t, want) = huge(i / 2, cx)?;
                let forms: Vec<u32> = (0..p.len()).map(|k| (k + 2 * (i % 2)) as u32 % 3).collect();
                return Some(check_huge_forms(&p, &forms, &t, &want, cx));
            }
        },
    };
    let forms: Vec<u32> = (0..pats.len())
        .map(|k| match i % 4 {
            0 => 2,
            1 => 1,
            2 => k as u32 % 3,
            _ => (k as u32 + 2) % 3,
        })
        .collect();
    let t: Vec<char> = t.chars().collect();
    Some(check_c06(&pats, &forms, &t, cx))
}

// ------------------------------------------------------------------------ C07

/// Budget of one case in allocations. Measured on the unchanged tree, the
/// costliest generated case needs about an eightieth of it, while endless or
/// exponential work on these texts exceeds it.
const C07_BUDGET: u64 = 100_000_000;

fn check_c07(pt: &[String], text: &str, cx: &mut Cx) -> R {
    cx.describe(describe(pt, text));
    let before = (crate::work::allocs(), crate::work::steps());
    // backing off to a shorter match may read the rest again for every token
    let n = text.chars().count().max(48) as u64;
    crate::work::limit_allocs(C07_BUDGET * n * n / (48 * 48));
    crate::work::limit_steps(50 * C07_BUDGET * n * n / (48 * 48));
    let r = lex_more(pt, text, 1);
    let used = crate::work::allocs() - before.0;
    crate::work::default_allocs();
    crate::work::default_steps();
    if std::env::var_os("PV_RATIO").is_some() {
        let steps = crate::work::steps() - before.1;
        eprintln!("ratio {} {} {}", C07_BUDGET * n * n / (48 * 48) / (used + 1), 50 * C07_BUDGET * n * n / (48 * 48) / steps.max(1), text.len());
    }
    cx.comparisons += 1;
    let (toks, _) = r.map_err(|e| e.text())?;
    cx.label(match used {
        0..=9_999 => "under 10k allocations",
        10_000..=99_999 => "under 100k allocations",
        100_000..=999_999 => "under 1M allocations",
        1_000_000..=3_999_999 => "under 4M allocations",
        _ => "4M allocations or more",
    });
    cx.label_if(!toks.is_empty(), "has tokens");
    Ok(())
}

fn hard_pattern(s: &mut Source, alpha: &[char]) -> Re {
    // nested quantifiers over overlapping or empty-matching alternatives
    fn body(s: &mut Source, alpha: &[char], depth: u32) -> Re {
        let n = 1 + s.weighted(&[2, 4, 2]);
        let alts: Vec<Re> = (0..n)
            .map(|_| match s.weighted(&[3, 3, 4]) {
                0 => gen::word(s, &alpha[..1], 3),
                1 => Re::Set(gen::set(s, alpha)),
                _ => {
                    let x = if depth > 0 {
                        Re::Group(Box::new(body(s, alpha, depth - 1)))
                    } else {
                        Re::Set(Set::Ch(alpha[0]))
                    };
                    let q = match s.weighted(&[5, 3, 4, 1, 1]) {
                        0 => Quant { min: 0, max: None },
                        1 => Quant { min: 1, max: None },
                        2 => Quant { min: 0, max: Some(1) },
                        3 => Quant { min: s.below(4), max: None },
                        _ => {
                            let a = s.below(3);
                            Quant { min: a, max: Some(a + s.below(3)) }
                        }
                    };
                    Re::Rep(Box::new(x), q)
                }
            })
            .collect();
        if alts.len() == 1 {
            alts.into_iter().next().unwrap()
        } else if s.chance(1, 3) {
            Re::Cat(alts.into_iter().map(|a| if matches!(a, Re::Alt(_)) { Re::Group(Box::new(a)) } else { a }).collect())
        } else {
            Re::Alt(alts)
        }
    }
    if s.chance(1, 6) {
        // many small choices one after the other, without a loop around them
        let xs: Vec<Re> = (0..1 + s.below(2))
            .map(|_| {
                let x = Re::Group(Box::new(body(s, alpha, 0)));
                match s.weighted(&[3, 2, 1]) {
                    0 => x,
                    1 => Re::Rep(Box::new(x), Quant { min: 0, max: Some(1) }),
                    _ => Re::Rep(Box::new(x), Quant { min: 0, max: None }),
                }
            })
            .collect();
        let k = s.range(6, 30) as usize;
        let mut e = Re::Cat((0..k).map(|i| xs[i % xs.len()].clone()).collect());
        if s.chance(1, 3) {
            e = Re::Rep(Box::new(Re::Group(Box::new(e))), Quant { min: s.below(2), max: None });
        }
        let e = gen::flatten(e);
        if re::weight(&e) <= 240 {
            return e;
        }
    }
    for _ in 0..5 {
        let depth = s.range(1, 3);
        let e = body(s, alpha, depth);
        let q = match s.weighted(&[5, 4, 1]) {
            0 => Quant { min: 0, max: None },
            1 => Quant { min: 1, max: None },
            _ => Quant { min: s.below(4), max: None },
        };
        let e = gen::flatten(Re::Rep(Box::new(Re::Group(Box::new(e))), q));
        if re::weight(&e) <= 120 {
            return e;
        }
    }
    Re::Rep(Box::new(Re::Group(Box::new(Re::Rep(Box::new(Re::Set(Set::Ch('a'))), Quant { min: 0, max: None })))), Quant { min: 0, max: None })
}

pub fn c07(s: &mut Source, cx: &mut Cx) -> R {
    let alpha = gen::alphabet(s);
    let n = 1 + s.weighted(&[4, 2, 1]);
    let pats: Vec<Re> = (0..n)
        .map(|_| {
            let mut p = if s.chance(3, 4) { hard_pattern(s, alpha) } else { gen::flatten(gen::pattern(s, alpha, 2, 100)) };
            if s.chance(1, 12) {
                gen::widen(&mut p, s);
            }
            p
        })
        .collect();
    own(&pats)?;
    let len = if s.chance(1, 25) { s.range(49, 120) } else { s.range(8, 48) } as usize;
    cx.label_if(len > 48, "text of more than 48 characters");
    let mut text: Vec<char> = Vec::new();
    match s.weighted(&[3, 3, 2]) {
        0 => text = vec![alpha[0]; len],
        1 => {
            while text.len() < len {
                text.push(if s.chance(1, 4) { *s.pick(alpha) } else { alpha[0] });
            }
        }
        _ => {
            for _ in 0..20 {
                let i = s.index(pats.len());
                gen::sample(&pats[i], s, alpha, &mut text, len);
            }
        }
    }
    if s.chance(1, 2) {
        text.push('!');
    }
    cx.label_if(pats.iter().any(re::empty_rounds), "quantified part matching the empty string");
    cx.label_if(pats.iter().any(re::nested_quant), "nested quantifiers");
    cx.nontrivial = text.len() >= 8 && pats.iter().any(|p| re::nested_quant(p) || re::empty_rounds(p));
    check_c07(&texts(&pats), &string(&text), cx)
}

const C07_CASES: &[&[&str]] = &[
    &["(a*)*"], &["(a?)+"], &["(a|aa)*"], &["(a|a)*"], &["(a*|b)*"], &["((a*)*)*"], &["(a?){3,}"], &["(a|[ab])*"],
    &["(a*a*)*"], &["(a+)+"], &["((a|aa)+)+b"], &["(.*)*x"], &["(a|a?)+"], &["(a*){5}"], &["(a?){9}b"],
    &["(.|a|aa)*", "(a|.)+"], &["((a|aa)(a|aa))*"], &["(a{0,2}){2,}"], &["a*a*a*a*a*b"], &["(a{0})*"], &["([]|a)*"],
    &["(a|ab|ba|b)*"], &["(\\w|\\d|.)*", "(\\w*\\d*)*"], &["(((a?)*)?)*b"], &["([]*)*"], &["([]?)+a"],
    &["(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)(a|aa)"],
    &["a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?aaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"],
    &["(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])(a|[ab])!"],
    &["(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)(a?|b)"],
    &["a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*a*b"],
    &["(a*){4294967295}"], &["(a?){1000000}b"], &["(a*b*){1,4294967295}"], &["((a?){65536}b?){65536}"], &["(a|b?){1000000,}!"],
    &["(a{0,4294967295}){4294967295}"], &["((a?b?){70000}|b*){2,70000}", "(a?){300000}!"],
];

pub fn c07_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let pats = C07_CASES.get(i)?;
    let pt: Vec<String> = pats.iter().map(|p| p.to_string()).collect();
    cx.nontrivial = true;
    let run = |cx: &mut Cx| {
        for text in ["a".repeat(60), "ab".repeat(30), format!("{}!", "a".repeat(50)), "!".into(), "b".repeat(20)] {
            check_c07(&pt, &text, cx)?;
        }
        Ok(())
    };
    Some(run(cx))
}

// ------------------------------------------------------------------------ C08

fn check_c08(pats: &[Re], text: &[char], requests: usize, cx: &mut Cx) -> R {
    let pt = texts(pats);
    let st = string(text);
    cx.describe(format!("{}, {requests} requests after the end", describe(&pt, &st)));
    let (toks, more) = lex_more(&pt, &st, requests).map_err(|e| e.text())?;
    for t in &toks {
        let w: Vec<char> = t.source.chars().collect();
        cx.comparisons += 1;
        if !re::matches(&pats[t.kind], &w) {
            return Err(format!("token {:?} is not matched by its pattern {:?}", t.source, pt[t.kind]));
        }
    }
    for (i, m) in more.iter().enumerate() {
        cx.comparisons += 1;
        if let Some(t) = m {
            return Err(format!("request {} after the end yields {:?}@{:?}", i + 1, t.source, t.pos));
        }
    }
    Ok(())
}

pub fn c08(s: &mut Source, cx: &mut Cx) -> R {
    let (pats, mut text) = gen_case(s);
    own(&pats)?;
    // often stuck: something no pattern starts with
    if s.chance(1, 2) {
        let i = s.index(text.len() + 1);
        text.insert(i, *s.pick(&['!', 'q', '\u{1}', '∀']));
    }
    let n = s.range(1, 4) as usize + if text.len() > 64 { 4 } else { text.len().min(40) };
    let sh = shape(&pats, &text);
    label(cx, &sh, &text);
    cx.nontrivial = sh.stop < text.len() && text.len() >= 2;
    check_c08(&pats, &text, n, cx)
}

pub fn c08_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let Some((p, t)) = LEX_CASES.get(i) else {
        let Some((p, t)) = scale_case(i - LEX_CASES.len()) else {
            let (p, mut t, want) = huge(i - LEX_CASES.len() - SCALE_CASES, cx)?;
            // stuck after the whole text
            t += "∀ab";
            let mut run = || {
                let (toks, more) = lex_more(&p, &t, 300).map_err(|e| e.text())?;
                cx.comparisons += 2;
                if toks.len() > want.len() + 3 || more.iter().any(|m| m.is_some()) {
                    return Err(format!("{} tokens, and {} after the end", toks.len(), more.iter().flatten().count()));
                }
                same_tokens("a long text", &toks[..want.len().min(toks.len())], &want)
            };
            return Some(run());
        };
        let pats = parsed(&p);
        let mut run = || {
            let t: Vec<char> = t.chars().take(600).collect();
            for at in [0, 1, t.len() / 2, t.len() - 1, t.len()] {
                let mut w = t.clone();
                w.insert(at, '∀');
                check_c08(&pats, &w, 12, cx)?;
            }
            Ok(())
        };
        let r = run();
        cx.nontrivial = true;
        return Some(r);
    };
    let pats = parsed(p);
    let t: Vec<char> = t.chars().collect();
    let mut run = || {
        check_c08(&pats, &t, t.len() + 3, cx)?;
        for at in 0..=t.len() {
            let mut w = t.clone();
            w.insert(at, '!');
            check_c08(&pats, &w, w.len() + 3, cx)?;
        }
        Ok(())
    };
    let r = run();
    cx.nontrivial = true;
    Some(r)
}

// ------------------------------------------------------------------------ C09

/// The `(start, end)` pairs of numbers in a message.
fn ranges(line: &str) -> Vec<(usize, usize)> {
    let cs: Vec<char> = line.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] == '(' {
            let end = cs[i..].iter().position(|c| *c == ')').map(|k| i + k);
            if let Some(e) = end {
                let inner = string(&cs[i + 1..e]);
                let parts: Vec<&str> = inner.split(',').map(str::trim).collect();
                if parts.len() == 2 {
                    if let (Ok(a), Ok(b)) = (parts[0].parse(), parts[1].parse()) {
                        out.push((a, b));
                    }
                }
            }
        }
        i += 1;
    }
    if out.is_empty() {
        // a range written in some other way: the first two numbers
        let n: Vec<usize> = line.split(|c: char| !c.is_ascii_digit()).filter_map(|w| w.parse().ok()).collect();
        if let [a, b, ..] = n[..] {
            out.push((a, b));
        }
    }
    out
}

fn check_c09(pat: &str, cx: &mut Cx) -> R {
    cx.describe(format!("pattern text {pat:?}"));
    let want = re::parse(pat);
    cx.label(if want.is_ok() { "valid" } else { "invalid" });
    let Err(re::Reject(piece)) = want else { return Ok(()) };
    cx.label(if piece.is_some() { "offending piece" } else { "unexpected end of the pattern" });
    cx.nontrivial = true;
    let len = pat.chars().count();
    let r = guarded(|| Lexer::builder().with_token_unit(pat, 0usize).map(|_| ()).map_err(|e| e.to_string()));
    let msg = match r {
        // whether it is rejected at all is another property
        Ok(Ok(())) => return Ok(()),
        Ok(Err(m)) => m,
        Err(p) => return Err(format!("registering {pat:?} panics: {p}")),
    };
    let lines: Vec<&str> = msg.lines().filter(|l| !l.trim().is_empty()).collect();
    if lines.is_empty() {
        return Err(format!("the error for {pat:?} displays nothing"));
    }
    let mut first = usize::MAX;
    let mut any = false;
    for l in &lines {
        let rs = ranges(l);
        let Some((a, b)) = rs.first().copied() else {
            return Err(format!("the message {l:?} for {pat:?} carries no position"));
        };
        any = true;
        cx.comparisons += 1;
        if !(a < b && b <= len) {
            return Err(format!("the message {l:?} for {pat:?} ({len} characters) points outside the pattern"));
        }
        first = first.min(a);
    }
    if let (true, Some((_, end))) = (any, piece) {
        if first >= end {
            return Err(format!(
                "the message {:?} for {pat:?} points after the offending piece, which ends at {end}",
                lines[0]
            ));
        }
    }
    Ok(())
}

pub fn c09(s: &mut Source, cx: &mut Cx) -> R {
    let mut pat = gen_pattern_text(s);
    if re::parse(&pat).is_ok() {
        // break it
        let mut w: Vec<char> = pat.chars().collect();
        let i = s.index(w.len() + 1);
        let piece: Vec<char> =
            s.pick(&["(", ")", "[", "*", "{", "\\", "|", "-", "]", "^", "\\x", "[a-", "{1,"]).chars().collect();
        w.splice(i..i, piece);
        pat = string(&w);
    }
    check_c09(&pat, cx)
}

pub fn c09_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    const MORE: &[&str] = &[
        "[a-\\d]bc", "[a-*]b", "[a-]", "[a-[b]c", "[a-(]bcdefg", "ab[c-^]defg", "é[é-*]é", "[a-\\q]bc", "🌕)🌕",
        "[*]abc", "a**bc", "é{x}abc", "\\xzzabc", "abc[d-", "abc[", "abc[^", "abc(", "abc|", "abc\\", "[a-{2}]bc",
    ];
    let Some(p) = C04_CASES.iter().chain(MORE).nth(i) else {
        let i = i - C04_CASES.len() - MORE.len();
        if let Some((p, _)) = c04_big(i) {
            return Some(check_c09(&p, cx));
        }
        let i = i - (0..).take_while(|k| c04_big(*k).is_some()).count();
        // errors at and around the positions where narrow numbers end
        const WRONG: &[&str] = &["(", ")", "[", "\\", "\\x", "{1,", "[a-*]", "|", "a**"];
        let length = [128, 256, 32_768, 65_536].get(i / WRONG.len())?;
        for n in length - 5..length + 3 {
            let r = check_c09(&format!("{}{}", "a".repeat(n), WRONG[i % WRONG.len()]), cx);
            if r.is_err() {
                return Some(r);
            }
        }
        return Some(Ok(()));
    };
    Some(check_c09(p, cx))
}

// ------------------------------------------------------------------- for C15

/// The observable result of lexing, for comparisons between runs.
pub fn outcome(pt: &[String], text: &str) -> String {
    match guarded(|| lex_more(pt, text, 2)) {
        Ok(Ok((t, m))) => format!("{} then {m:?}", lx::show(&t)),
        Ok(Err(e)) => e.text(),
        Err(p) => format!("panic: {p}"),
    }
}

/// The outcome computed by a process that has built no lexer before, if that
/// process gives an answer.
pub fn outcome_alone(pt: &[String], text: &str) -> Option<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let hex = |t: &str| t.bytes().map(|b| format!("{b:02x}")).collect::<String>() + "\n";
    let mut child = Command::new(std::env::current_exe().ok()?)
        .arg("lex")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let input: String = pt.iter().map(|p| hex(p)).chain([hex(text)]).collect();
    let sent = child.stdin.take().map(|mut i| i.write_all(input.as_bytes()));
    let out = child.wait_with_output().ok()?;
    if !matches!(sent, Some(Ok(()))) || !out.status.success() {
        return None;
    }
    String::from_utf8(out.stdout).ok()
}

/// The other side of `outcome_alone`.
pub fn lex_alone() {
    let mut lines: Vec<String> = std::io::stdin()
        .lines()
        .map(|l| {
            let l = l.expect("input");
            let bytes = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("input")).collect();
            String::from_utf8(bytes).expect("input")
        })
        .collect();
    let text = lines.pop().expect("input");
    print!("{}", outcome(&lines, &text));
}

pub fn gen_lexer_case(s: &mut Source) -> (Vec<String>, String) {
    let (pats, text) = gen_case(s);
    (texts(&pats), string(&text))
}

pub fn self_class_check() -> bool {
    Class::Word.has('é') && !Class::Word.has('_')
}

// ------------------------------------------------------------------------ C22

/// Budgets of building a lexer from patterns of `n` characters together, in
/// allocations and in steps: cubic, and more than a hundred times what the
/// unchanged tree needs.
fn build_budget(n: u64) -> (u64, u64) {
    let n = n + 40;
    (20 * n * n + n * n * n / 5, 2_000 * n * n + 4 * n * n * n)
}

fn check_c22(pt: &[String], cx: &mut Cx) -> R {
    cx.describe(format!("patterns {pt:?}"));
    let n = pt.iter().map(|p| p.chars().count() as u64).sum();
    let (allocs, steps) = build_budget(n);
    let before = (crate::work::allocs(), crate::work::steps());
    let mut valid = 0;
    crate::work::limit_allocs(allocs);
    crate::work::limit_steps(steps);
    let done = guarded(|| {
        let ok: Vec<&String> = pt.iter().filter(|p| Lexer::builder().with_token_unit(p, 0usize).is_ok()).collect();
        valid = ok.len();
        let mut b = Lexer::builder();
        for (i, p) in ok.iter().enumerate() {
            b = b.with_token_unit(p, i).map_err(|e| e.to_string())?;
        }
        drop(b.tokenize(""));
        Ok::<_, String>(())
    });
    let used = (crate::work::allocs() - before.0, crate::work::steps() - before.1);
    crate::work::default_allocs();
    crate::work::default_steps();
    if std::env::var_os("PV_RATIO").is_some() {
        eprintln!("ratio {} {} {n}", allocs / (used.0 + 1), steps / (used.1 + 1));
    }
    cx.comparisons += pt.len() as u64;
    cx.label_if(valid < pt.len(), "has an invalid pattern");
    cx.label_if(n >= 100, "a hundred characters or more");
    match done {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("a pattern of {pt:?} is accepted alone but not in the list: {e}")),
        Err(p) => Err(format!("building a lexer of {pt:?} panics: {p}")),
    }
}

fn any_bound(s: &mut Source) -> u32 {
    match s.weighted(&[6, 3, 2, 2]) {
        0 => s.below(4),
        1 => s.range(4, 60),
        2 => s.range(61, 100_000),
        _ => u32::MAX - s.below(1000),
    }
}

/// A quantifier as text, possibly with large bounds, or none.
fn any_quant(s: &mut Source) -> String {
    match s.weighted(&[3, 4, 3, 3, 2, 3, 4]) {
        0 => "*".into(),
        1 => "+".into(),
        2 => "?".into(),
        3 => format!("{{{}}}", any_bound(s)),
        4 => format!("{{{},}}", any_bound(s)),
        5 => format!("{{{},{}}}", any_bound(s), any_bound(s)),
        _ => String::new(),
    }
}

/// Groups in groups, each with a quantifier, something next to it, or both.
fn nested_text(s: &mut Source, alpha: &[char], depth: usize) -> String {
    let lit = |s: &mut Source| re::text(&Re::Set(gen::set(s, alpha)));
    let mut t = lit(s);
    let one = s.chance(1, 2).then(|| (s.below(6), any_quant(s)));
    for _ in 0..depth {
        let (shape, q) = one.clone().unwrap_or_else(|| (s.below(6), any_quant(s)));
        t = match shape {
            0 | 1 => format!("({t}){q}"),
            2 => format!("({t}|{}){q}", lit(s)),
            3 => format!("({}|{t}){q}", lit(s)),
            4 => format!("({}{t}){q}", lit(s)),
            _ => format!("({t}{}){q}", lit(s)),
        };
    }
    t
}

pub fn c22(s: &mut Source, cx: &mut Cx) -> R {
    let alpha = gen::alphabet(s);
    let n = 1 + s.weighted(&[6, 3, 2, 1]);
    let mut nested = false;
    let mut pt: Vec<String> = (0..n)
        .map(|_| {
            let mut t = match s.weighted(&[5, 3, 2, 1, 3]) {
                0 => {
                    let depth = match s.weighted(&[6, 3, 1]) {
                        0 => s.range(1, 12),
                        1 => s.range(13, 40),
                        _ => s.range(41, 120),
                    };
                    nested |= depth >= 4;
                    nested_text(s, alpha, depth as usize)
                }
                1 => {
                    nested = true;
                    re::text(&gen::flatten(gen::pattern(s, alpha, 4, u64::MAX)))
                }
                2 => {
                    let sep = if s.chance(1, 2) { "|" } else { "" };
                    let k = s.range(5, 60);
                    let xs: Vec<String> = (0..k)
                        .map(|_| match s.weighted(&[4, 2, 2]) {
                            0 => re::text(&gen::word(s, alpha, 3)),
                            1 => format!("{}{}", re::text(&Re::Set(gen::set(s, alpha))), any_quant(s)),
                            _ => format!("({}){}", nested_text(s, alpha, 2), any_quant(s)),
                        })
                        .collect();
                    xs.join(sep)
                }
                3 => {
                    let k = s.range(5, 80);
                    let xs: String = (0..k).map(|_| *s.pick(PIECES)).collect();
                    format!("({xs})")
                }
                _ => {
                    // one or two small pieces, again and again
                    let xs: Vec<String> = (0..1 + s.below(2))
                        .map(|_| match s.below(3) {
                            0 => format!("({}){}", re::text(&gen::flatten(gen::pattern(s, alpha, 2, u64::MAX))), any_quant(s)),
                            x => nested_text(s, alpha, x as usize),
                        })
                        .collect();
                    let sep = if s.chance(1, 4) { "|" } else { "" };
                    let k = (s.range(8, 60) as usize).min(800 / xs.iter().map(String::len).max().unwrap_or(1)).max(2);
                    let t = (0..k).map(|i| xs[i % xs.len()].clone()).collect::<Vec<_>>().join(sep);
                    match s.below(3) {
                        0 => format!("({t}){}", any_quant(s)),
                        _ => t,
                    }
                }
            };
            // spoil it
            if s.chance(1, 6) {
                let mut c: Vec<char> = t.chars().collect();
                let i = s.index(c.len());
                match s.below(3) {
                    0 => {
                        c.remove(i);
                    }
                    1 => c.insert(i, *s.pick(&['(', ')', '*', '{', '[', '\\', '|'])),
                    _ => c.truncate(i),
                }
                t = c.into_iter().collect();
            }
            t
        })
        .collect();
    if s.chance(1, 12) {
        let k = s.range(1, 20);
        for _ in 0..k {
            let i = s.index(pt.len());
            pt.push(pt[i].clone());
        }
    }
    cx.label_if(nested, "nested four deep or more");
    cx.nontrivial = pt.iter().any(|p| p.chars().count() >= 12);
    check_c22(&pt, cx)
}

pub fn c22_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let n = [30, 60, 100][i % 3];
    let nest = |open: &str, close: &str| format!("{}a{}", open.repeat(n), close.repeat(n));
    let p = match i / 3 {
        0 => nest("(", ")*"),
        1 => nest("(", ")+"),
        2 => nest("(", ")?"),
        3 => nest("(", "){2}"),
        4 => nest("(", "){2,}"),
        5 => nest("(", "){0,3}"),
        6 => nest("(", ")"),
        7 => nest("(b|", ")"),
        8 => nest("(b|", ")+"),
        9 => nest("(b", ")+"),
        10 => nest("(b*", ")*"),
        11 => nest("(", "|b)*"),
        12 => nest("(", "b?)+"),
        13 => nest("(", "){4294967295}"),
        14 => nest("(b{100000}", "){7,4294967295}"),
        15 => "(a|b)*".repeat(n),
        16 => "(a?b+){3}".repeat(n),
        17 => "a*|".repeat(n) + "b",
        18 => "a{1000000}".repeat(n),
        19 => "(a|b{99999,})+|".repeat(n) + "c",
        20 => format!("[{}]", "a-z\\w".repeat(n)),
        21 => format!("(({})*)+", "ab".repeat(n)),
        22 => nest("(", ""),
        23 => nest("", ")"),
        24 => nest("(a|", ")+") + "**",
        25 => nest("((", "))+"),
        26 => nest("(a|(b|", ")*)+"),
        27 => "(a|b)".repeat(n),
        28 => "(ab|c|d)?".repeat(n),
        29 => "(a|b)(c)".repeat(n),
        30 => "[ab]?".repeat(n),
        31 => "((a|b)c|d)".repeat(n),
        32 => "a?b".repeat(n),
        33 => nest("(a|b)(", "c)"),
        34 => nest("(a|b)(", "(c|d))?"),
        35 => format!("({})+", "(a|b)".repeat(n)),
        36 => "(a|b)".repeat(n) + "|" + &"(c|d)".repeat(n),
        37 => "(a|b){2}".repeat(n),
        38 => "(a|b){0,1}".repeat(n),
        39 => "(a*|b)".repeat(n),
        40 => "(a|b)".repeat(n) + ")",
        41 => "(a|b".repeat(n),
        _ => return None,
    };
    cx.nontrivial = true;
    Some(check_c22(&[p], cx))
}

// ------------------------------------------------------------------------ C23

/// A token as the comparison sees it.
type Seen = (usize, String, (usize, usize));

fn seen(t: pango_lexer::Token<usize>) -> Seen {
    (t.kind, t.source, t.pos)
}

/// Performs one request on an iterator. The same code runs on the lexer and on
/// the plain list of its tokens.
fn request<I: Iterator<Item = Seen>>(it: &mut I, op: (u32, usize, usize)) -> String {
    let (what, n, k) = op;
    match what {
        0 | 1 => format!("next {:?}", it.next()),
        2 => format!("nth({n}) {:?}", it.nth(n)),
        3 => format!("take({n}) {:?}", it.by_ref().take(n).collect::<Vec<_>>()),
        4 => format!("skip({n}).next {:?}", it.by_ref().skip(n).next()),
        5 => format!("find kind {k} {:?}", it.find(|t| t.0 == k)),
        6 => format!("position of kind {k} {:?}", it.position(|t| t.0 == k)),
        7 => format!("any of length {n} {:?}", it.any(|t| t.1.chars().count() == n)),
        8 => format!("all shorter than {n} {:?}", it.all(|t| t.1.chars().count() < n)),
        9 => format!("step_by({}) {:?}", n + 1, it.by_ref().step_by(n + 1).take(2).collect::<Vec<_>>()),
        10 => format!("take_while kind {k} {:?}", it.by_ref().take_while(|t| t.0 == k).collect::<Vec<_>>()),
        11 => format!("map_while {:?}", it.by_ref().map_while(|t| (t.0 != k).then_some(t.2)).collect::<Vec<_>>()),
        12 => format!("find_map {:?}", it.find_map(|t| (t.2 .0 % (n + 2) == 0).then_some(t.1))),
        13 => format!("try_fold {:?}", it.try_fold(0, |a, t| if a + t.1.len() > 2 * n { Err(a) } else { Ok(a + t.1.len()) })),
        14 => format!("enumerate {:?}", it.by_ref().enumerate().nth(n)),
        15 => {
            let mut p = it.by_ref().peekable();
            let first = p.peek().cloned();
            format!("peek {first:?} {:?}", p.next())
        }
        16 => format!("fuse {:?}", it.by_ref().fuse().nth(n)),
        17 => format!("filter kind {k} {:?}", it.by_ref().filter(|t| t.0 == k).take(n).collect::<Vec<_>>()),
        18 => format!("chain {:?}", it.by_ref().take(n).chain(std::iter::once((9, String::new(), (0, 0)))).last()),
        _ => format!("zip {:?}", (0..n).zip(it.by_ref()).collect::<Vec<_>>()),
    }
}

/// What is left, asked for by consuming the iterator.
fn finish<I: Iterator<Item = Seen>>(it: I, op: u32) -> String {
    match op {
        0 => format!("collect {:?}", it.collect::<Vec<_>>()),
        1 => format!("count {}", it.count()),
        2 => format!("last {:?}", it.last()),
        3 => format!("fold {:?}", it.fold(String::new(), |a, t| a + &t.1)),
        4 => format!("max_by_key {:?}", it.max_by_key(|t| (t.1.len(), t.2))),
        5 => format!("min_by_key {:?}", it.min_by_key(|t| (t.1.len(), t.2))),
        6 => format!("partition {:?}", it.partition::<Vec<_>, _>(|t| t.0 == 0)),
        7 => {
            let mut v = Vec::new();
            it.for_each(|t| v.push(t));
            format!("for_each {v:?}")
        }
        8 => format!("reduce {:?}", it.reduce(|a, b| (b.0, a.1 + &b.1, (a.2 .0, b.2 .1)))),
        9 => format!("unzip {:?}", it.map(|t| (t.0, t.1)).unzip::<_, _, Vec<_>, Vec<_>>()),
        _ => format!("extend {:?}", {
            let mut v = vec![(0, String::new(), (0, 0))];
            v.extend(it);
            v
        }),
    }
}

fn check_c23(pt: &[String], text: &str, ops: &[(u32, usize, usize)], end: u32, cx: &mut Cx) -> R {
    cx.describe(format!("{}, requests {ops:?}, then {end}", describe(pt, text)));
    let all: Vec<Seen> = lex(pt, text).map_err(|e| e.text())?.into_iter().map(|t| (t.kind, t.source, t.pos)).collect();
    cx.label_if(all.len() >= 4, "four or more tokens");
    let fresh = || {
        let mut b = Lexer::builder();
        for (i, p) in pt.iter().enumerate() {
            b = b.with_token_unit(p, i).map_err(|e| e.to_string())?;
        }
        Ok::<_, String>(b.tokenize(text))
    };
    let _call = Call::enter();
    let mut lexer = fresh()?;
    let mut model = all.clone().into_iter();
    for (i, op) in ops.iter().enumerate() {
        let (lo, hi) = lexer.size_hint();
        let left = model.len();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(format!("size_hint is ({lo}, {hi:?}) with {left} tokens to come, before request {i} of {ops:?} on {}", describe(pt, text)));
        }
        let want = request(&mut model, *op);
        // the adapter `map` has methods of its own, so use it only where a token is looked at
        let got = match op.0 {
            0 | 1 => format!("next {:?}", lexer.next().map(seen)),
            2 => format!("nth({}) {:?}", op.1, lexer.nth(op.1).map(seen)),
            5 => format!("find kind {} {:?}", op.2, lexer.find(|t| t.kind == op.2).map(seen)),
            6 => format!("position of kind {} {:?}", op.2, lexer.position(|t| t.kind == op.2)),
            9 => format!("step_by({}) {:?}", op.1 + 1, lexer.by_ref().step_by(op.1 + 1).take(2).map(seen).collect::<Vec<_>>()),
            _ => request(&mut lexer.by_ref().map(seen), *op),
        };
        cx.comparisons += 1;
        if got != want {
            return Err(format!("request {i} of {ops:?} on {} gives {got}, not {want}", describe(pt, text)));
        }
    }
    let want = finish(model, end);
    let got = match end {
        1 => format!("count {}", lexer.count()),
        2 => format!("last {:?}", lexer.last().map(seen)),
        3 => format!("fold {:?}", lexer.fold(String::new(), |a, t| a + &t.source)),
        _ => finish(lexer.map(seen), end),
    };
    cx.comparisons += 1;
    if got != want {
        return Err(format!("after {ops:?} on {}: {got}, not {want}", describe(pt, text)));
    }
    Ok(())
}

pub fn c23(s: &mut Source, cx: &mut Cx) -> R {
    let (pats, text) = gen_case(s);
    own(&pats)?;
    let k = s.range(1, 10);
    let ops: Vec<_> = (0..k)
        .map(|_| {
            let what = s.below(20);
            let n = match s.weighted(&[8, 3, 1]) {
                0 => s.below(4),
                1 => s.range(4, 12),
                _ => s.range(13, 200),
            };
            (what, n as usize, s.index(pats.len()))
        })
        .collect();
    let end = s.below(11);
    let sh = shape(&pats, &text);
    label(cx, &sh, &text);
    cx.nontrivial = ops.iter().any(|o| o.0 > 1) && sh.stop >= 3;
    check_c23(&texts(&pats), &string(&text), &ops, end, cx)
}

pub fn c23_pinned(i: usize, cx: &mut Cx) -> Option<R> {
    let (p, t): (Vec<String>, String) = match LEX_CASES.get(i) {
        Some((p, t)) => (p.iter().map(|x| x.to_string()).collect(), t.to_string()),
        None => match scale_case(i - LEX_CASES.len()) {
            Some(x) => x,
            None => {
                let (p, t, _) = huge([0, 2, 3].get(i - LEX_CASES.len() - SCALE_CASES).copied()?, cx)?;
                let run = |cx: &mut Cx| {
                    check_c23(&p, &t, &[(2, 65_536, 0), (0, 0, 0)], 1, cx)?;
                    check_c23(&p, &t, &[(4, 700, 0), (14, 300, 0), (2, 1000, 0)], 2, cx)?;
                    check_c23(&p, &t, &[(3, 300, 0), (9, 255, 0), (16, 2000, 0)], 3, cx)
                };
                let r = run(cx);
                cx.describe(format!("{} patterns, a text of {} characters", p.len(), t.chars().count()));
                return Some(r);
            }
        },
    };
    let t: String = t.chars().take(150).collect();
    cx.nontrivial = true;
    let mut run = || {
        for op in 0..20 {
            for n in [0, 1, 5] {
                check_c23(&p, &t, &[(op, n, 0), (0, 0, 0), (op, n, p.len() - 1)], (op + n as u32) % 11, cx)?;
            }
        }
        for end in 0..11 {
            check_c23(&p, &t, &[(0, 0, 0)], end, cx)?;
            check_c23(&p, &t, &[(2, 3000, 0)], end, cx)?;
        }
        Ok(())
    };
    Some(run())
}
