//! The table of properties: generator and oracle, fixed cases, amount of work,
//! and what counts as a non-trivial case.

use crate::engine::{CaseFn, Cx};
use crate::{p_lex as l, p_par as p};

pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    pub pinned: fn(usize, &mut Cx) -> Option<Result<(), String>>,
    pub quick: usize,
    pub thorough: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const LEX: &[&str] = &[
    "reference matcher: a set-of-positions simulation written from the documented pattern syntax, with its own pattern parser",
];
const PAR: &[&str] = &[
    "reference: textbook LR(0) collection, FOLLOW sets and a derivation table (up to 63 tokens) or Earley recogniser (longer)",
    "the tree is read from its Debug output",
];

macro_rules! prop {
    ($id:literal, $m:ident :: $f:ident, $g:ident, $q:expr, $t:expr, $rule:literal, $a:expr) => {
        Prop { id: $id, case: $m::$f, pinned: $m::$g, quick: $q, thorough: $t, rule: $rule, assumptions: $a }
    };
}

pub const PROPS: &[Prop] = &[
    prop!("C01", l::c01, c01_pinned, 1_200_000, 18_000_000, "at least two tokens are produced and at some position a longer attempt failed, two patterns tied, or quantifiers are nested", LEX),
    prop!("C02", l::c02, c02_pinned, 800_000, 12_000_000, "at least two tokens are produced and at some position a longer attempt failed, two patterns tied, or quantifiers are nested", LEX),
    prop!("C03", l::c03, c03_pinned, 200_000, 3_000_000, "the pattern has an operator and the inputs include members and non-members", LEX),
    prop!("C04", l::c04, c04_pinned, 1_600_000, 24_000_000, "the pattern is invalid or has at least three characters", LEX),
    prop!("C05", l::c05, c05_pinned, 600_000, 9_000_000, "the atom is tried on members and non-members, contains an escape, or is a sequence with numbers of at least two parts", LEX),
    prop!("C06", l::c06, c06_pinned, 1_000_000, 15_000_000, "at least two tokens are produced and definition forms are mixed or a mapping function is used", LEX),
    prop!("C07", l::c07, c07_pinned, 700_000, 10_500_000, "at least eight characters, and a quantifier over something that is itself quantified or can be empty", LEX),
    prop!("C08", l::c08, c08_pinned, 800_000, 12_000_000, "the input has at least two characters and cannot be tokenised to its end", LEX),
    prop!("C09", l::c09, c09_pinned, 1_600_000, 24_000_000, "the pattern is rejected", LEX),
    prop!("C10", p::c10, c10_pinned, 400_000, 6_000_000, "the grammar is accepted, has at least two rules, and the token sequences include sentences and non-sentences", PAR),
    prop!("C11", p::c11, c11_pinned, 400_000, 6_000_000, "a tree over at least two tokens is checked", PAR),
    prop!("C12", p::c12, c12_pinned, 1_500_000, 22_500_000, "the grammar has at least three rules", PAR),
    prop!("C13", p::c13, c13_pinned, 800_000, 12_000_000, "the machine has at least four states and a state reached in two ways", PAR),
    prop!("C14", p::c14, c14_pinned, 350_000, 5_250_000, "the padded grammar differs from the original and at least two sequences are parsed", PAR),
    prop!("C15", p::c15, c15_pinned, 160_000, 2_400_000, "at least three rules and two parsed sequences (or a rejected grammar); for lexers at least two patterns and a token", PAR),
    prop!("C16", p::c16, c16_pinned, 1_000_000, 15_000_000, "at least three builder calls and two different rules", PAR),
    prop!("C17", p::c17, c17_pinned, 500_000, 7_500_000, "the grammar is accepted, a stream is rejected, and some stream has at least four characters", PAR),
    prop!("C18", p::c18, c18_pinned, 900_000, 13_500_000, "the text yields at least two tokens", PAR),
    prop!("C19", p::c19, c19_pinned, 100_000, 1_500_000, "machines or parsers were used at least twice in the history", &["memory errors are those AddressSanitizer reports"]),
    prop!("C20", p::c20, c20_pinned, 220_000, 3_300_000, "a sequence of at least two tokens is parsed", PAR),
    prop!("C21", p::c21, c21_pinned, 500_000, 7_500_000, "the grammar has at least three rules", PAR),
    prop!("C22", l::c22, c22_pinned, 500_000, 7_500_000, "a pattern has at least twelve characters", &[]),
    prop!("C23", l::c23, c23_pinned, 600_000, 9_000_000, "a request other than next, on a text with at least three characters in tokens", &[]),
];
