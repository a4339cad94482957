#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one property per line)."""
import json, pathlib
L = "pango-lexer/src/"
P = "pango-parser/src/"
props = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

p("C01", "Longest match wins, and the earliest declared token wins ties",
  "For every list of valid token patterns and every input text, the lexer yields exactly the tokens obtained by repeatedly taking, at the current position, the longest non-empty prefix of the remaining input that any pattern matches, and labelling it with the earliest declared pattern that matches that prefix. It stops only at the end of the input or at the first position where no pattern matches any non-empty prefix, also when a longer match was attempted and failed, or the input ended in the middle of it.",
  ["inputs", "programs"], "all pattern lists (programs) x all input texts",
  "The one lexer test has one pattern list and one text, whose zip-based comparison even stops at the shorter side; it never backs off from a failed longer match, never ends inside one, and never has two patterns tying except one pair.",
  [L+"lexer/mod.rs", L+"lexer/input.rs", L+"fsm/nfa/sim.rs", L+"fsm/nfa/compiler.rs"],
  [("maximal munch loop", L+"lexer/mod.rs Iterator::next"), ("pushback of the unaccepted suffix", L+"lexer/input.rs consume_token/accept_suffix"), ("lower final state id = earlier declared pattern", L+"lexer/mod.rs add_token; "+L+"fsm/nfa/sim.rs get_current_final_states")],
  ["tokens (kind, source, pos) yielded by iterating the lexer"],
  [("unaccepted suffix", "characters read beyond the last accepted one", L+"lexer/input.rs")])
p("C02", "Tokens tile the input: no character is lost, repeated or misplaced",
  "For every pattern list and every Unicode input, the tokens are non-empty, each token's source is exactly the input's characters between its start and end position (counted in characters), the first token starts at 0 and each next token starts where the previous one ended. Lexing the rest of the input from any token boundary with a fresh lexer yields the same remaining tokens, shifted, and where the tokens stop short of the end, a fresh lexer started there yields nothing.",
  ["inputs", "programs", "histories"], "all pattern lists x all input texts x all cut points at token boundaries",
  "The only positions the tests compare are five ASCII tokens of one text; no multi-byte input, no repeated pushback across several tokens, and no restart relation.",
  [L+"lexer/input.rs", L+"lexer/mod.rs"],
  [("character-indexed input with pushback", L+"lexer/input.rs"), ("token position bookkeeping", L+"lexer/input.rs accept_suffix, consume_token")],
  ["source and pos of the tokens yielded by iterating the lexer"],
  [("pushed back characters", "characters read for an earlier token and to be read again", L+"lexer/input.rs prev_characters_iter")])
p("C03", "Patterns denote exactly the standard regular language of their operators",
  "For every valid pattern built from literals, classes, groups, alternation, concatenation and the quantifiers *, +, ?, {n}, {n,} and {n,m}, nested in any way, and for every string, the pattern matches the string if and only if the string is in the standard regular language of that expression. This includes quantified groups that begin with or contain quantified or empty-matching parts, and {n,m} with n greater than m, which matches nothing.",
  ["programs", "inputs"], "all patterns x all strings",
  "The simulator tests check eight fixed patterns on a few strings each; no quantified group starts with another quantified part, none is nested deeper than one level, and no group can match the empty string.",
  [L+"fsm/nfa/compiler.rs", L+"fsm/nfa/sim.rs", L+"fsm/nfa/model.rs", L+"regex/tokenizer.rs", L+"regex/parser.rs"],
  [("counted-state NFA construction", L+"fsm/nfa/compiler.rs expr"), ("per-run visit counters", L+"fsm/nfa/sim.rs Run::take_transition, eps_closure"), ("quantifier satisfaction", L+"regex/tokenizer.rs QuantifierKind::is_satisfied"), ("operator precedence", L+"regex/parser.rs")],
  ["longest prefix matched by a single-token lexer"],
  [("state counters", "how often a run has gone round each quantified state", L+"fsm/nfa/sim.rs")])
p("C04", "Exactly the documented pattern syntax is accepted; the rest is an error",
  "Registering a token pattern succeeds if and only if the whole pattern text conforms to the documented pattern grammar and escape syntax; every other text is reported as an error by the registration call. No text makes registration or building the lexer panic, and no accepted pattern has part of its text ignored.",
  ["inputs"], "all pattern strings",
  "The unit tests parse one pattern; the proptest only feeds valid patterns and only checks that parsing succeeds, so no invalid text and no wrongly ignored text is ever tried, and the parsed patterns are never compiled.",
  [L+"regex/parser.rs", L+"regex/tokenizer.rs", L+"regex/ast.rs", L+"lexer/mod.rs", L+"fsm/nfa/compiler.rs"],
  [("recursive descent parser for the documented grammar", L+"regex/parser.rs"), ("regex tokenizer, Invalid tokens", L+"regex/tokenizer.rs"), ("error returned by add_token", L+"lexer/mod.rs")],
  ["Ok/Err of with_token, with_token_unit, with_token_map; language of the accepted pattern"])
p("C05", "Every escape, class and character group matches exactly its characters",
  "Each single-character pattern (a literal, an escape such as \\n, \\cX, \\xHH, \\uHHHH or \\u{H...}, a class ., \\w, \\W, \\d, \\D, \\s, \\S, or a possibly negated character group of characters, ranges and classes) matches exactly the characters it denotes and no other, for every Unicode character. Numeric escapes take exactly their number of digits, so digits that follow them are ordinary characters, and quantifier bounds are read as the decimal numbers they are.",
  ["inputs", "programs"], "all single-character patterns x all Unicode scalar values",
  "The tests try about a dozen character/atom pairs, never a boundary of a range, never a digit after a numeric escape, and never a non-ASCII member of a class.",
  [L+"regex/tokenizer.rs", L+"regex/ast.rs", L+"regex/parser.rs", L+"iter/cautious/map_while.rs", L+"iter/peekable.rs"],
  [("escape decoding", L+"regex/tokenizer.rs handle_escape_sequence, handle_unicode_escape_sequence"), ("class membership", L+"regex/tokenizer.rs ClassKind::contains"), ("group membership", L+"regex/ast.rs LiteralKind::contains")],
  ["which characters a lexer with that pattern turns into its token"])
p("C06", "A token's kind comes from its own pattern and its complete lexeme",
  "For every token the lexer yields, its kind is the constant or the result of the function registered with the pattern that won it, and a mapping function's result is that of applying it to exactly the token's source. The three ways of registering a pattern (constant, function without argument, mapping function) can be mixed freely and give the same token boundaries and winners.",
  ["inputs", "programs", "configurations"], "all pattern lists x all mixes of registration forms x all inputs",
  "One test has one mapping function, used for one token of one text.",
  [L+"lexer/mod.rs"],
  [("token kind generators keyed by final state", L+"lexer/mod.rs TokenKindGenerator, add_token, Iterator::next")],
  ["kind of the tokens yielded by iterating the lexer"])
p("C07", "Lexing terminates with moderate work for every pattern and input",
  "For every accepted list of patterns and every finite input, each request for the next token terminates, and the work it needs grows moderately with the input length: it never becomes infinite or exponential. This includes quantified groups that can match the empty string, such as (a*)* and (a?){4294967295}, and alternatives that overlap, such as (a|aa)*.",
  ["inputs", "programs"], "all pattern lists x all inputs",
  "All tests use patterns whose quantified parts consume a character in every round and whose alternatives do not overlap, on short inputs.",
  [L+"fsm/nfa/sim.rs", L+"fsm/nfa/model.rs", L+"lexer/mod.rs"],
  [("visited set of the epsilon closure", L+"fsm/nfa/sim.rs eps_closure"), ("set of runs", L+"fsm/nfa/sim.rs feed")],
  ["memory allocations made while iterating the lexer (a deterministic measure of work)"],
  [("runs", "the simulator's current decision branches", L+"fsm/nfa/sim.rs")])
p("C08", "The end of the token stream is final",
  "Once the lexer has reported the end of its tokens, because the input is exhausted or because no pattern matches, it reports the end on every later request. No request history ever produces a token whose source is not matched by the pattern that won it.",
  ["histories", "inputs", "programs"], "all pattern lists x all inputs x all sequences of requests, including after the end",
  "No test asks for a token after the first end.",
  [L+"lexer/mod.rs", L+"lexer/input.rs"],
  [("handling of the unaccepted suffix when no token is found", L+"lexer/mod.rs Iterator::next; "+L+"lexer/input.rs")],
  ["results of repeated next() calls"])
p("C09", "A rejected pattern is reported with locations inside the pattern",
  "Every error returned for a rejected pattern displays at least one message, and each displayed message carries a start and end position, in characters, that delimits a non-empty range inside the pattern text. Where the first offending part is a malformed or misplaced piece of the pattern, the range does not lie entirely after that piece.",
  ["inputs"], "all rejected pattern strings",
  "No test looks at an error.",
  [L+"regex/parser.rs", L+"regex/tokenizer.rs", L+"iter/peekable.rs"],
  [("error positions from the current or next token", L+"regex/parser.rs get_current_token_position"), ("token positions", L+"regex/tokenizer.rs get_token_end_cursor_pos")],
  ["Display of the error returned by with_token*"])
p("C10", "The parser accepts exactly the sentences of the grammar",
  "For every grammar accepted by the SLR parser constructor and every sequence of tokens, parsing succeeds if and only if the token sequence can be derived from the grammar's start variable. In particular prefixes of sentences, sentences with trailing tokens, and the empty sequence are accepted only if they are sentences themselves, and grammars with empty rules, recursive start variables and several variables that can end a sentence are handled like any other.",
  ["programs", "inputs"], "all SLR(1) grammars x all token sequences",
  "The one parser test has one grammar with one left-recursive variable and one accepted text; no text is rejected, there is no second variable and no empty rule.",
  [P+"parser/slr.rs", P+"parser/table.rs", P+"grammar.rs", P+"cfsm/mod.rs", P+"cfsm/item.rs"],
  [("shift-reduce loop", P+"parser/slr.rs parse, handle_token"), ("SLR action and goto tables", P+"parser/table.rs new_slr"), ("FIRST and FOLLOW", P+"grammar.rs first_bodies, follow_set"), ("CFSM", P+"cfsm/mod.rs from_grammar")],
  ["Ok/Err of parsing"],
  [("parse stack", "nodes and states of the prefix read so far", P+"parser/slr.rs")])
p("C11", "The syntax tree is the derivation of the parsed tokens",
  "Whenever parsing succeeds, the tree's root is the start variable, every inner node together with its children is an application of one of the grammar's rules, every leaf is one of the input's tokens, and reading the leaves in the tree's child order (the last symbol of a rule first) gives all tokens of the input, last token first, each exactly once. For the accepted grammars, which are unambiguous, this makes the tree the unique derivation tree.",
  ["programs", "inputs"], "all SLR(1) grammars x all their sentences",
  "One tree of one sentence of one grammar is compared.",
  [P+"parser/slr.rs", P+"parser/table.rs", P+"cst.rs"],
  [("children drained from the stack on reduce", P+"parser/slr.rs handle_token"), ("reduce amounts", P+"parser/table.rs new_slr")],
  ["Debug output of the returned tree"],
  [("tree node", "symbol and children", P+"cst.rs")])
p("C12", "The constructor accepts exactly the SLR(1) grammars",
  "Constructing an SLR parser succeeds if and only if the grammar is SLR(1) in the textbook sense (no shift/reduce, reduce/reduce or accept/reduce conflict in the SLR table of the grammar augmented with an end marker). For every other grammar the constructor reports that the grammar is not SLR; it never silently resolves a conflict.",
  ["programs"], "all well-formed grammars",
  "One SLR grammar is constructed in the tests and two examples; no grammar with a conflict and none with two rules sharing a first token is tried.",
  [P+"parser/table.rs", P+"parser/slr.rs", P+"grammar.rs", P+"cfsm/mod.rs"],
  [("conflict detection on insertion", P+"parser/table.rs insert_action"), ("FOLLOW sets", P+"grammar.rs follow_set"), ("item sets", P+"cfsm/item.rs")],
  ["whether constructing the parser succeeds or panics with 'grammar is not SLR'"])
p("C13", "The finite-state machine of a grammar is its canonical LR(0) automaton",
  "For every grammar, the machine built from it, as shown by its dot output, has exactly the states reachable from the closure of the start rules: each state's items are the closure of its kernel, no two states have the same items, each state has exactly one transition per symbol following a cursor, and it leads to the state of the advanced items. The start state is state 0, and the output is well-formed dot text.",
  ["programs"], "all well-formed grammars",
  "The test builds one machine and looks at nothing in it.",
  [P+"cfsm/mod.rs", P+"cfsm/item.rs", P+"cfsm/state.rs", P+"cfsm/dot.rs"],
  [("worklist over item sets", P+"cfsm/mod.rs from_grammar"), ("closure", P+"cfsm/item.rs from_incomplete_map"), ("cursor advance", P+"cfsm/item.rs advance"), ("rendering", P+"cfsm/dot.rs")],
  ["dot output of the machine"])
p("C14", "Explicit epsilon symbols and empty rules mean the empty sequence",
  "An empty rule body and one consisting only of epsilon symbols both derive the empty sequence, and inserting epsilon symbols anywhere in rule bodies changes neither whether the grammar is accepted as SLR, nor which token sequences are parsed, nor the resulting trees.",
  ["programs", "inputs"], "all grammars x all ways of inserting epsilon symbols x all token sequences",
  "Epsilon is only tested in FIRST sets and in moving one cursor; no grammar with an epsilon is ever parsed.",
  [P+"cfsm/item.rs", P+"grammar.rs", P+"parser/table.rs", P+"parser/slr.rs"],
  [("cursor skips epsilons", P+"cfsm/item.rs From<&Body>, advance"), ("empty bodies default to epsilon", P+"grammar.rs add_rule"), ("reduce amount", P+"parser/table.rs new_slr")],
  ["constructor outcome, parse outcome and tree for the original and the epsilon-padded grammar"])
p("C15", "Results do not depend on hashing, rule order, or what was parsed before",
  "Whether a grammar is accepted, and the outcome and tree of parsing any input with it, are the same in every run of the program, whatever order hash tables iterate in and in whatever order or grouping the rules were added, also when a rule is added twice. A parser can be moved and used for any sequence of successful and failing parses, and each gives the same result as a freshly built parser; the same holds for lexers built from the same patterns.",
  ["histories", "configurations", "inputs"], "all grammars x all hash seeds x all rule orders x all sequences of parses",
  "Each test builds its grammar once and parses once, with whatever hash seed the process draws; nothing compares two runs.",
  [P+"grammar.rs", P+"cfsm/mod.rs", P+"parser/table.rs", P+"parser/slr.rs", L+"fsm/nfa/sim.rs", L+"fsm/nfa/model.rs"],
  [("fixpoints that must not depend on visiting order", P+"grammar.rs first_bodies, follow_set"), ("state numbering follows hash order", P+"cfsm/mod.rs from_grammar"), ("immutable tables shared by parses", P+"parser/slr.rs parse(&self)")],
  ["outcomes and trees compared across hash seeds, rule orders and parse histories"])
p("C16", "The grammar builder accepts exactly the complete grammars",
  "Building a grammar succeeds if and only if a start variable has been set and that variable and every variable used in any rule body have at least one rule; otherwise it panics with a message that names the missing piece. The grammar built depends only on the set of rules added and on the start variable set last, not on how the rules were added; adding a single rule reports whether it was new.",
  ["histories", "programs"], "all sequences of builder calls",
  "Four fixed builder sequences are tested, none with a repeated rule, a changed start variable or a forward reference.",
  [P+"grammar.rs"],
  [("runtime checks", P+"grammar.rs GrammarBuilder::build"), ("rule insertion", P+"grammar.rs add_rule, add_rules")],
  ["whether building panics, the panic message, add_rule's result, behaviour of the built grammar's machine"])
p("C17", "Parsing any token stream ends with an answer: no panic, no endless loop",
  "For every accepted grammar, including ones with useless, unreachable or endlessly recursive variables, and for every token stream, including tokens the grammar does not mention, streams that end early and streams far longer than any sentence, parsing returns a tree or an error. It never panics, and its work is bounded by a polynomial in the number of tokens.",
  ["programs", "inputs"], "all SLR(1) grammars, useless symbols included x all token streams",
  "The one parser test parses one valid sentence.",
  [P+"parser/slr.rs", P+"parser/table.rs"],
  [("table lookups", P+"parser/slr.rs handle_token"), ("table sizing", P+"parser/table.rs insert_action, insert_goto"), ("end-of-input loop", P+"parser/slr.rs parse")],
  ["Ok/Err of parsing; count of table probes (calls to the terminal's hash and equality)"])
p("C18", "A text is parsed only if all of it tokenises into a sentence",
  "For every lexer and accepted grammar over its token kinds, parsing a text succeeds if and only if the longest-match tokenisation covers the whole text and the resulting token kinds are a sentence of the grammar. Text that cannot be tokenised, at the start, in the middle or at the end, is never skipped or ignored.",
  ["inputs", "programs"], "all token definitions x all SLR(1) grammars x all texts",
  "The two crates meet in one test, on one text that tokenises completely.",
  [P+"parser/slr.rs", L+"lexer/mod.rs", L+"lexer/input.rs"],
  [("parser pulls tokens from the lexer until it reports the end", P+"parser/slr.rs parse"), ("lexer reports an untokenisable rest as the end", L+"lexer/mod.rs Iterator::next")],
  ["Ok/Err and tree of parsing a text"])
p("C19", "Using grammars, machines and parsers never violates memory safety",
  "No sequence of building grammars, machines and parsers, moving, printing and using them and dropping them in any order accesses memory that is freed, uninitialised or out of bounds, although machines and parse tables keep raw pointers into the grammar they own.",
  ["histories", "programs"], "all sequences of build, move, print, parse and drop operations",
  "The tests build one machine and one parser each, never move or print them, and run without any memory checker.",
  [P+"cfsm/item.rs", P+"cfsm/state.rs", P+"cfsm/mod.rs", P+"parser/table.rs"],
  [("pinned self-referential machine", P+"cfsm/mod.rs"), ("raw pointers to bodies, symbols and terminals", P+"cfsm/item.rs ItemBody, "+P+"cfsm/state.rs WSymbol, "+P+"parser/table.rs Terminal"), ("machine kept alive by the table", P+"parser/table.rs ParseTable")],
  ["AddressSanitizer reports while running generated operation sequences"])
p("C20", "Terminals are matched by user-defined kind and keep their values",
  "Tokens are matched to grammar terminals only by the user's terminal equality and hash, so changing the values carried by tokens, or the placeholder value the grammar uses for a kind of terminal, changes neither which inputs are accepted nor the shape of the tree. Every leaf of the tree is the input's own token value, never the grammar's placeholder.",
  ["programs", "inputs"], "all grammars x all token sequences x all values carried by tokens and placeholders",
  "One test has one value-carrying terminal, with one placeholder and four tokens.",
  [P+"parser/table.rs", P+"parser/slr.rs", P+"parser/traits.rs"],
  [("terminal lookup by user equality and hash", P+"parser/table.rs PartialEq/Hash for Terminal"), ("shifted token moved into the leaf", P+"parser/slr.rs handle_token")],
  ["outcome and leaves of the tree"])
p("C21", "Constructing machines and parsers always comes to an end",
  "For every complete grammar, including ones with unreachable variables, variables without end, variables that derive themselves, empty rules and long or deeply nested rules, building the machine, printing it and constructing the SLR parser each come to an end. The constructor returns a parser or reports that the grammar is not SLR and fails in no other way, and the work is bounded by a polynomial in the size of the grammar and its machine.",
  ["programs"], "all well-formed grammars",
  "The tests construct four small grammars, none with a cycle of unit rules, a variable without end or more than a handful of rules.",
  [P+"grammar.rs", P+"cfsm/mod.rs", P+"cfsm/item.rs", P+"parser/table.rs", P+"cfsm/dot.rs"],
  [("fixpoints over FIRST and FOLLOW", P+"grammar.rs first_bodies, follow_set"), ("worklist over item sets", P+"cfsm/mod.rs from_grammar"), ("closure", P+"cfsm/item.rs from_incomplete_map")],
  ["whether construction returns, panics with 'grammar is not SLR' or fails otherwise; count of allocations and of calls to the symbols' hash and equality"])
p("C22", "Building a lexer comes to an end with moderate work, whatever the bounds",
  "For every list of token patterns, valid or not, registering the patterns and building the lexer come to an end. The work is bounded by a polynomial in the length of the pattern texts: it is not exponential in the depth of nested groups and quantifiers, and it does not grow with the size of the numbers used as repetition bounds.",
  ["inputs"], "all pattern texts within the depth the call stack allows",
  "The tests build patterns of a few characters, with at most one quantifier inside another and no large bound.",
  [L+"regex/parser.rs", L+"regex/tokenizer.rs", L+"fsm/nfa/compiler.rs", L+"lexer/mod.rs"],
  [("recursive descent over nested groups", L+"regex/parser.rs"), ("bounds kept as numbers, not unrolled", L+"fsm/nfa/compiler.rs"), ("one machine for all tokens", L+"lexer/mod.rs")],
  ["whether the build returns; count of allocations and, for builds that seem not to end, of blocks of code run"])
p("C23", "Every way of iterating over a lexer sees the same tokens",
  "For every lexer, every text and every sequence of iterator requests on the lexer (next, nth, skip, step_by, take, find, position, fold, count, last, collect, size_hint and the like), the results are those determined by the sequence of tokens that repeated calls of next yield: no request drops, repeats or alters a token, and the bounds given by size_hint always hold.",
  ["histories"], "all lexers, texts and request sequences",
  "The tests only use next and collect, always from the start of the text.",
  [L+"lexer/mod.rs"],
  [("Iterator implementation, default methods built on next", L+"lexer/mod.rs")],
  ["tokens, counts and positions returned by each request"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in props))
print(len(props))
