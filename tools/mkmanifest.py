#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, pathlib
T = {
 "C01": ("differential testing against a reference maximal-munch lexer", "Token sequence equals that of an independent lexer built on a set-of-positions matcher, over generated pattern lists and texts sampled from, near and against them."),
 "C02": ("invariant and metamorphic testing (restart relation)", "Positions and sources checked against the text itself; no matcher is trusted except for the restart relation, which uses the lexer itself."),
 "C03": ("differential testing against a reference matcher", "Longest match of one generated pattern compared on exhaustive short strings and sampled/mutated strings."),
 "C04": ("grammar-based and mutational fuzzing against a reference recogniser", "Acceptance compared with a parser of the documented syntax written independently; a panic is a failure."),
 "C05": ("exhaustive and generated atoms against a character predicate", "Every Unicode character for the classes and a choice of groups (quick leaves out the unassigned planes), generated escapes, groups and bounds."),
 "C06": ("differential testing with recorded callbacks", "Kinds recomputed from the reference lexer's pattern index and lexeme, over mixes of the definition forms."),
 "C07": ("fuzzing with a deterministic work budget", "Work is counted in allocations, not time; the budget is orders of magnitude above the unchanged tree and far below exponential growth at the generated sizes. Work without allocation is decided by a budget of counted steps: a case that takes very long is run again in a build that counts every block of code run."),
 "C08": ("stateful testing of request histories", "Requests continue after the end; tokens are verified by the reference matcher."),
 "C09": ("mutational fuzzing against a reference error position", "Locations of rejected patterns must lie in the pattern and must not be wholly behind the first offending piece found by the reference parser."),
 "C10": ("differential testing against a chart recogniser", "Sentences, mutants and exhaustive short sequences, up to 200 tokens; grammars the constructor rejects are left to C12."),
 "C11": ("derivation-tree validation", "Every node checked against the rules, leaves against the tokens; the tree is read from its Debug text."),
 "C12": ("differential testing against a textbook SLR(1) construction", "Grammars where only rules of unreachable variables decide are left out."),
 "C13": ("differential testing against a textbook LR(0) collection", "The dot text is parsed by a small dot reader; labels are compared as item sets."),
 "C14": ("metamorphic testing (epsilon insertion) and chart recogniser", "Padded and original grammar are compared in acceptance, parse results and trees."),
 "C15": ("metamorphic testing under controlled hash seeds", "Hash keys, rule order, duplicates and parse histories are generated; results are compared with a fresh parser."),
 "C16": ("model-based testing of builder call sequences", "Outcome of build and of add_rule compared with a set model; rules observed through the machine of every start variable."),
 "C17": ("fuzzing of grammars and token streams with a work budget", "No panic and a bounded number of allocations and of calls into the terminal type."),
 "C18": ("differential testing: reference lexer composed with chart recogniser", "Texts from sentences, with noise, overlapping tokens and unlexable parts."),
 "C19": ("fuzzing of operation histories under AddressSanitizer", "Finds memory errors AddressSanitizer and the standard library's precondition checks detect on the executed histories."),
 "C21": ("fuzzing of grammars with a work budget", "Work is counted in allocations and in calls of the symbols' hash and equality; the budget is a polynomial in the items of the reference machine, more than a hundred times what the unchanged tree needs. A case that takes very long without allocating is run again in a build that counts every block of code run, and the count decides."),
 "C22": ("fuzzing of pattern texts with a work budget", "Nested groups and quantifiers, huge bounds and rejected patterns up to about 100 pieces. The budget is a cubic polynomial in the length of the texts, more than two hundred times what the unchanged tree needs; counted as in C21."),
 "C23": ("model-based testing of request sequences", "Random scripts of iterator requests against the list of tokens next yields."),
 "C20": ("metamorphic testing of terminal values and hash quality", "Placeholder values, token values and terminal hashes vary; acceptance, shape and leaves are compared."),
}
checks = [dict(property=k, quick_cmd=f"./check.sh {k}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {k}", technique=t, level="exploration", level_note=n) for k, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd="./check.sh setup", checks=checks, not_applicable=[],
  notes="All checks use only the public API of /repo's crates; there are no hooks. See DESIGN.md and known-findings.txt.")
pathlib.Path(__file__).resolve().parent.parent.joinpath("MANIFEST.json").write_text(json.dumps(m, indent=1, ensure_ascii=False) + "\n")
