From 8e0fadf8e06e0074f884b2287cb9a69bb25114f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:28 +0000
Subject: [PATCH 01/20] fix: report an empty sub expression as a pattern error

Patterns such as `()`, `|a`, `a||b` and `)` produced an empty concatenation.
The NFA compiler then panicked on it.
The grammar asks for at least one item, so this is now a parse error.
---
 pango-lexer/src/regex/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index 05eb250..eee50c9 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -154,6 +154,13 @@ impl<'a> Parser<'a> {
             literals.push(self.sub_expression_item()?);
         }
 
+        if literals.is_empty() {
+            return Err(W(vec![ParseError {
+                kind: ParseErrorKind::SubExpression,
+                pos: self.get_current_token_position(),
+            }]));
+        }
+
         Ok(literals)
     }
 
-- 
2.43.0


From ef5241bbcabeb81acc9bfef28afe9e105ab72195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:28 +0000
Subject: [PATCH 02/20] fix: reject patterns with an unmatched closing
 parenthesis

Everything from the first unmatched `)` on was silently ignored.
For example, `a)b` was treated as `a`.
---
 pango-lexer/src/regex/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index eee50c9..b0595cd 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -39,6 +39,7 @@ pub enum ParseErrorKind {
     CharacterGroupItem,
     CharacterClassCharacter,
     TokenForCharacterGroupItem,
+    EndOfInput,
 }
 
 impl std::fmt::Display for ParseErrorKind {
@@ -60,6 +61,7 @@ impl std::fmt::Display for ParseErrorKind {
                 CharacterClassCharacter => "expected CHARACTER_CLASS or CHARACTER",
                 TokenForCharacterGroupItem =>
                     "expected at least one token for the character group item",
+                EndOfInput => "expected end of input",
             }
         )
     }
@@ -101,6 +103,11 @@ impl<'a> Parser<'a> {
         }
 
         match self.expression() {
+            // The only token that stops an expression early is an unmatched parenthesis.
+            Ok(_) if self.tokens.peek().is_some() => Err(W(vec![ParseError {
+                kind: ParseErrorKind::EndOfInput,
+                pos: self.get_current_token_position(),
+            }])),
             Ok(expr) => Ok(Ast(expr)),
             Err(mut errs) => {
                 self.errors.append(&mut errs.0);
-- 
2.43.0


From 1c6146827bd283fe52a65a9500db8c3419123e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:28 +0000
Subject: [PATCH 03/20] fix: point at the token that cannot end a character
 range

The token after the range was already consumed when its position was asked for.
The error for `[a-\d]` therefore pointed at `]` instead of `\d`.
---
 pango-lexer/src/regex/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index b0595cd..75ab782 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -378,7 +378,13 @@ impl<'a> Parser<'a> {
                                 pos: _,
                                 kind: Match(end),
                             }) => ast::GroupedLiteralKind::Range(start, end),
-                            _ => {
+                            Some(Token { pos, kind: _ }) => {
+                                return Err(W(vec![ParseError {
+                                    kind: ParseErrorKind::Match,
+                                    pos,
+                                }]));
+                            }
+                            None => {
                                 return Err(W(vec![ParseError {
                                     kind: ParseErrorKind::Match,
                                     pos: self.get_current_token_position(),
-- 
2.43.0


From 65a4df82c80449367d88348a0638ea2efbba97b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:28 +0000
Subject: [PATCH 04/20] fix: read the exact number of digits in numeric escapes

All following hexadecimal digits were taken, whatever the form of the escape.
So `\x41b` was rejected, `\u0041b` took five digits and `\u41` was accepted.
Long digit sequences overflowed the code point.
Braced escapes now take four to six digits, so every code point can be written.
---
 pango-lexer/src/regex/tokenizer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index aab53fd..7171112 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -310,11 +310,11 @@ impl<'a> Tokenizer<'a> {
 
                 match ch {
                     '{' => {
-                        // Take the next four to five characters, interpret them as
+                        // Take the next four to six characters, interpret them as
                         // hexadecimal and return the unicode character.
 
                         let (digit_amount, character_code) =
-                            self.take_next_hexadecimals_and_convert_to_u32(5, None)?;
+                            self.take_next_hexadecimals_and_convert_to_u32(6, None)?;
 
                         if digit_amount < 4 {
                             return None;
@@ -338,9 +338,13 @@ impl<'a> Tokenizer<'a> {
                         let hex1 = ch.to_digit(16)?;
 
                         // Note: The first character has already been consumed.
-                        let (_, character_code) =
+                        let (digit_amount, character_code) =
                             self.take_next_hexadecimals_and_convert_to_u32(4, Some(hex1))?;
 
+                        if digit_amount != 4 {
+                            return None;
+                        }
+
                         char::from_u32(character_code)
                     }
                 }
@@ -351,8 +355,7 @@ impl<'a> Tokenizer<'a> {
     }
 
     /// Returns the count of digits and converts them to [`u32`] including the
-    /// starting digit if present. Takes all hexadecimals it can take.
-    /// It only returns `Some` when the amount was the expected amount.
+    /// starting digit if present. Takes at most `max_digits` hexadecimals.
     fn take_next_hexadecimals_and_convert_to_u32(
         &mut self,
         max_digits: usize,
@@ -374,6 +377,7 @@ impl<'a> Tokenizer<'a> {
         self.iter
             .by_ref()
             .cautious_map_while(|(_, ch)| ch.to_digit(16))
+            .take(max_digits - digit_count as usize)
             .fold(Some((digit_count, start)), |acc, d| {
                 acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
             })
-- 
2.43.0


From 29cccf565a035e72efb7d450a2d2dc9b34c5eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:28 +0000
Subject: [PATCH 05/20] fix: treat a quantifier bound that overflows on its
 last digit as invalid

Only the multiplication was checked.
The addition panicked, or wrapped around in release builds, for `{4294967296}`.
---
 pango-lexer/src/regex/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 7171112..a1aefd2 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -388,7 +388,9 @@ impl<'a> Tokenizer<'a> {
     fn take_next_decimals_and_convert_to_u32(&mut self, start: Option<u32>) -> Option<u32> {
         (&mut self.iter)
             .cautious_map_while(|(_, ch)| ch.to_digit(10))
-            .fold(start.or(Some(0)), |acc, d| Some(acc?.checked_mul(10)? + d))
+            .fold(start.or(Some(0)), |acc, d| {
+                acc?.checked_mul(10)?.checked_add(d)
+            })
     }
 
     /// Returns the end position of the current token.
-- 
2.43.0


From acf94da9363288e0ecf2eb9c520e3a010328595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:44 +0000
Subject: [PATCH 06/20] fix: keep all characters read ahead when a token is
 consumed

Characters read ahead for an earlier token were dropped when they had not all been read again.
With the tokens `a`, `abcx`, `b`, `c` and `d`, the input `abcd` lost its last characters.
---
 pango-lexer/src/lexer/input.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 668df14..0dce857 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,7 +74,7 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
+        self.rewind_suffix();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
@@ -86,6 +86,14 @@ impl<'a> InputIter<'a> {
         std::mem::replace(&mut self.current_token, new_token)
     }
 
+    /// Moves the not accepted part of the input in front of the characters that
+    /// are still to be read.
+    fn rewind_suffix(&mut self) {
+        let mut characters = std::mem::take(&mut self.token_suffix);
+        characters.extend(self.prev_characters_iter.by_ref());
+        self.prev_characters_iter = characters.into_iter();
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
-- 
2.43.0


From a5ffc88d71adf4d3ea1ac7dfbe18f828a266814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:44 +0000
Subject: [PATCH 07/20] fix: yield the last accepted token when the input ends
 inside a longer attempt

With the tokens `a` and `abc`, the input `ab` produced no token at all.
The end of the input now falls back to the longest accepted token, as a mismatch already did.
---
 pango-lexer/src/lexer/mod.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 110072f..83e1cd7 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -71,11 +71,7 @@ where
 
         while let Some(ch) = self.iter.next() {
             if !sim.can_feed(ch) {
-                // the current token is the longest token we can 'munch'
-
-                return token_kind.map(|token_kind| {
-                    Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-                });
+                break;
             }
 
             if sim.feed(ch) {
@@ -110,13 +106,10 @@ where
             }
         }
 
-        if sim.is_accepting() {
-            token_kind.map(|token_kind| {
-                Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-            })
-        } else {
-            None
-        }
+        // the current token is the longest token we can 'munch'
+        token_kind.map(|token_kind| {
+            Token::from_input_iter_token(self.iter.consume_token(), token_kind)
+        })
     }
 }
 
-- 
2.43.0


From 970c0d71eb56eeed1eab8326242660b9acb49e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:44 +0000
Subject: [PATCH 08/20] fix: do not lex past input that matches no token

Characters that matched nothing stayed in the suffix of the unfinished token.
A later request added them to the next token: with the token `ab`, the input `xab` gave `xab`.
The lexer now stays in front of such input, so it keeps reporting the end.
---
 pango-lexer/src/lexer/input.rs |  2 +-
 pango-lexer/src/lexer/mod.rs   | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 0dce857..4914845 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -88,7 +88,7 @@ impl<'a> InputIter<'a> {
 
     /// Moves the not accepted part of the input in front of the characters that
     /// are still to be read.
-    fn rewind_suffix(&mut self) {
+    pub(super) fn rewind_suffix(&mut self) {
         let mut characters = std::mem::take(&mut self.token_suffix);
         characters.extend(self.prev_characters_iter.by_ref());
         self.prev_characters_iter = characters.into_iter();
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 83e1cd7..ac92ea1 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -107,9 +107,16 @@ where
         }
 
         // the current token is the longest token we can 'munch'
-        token_kind.map(|token_kind| {
-            Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-        })
+        match token_kind {
+            Some(token_kind) => Some(Token::from_input_iter_token(
+                self.iter.consume_token(),
+                token_kind,
+            )),
+            None => {
+                self.iter.rewind_suffix();
+                None
+            }
+        }
     }
 }
 
-- 
2.43.0


From 82dc4dfa3eea21ad4d37cdad44d6d5814d31d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:44 +0000
Subject: [PATCH 09/20] fix: count the states passed before the first character

The simulation started from a closure that did not count visits.
A quantified group that starts with an optional part was then counted one round short.
For example, `(a*b){2}` did not match `bb`.
The start uses the same closure as every later step, and the other one is gone.
---
 pango-lexer/src/fsm/nfa/model.rs | 46 +-------------------------------
 pango-lexer/src/fsm/nfa/sim.rs   | 11 ++++----
 2 files changed, 7 insertions(+), 50 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index f0bf32b..6e37861 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -1,6 +1,6 @@
 use super::StateId;
 use crate::regex::{ast, tokenizer::QuantifierKind};
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 // TODO: Clean up expects and panics to be `Option` and `Result` types.
 
@@ -76,50 +76,6 @@ impl Nfa {
     pub(super) fn get_final_states(&self) -> impl Iterator<Item = &State> + '_ {
         self.states.iter().filter(|s| s.fin)
     }
-
-    /// Returns an iterator over references to all states in the static epsilon
-    /// closure of the given state.
-    ///
-    /// This implementation of the NFA uses quantified transitions which can
-    /// only be taken when the state has been visited 'x' amount of times.
-    /// This is useful to prevent the exponential growth of the NFA when
-    /// compiling complex regex quantifiers. However, this means that state
-    /// counting has to be done at 'run-time' of the NFA. Information which is
-    /// not known to the [`NfaModel`](self::Nfa). Instaid a state is always
-    /// assumed to be visited 0 times, when trying quantified transitions.
-    pub(super) fn eps_closure(&self, state_id: StateId) -> impl Iterator<Item = StateId> {
-        let mut not_visited = VecDeque::from([state_id]);
-        let mut result = BTreeSet::from([state_id]);
-
-        while let Some(state_id) = not_visited.pop_front() {
-            let State { transitions, .. } = self.get_state(state_id);
-
-            let new_state_ids = transitions
-                .iter()
-                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
-                    match input {
-                        Input::Literal(_) => None,
-                        Input::Eps => Some(Box::new(states.iter())),
-                        Input::Quantified(quantifier) => {
-                            if quantifier.is_satisfied(0) {
-                                Some(Box::new(states.iter()))
-                            } else {
-                                None
-                            }
-                        }
-                    }
-                })
-                .flatten();
-
-            for state_id in new_state_ids {
-                if result.insert(*state_id) {
-                    not_visited.push_back(*state_id)
-                }
-            }
-        }
-
-        result.into_iter()
-    }
 }
 
 impl Input {
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index dd08984..3bd6b61 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -58,12 +58,13 @@ impl Run {
 impl<'a> NfaSimulator<'a> {
     /// Creates a new [`NfaSimulator`].
     fn new(nfa: Cow<'a, Nfa>) -> Self {
-        let runs = nfa
-            .eps_closure(nfa.start_state)
-            .map(Run::new)
-            .collect::<Vec<_>>();
+        let mut sim = Self {
+            nfa,
+            runs: Vec::new(),
+        };
+        sim.runs = sim.eps_closure(Run::new(sim.nfa.start_state)).collect();
 
-        Self { nfa, runs }
+        sim
     }
 
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
-- 
2.43.0


From 5474895ad613c165f0c0808e3dbeb8124d4fbae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:44 +0000
Subject: [PATCH 10/20] fix: bound the visit counters of the NFA simulation

Counters grew without limit, also for states that are never asked for their count.
Groups that match the empty string looped forever, such as `(a*)*` and `(a?)+`.
Overlapping alternatives such as `(a|aa)*` doubled the number of runs with each character.
Counters now stop where the quantifier cannot tell a difference, and equal runs are merged.
---
 pango-lexer/src/fsm/nfa/model.rs   | 14 +++++++
 pango-lexer/src/fsm/nfa/sim.rs     | 63 ++++++++++++++++++------------
 pango-lexer/src/regex/tokenizer.rs | 15 +++++++
 3 files changed, 67 insertions(+), 25 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index 6e37861..f046a9a 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -105,6 +105,20 @@ impl State {
     fn with_id(id: StateId, fin: bool) -> Self {
         Self::new(id, fin, Transitions::new())
     }
+
+    /// Returns the amount of visits above which the quantified transition of
+    /// this state does not change anymore. It is zero without such a
+    /// transition.
+    pub(super) fn count_limit(&self) -> usize {
+        self.transitions
+            .keys()
+            .map(|input| match input {
+                Input::Quantified(quantifier) => quantifier.count_limit(),
+                Input::Literal(_) | Input::Eps => 0,
+            })
+            .max()
+            .unwrap_or(0)
+    }
 }
 
 /// Builder struct for the [`Nfa`].
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index 3bd6b61..a2f0726 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -41,13 +41,21 @@ impl Run {
 
     /// Updates the [`Run`] to the new state and updates the needed state
     /// counters.
-    fn take_transition(mut self, new_state_id: StateId, quantified: bool) -> Self {
-        let count = self.state_counters.entry(self.state_id).or_insert(0);
-        if quantified {
-            // Reset the state count if quantified transition is used
-            *count = 0;
-        } else {
-            *count += 1;
+    ///
+    /// Visits are counted up to `count_limit`. Counts above it cannot be told
+    /// apart by the quantifier of the state, and runs that only differ in them
+    /// are the same run.
+    fn take_transition(
+        mut self,
+        new_state_id: StateId,
+        quantified: bool,
+        count_limit: usize,
+    ) -> Self {
+        let count = self.state_counters.remove(&self.state_id).unwrap_or(0);
+        // Reset the state count if quantified transition is used
+        if !quantified && count_limit > 0 {
+            self.state_counters
+                .insert(self.state_id, (count + 1).min(count_limit));
         }
         self.state_id = new_state_id;
 
@@ -62,17 +70,17 @@ impl<'a> NfaSimulator<'a> {
             nfa,
             runs: Vec::new(),
         };
-        sim.runs = sim.eps_closure(Run::new(sim.nfa.start_state)).collect();
+        sim.runs = sim.eps_closure(vec![Run::new(sim.nfa.start_state)]);
 
         sim
     }
 
-    /// Returns an iterator over the runtime epsilon closure. This is an epsilon
-    /// closure of [`Run`]s, NOT of [`State`]s. Because runs contain state
-    /// counters, this will also take quantified transitions.
-    fn eps_closure(&self, run: Run) -> impl Iterator<Item = Run> {
-        let mut not_visited = VecDeque::from([run.clone()]);
-        let mut result = HashSet::from([run]);
+    /// Returns the runtime epsilon closure of all `runs` together. This is an
+    /// epsilon closure of [`Run`]s, NOT of [`State`]s. Because runs contain
+    /// state counters, this will also take quantified transitions.
+    fn eps_closure(&self, runs: Vec<Run>) -> Vec<Run> {
+        let mut result = runs.iter().cloned().collect::<HashSet<_>>();
+        let mut not_visited = result.iter().cloned().collect::<VecDeque<_>>();
 
         while let Some(run) = not_visited.pop_front() {
             let Run {
@@ -80,7 +88,8 @@ impl<'a> NfaSimulator<'a> {
                 state_counters,
             } = &run;
 
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
+            let count_limit = state.count_limit();
 
             let transitions_taken = transitions
                 .iter()
@@ -102,7 +111,10 @@ impl<'a> NfaSimulator<'a> {
 
             let new_runs = transitions_taken
                 .into_iter()
-                .map(|(new_state, quantified)| run.clone().take_transition(*new_state, quantified));
+                .map(|(new_state, quantified)| {
+                    run.clone()
+                        .take_transition(*new_state, quantified, count_limit)
+                });
 
             for new_run in new_runs {
                 if result.insert(new_run.clone()) {
@@ -111,7 +123,7 @@ impl<'a> NfaSimulator<'a> {
             }
         }
 
-        result.into_iter()
+        result.into_iter().collect()
     }
 }
 
@@ -138,7 +150,8 @@ impl Simulate for NfaSimulator<'_> {
         let mut updated_runs = Vec::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
+            let count_limit = state.count_limit();
 
             // Check for every transition if the input can make that transition.
 
@@ -153,22 +166,22 @@ impl Simulate for NfaSimulator<'_> {
                 })
                 .flatten();
 
-            // First, update the run with the new information, then calculate the epsilon
-            // closure with the updated state counters.
+            // Update the run with the new information. The epsilon closure is calculated
+            // with the updated state counters, when all runs are known.
             //
             // Note: For every run, this clones one time too many. This is not a problem as
             // `Run` is relatively cheap to clone, because it only contains
             // references and usize's.
 
-            let new_runs = new_state_ids
-                .into_iter()
-                .map(|new_state_id| run.clone().take_transition(*new_state_id, false))
-                .flat_map(|new_run| self.eps_closure(new_run));
+            let new_runs = new_state_ids.into_iter().map(|new_state_id| {
+                run.clone()
+                    .take_transition(*new_state_id, false, count_limit)
+            });
 
             updated_runs.extend(new_runs);
         }
 
-        self.runs = updated_runs;
+        self.runs = self.eps_closure(updated_runs);
 
         #[cfg(debug_assertions)]
         {
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index a1aefd2..be0b803 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -421,6 +421,21 @@ impl QuantifierKind {
     }
 }
 
+impl QuantifierKind {
+    /// Returns the count from which on a higher count is never treated
+    /// differently by [`is_satisfied`](Self::is_satisfied).
+    pub(crate) fn count_limit(&self) -> usize {
+        match self {
+            QuantifierKind::Asterisk => 0,
+            QuantifierKind::Plus => 1,
+            QuantifierKind::QuestionMark => 2,
+            QuantifierKind::Range(QuantifierRangeKind::Min(min)) => *min as usize,
+            QuantifierKind::Range(QuantifierRangeKind::Max(max))
+            | QuantifierKind::Range(QuantifierRangeKind::Range(_, max)) => *max as usize + 1,
+        }
+    }
+}
+
 impl ClassKind {
     /// Whether `c` is an element of the character class.
     pub(super) fn contains(&self, c: char) -> bool {
-- 
2.43.0


From 236e4778d5b8f4d82618ade97a348ad217acf117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:21 +0000
Subject: [PATCH 11/20] fix: end a token that is cut off at the end of the
 pattern

Its end position was always 1, so the error for `aaa{1` was located at (3, 1).
---
 pango-lexer/src/regex/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index be0b803..e1b5f33 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -10,7 +10,6 @@ use proptest_derive::Arbitrary;
 /// Regex tokenenizer.
 pub(super) struct Tokenizer<'a> {
     /// The input the tokenizer is going to tokenize.
-    #[allow(unused)]
     pub(super) input: &'a str,
     /// Iterator over the characters in the input (as defined in the rust `char`
     /// type), along with their position in the input.
@@ -400,7 +399,8 @@ impl<'a> Tokenizer<'a> {
     fn get_token_end_cursor_pos(&mut self) -> usize {
         match self.iter.current() {
             Some((cursor_pos, _)) => cursor_pos + 1,
-            None => 1,
+            // The token runs into the end of the input.
+            None => self.input.chars().count(),
         }
     }
 }
-- 
2.43.0


From 797635cc6381177cdb3c33b6dac28e92c5304b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:02 +0000
Subject: [PATCH 12/20] fix: do not duplicate states of the canonical
 finite-state machine

A new item set was only compared with the states that were already finished.
Item sets equal to the current state or to a pending state got a second state.
---
 pango-parser/src/cfsm/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pango-parser/src/cfsm/mod.rs b/pango-parser/src/cfsm/mod.rs
index 66bd8da..a0239fd 100644
--- a/pango-parser/src/cfsm/mod.rs
+++ b/pango-parser/src/cfsm/mod.rs
@@ -76,10 +76,11 @@ where
             // try all symbols with a bullet reading them
 
             let State {
+                id,
                 ref item_set,
                 ref mut transitions,
-                ..
             } = state;
+            let current_item_set = item_set;
 
             for (symbol, item_set) in item_set.iter_by_cursor_symbol() {
                 // advance the items which read the same symbol
@@ -98,13 +99,16 @@ where
 
                 let item_set = ItemSet::from((new_item_set, builder.get_grammar()));
 
+                // The state can also be the current one, or one that is still pending.
                 let new_state_id = {
                     match builder
                         .get_states_mut()
                         .iter()
+                        .chain(pending_states.iter())
                         .find(|s| s.has_item_set(&item_set))
                     {
                         Some(State { id, .. }) => *id,
+                        None if *current_item_set == item_set => id,
                         None => {
                             let state = State::new(state_id_generator.next(), item_set);
                             let state_id = state.id;
-- 
2.43.0


From 9ebadd1afa56d12b11f3938cc8b6fb6d11708a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:02 +0000
Subject: [PATCH 13/20] fix: accept grammars where two items ask for the same
 action

Two items that shift the same terminal, as in `S -> a b | a c`, were reported as a conflict.
Only different actions are a conflict.
---
 pango-parser/src/parser/table.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 0b14ae4..15899cf 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -135,6 +135,7 @@ where
 
 impl<V, T> ParseTable<V, T>
 where
+    V: Copy + Eq,
     T: TerminalEq + TerminalHash,
 {
     fn insert_action(
@@ -150,16 +151,12 @@ where
         let state = table
             .get_mut(state)
             .expect("state should exist as the table has just been resized");
-        let mut occupied = true;
-        let _entry = state.entry(terminal).or_insert_with(|| {
-            occupied = false;
-            action
-        });
+        let entry = state.entry(terminal).or_insert(action);
 
         // TODO: Return type of conflict
-        match occupied {
-            true => Err(()),
-            false => Ok(()),
+        match *entry == action {
+            true => Ok(()),
+            false => Err(()),
         }
     }
 }
-- 
2.43.0


From 34532d31a778aa40aecd2439e797ea25066d0439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:02 +0000
Subject: [PATCH 14/20] fix: do not pop the stack for epsilon symbols in a
 reduction

Epsilon symbols are never shifted, but were counted in the number of nodes to pop.
Every grammar with an empty rule built a wrong tree or panicked.
---
 pango-parser/src/parser/table.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 15899cf..7623f42 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -80,6 +80,14 @@ where
                     }
                     None => {
                         // body of the form `S -> w •`
+
+                        // epsilon is never put on the stack
+                        let amount = body
+                            .get_body()
+                            .iter()
+                            .filter(|s| !matches!(s, Symbol::Epsilon))
+                            .count();
+
                         let Some(follow) = follow_set.get(&head) else {
                             continue;
                         };
@@ -99,7 +107,7 @@ where
                                 t,
                                 ActionKind::Reduce {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount,
                                 },
                             )?;
                         }
@@ -113,7 +121,7 @@ where
                                 Terminal::Eof,
                                 ActionKind::Accept {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount,
                                 },
                             )?;
                         }
-- 
2.43.0


From 5323907ea02f6341390cd8f81fd212d7bd11d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:02 +0000
Subject: [PATCH 15/20] fix: keep a table row for every state of the parser

Rows were only created up to the last state that has an action.
Reaching a later state, which only useless variables lead to, panicked.
---
 pango-parser/src/parser/table.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 7623f42..1e480a9 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -49,7 +49,11 @@ where
 
         let follow_set = grammar.follow_set();
 
+        // every state has a row, even if there is nothing to do in it
+        let state_count = cfsm.iter().count();
         let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());
+        action.resize_with(state_count, Default::default);
+        goto.resize_with(state_count, Default::default);
 
         for cfsm::State {
             id: state_id,
-- 
2.43.0


From 7654e3a4ec96b46a0985857008c4b308613c801f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:02 +0000
Subject: [PATCH 16/20] fix: treat the end of the input as a lookahead in the
 parse table

Only rules of the start variable did something at the end of the input, and they always accepted.
- Other variables at the end of a sentence were never reduced, so their sentences were rejected.
- A nested start variable was accepted early: with `S -> a S a | b`, the input `a b` was accepted.
- A start variable that nothing follows was never accepted.
- Conflicts on the end of the input were not detected.

Reductions on the end of the input are now part of the table.
The outermost start variable is the only one that is accepted.
---
 pango-parser/src/grammar.rs      | 31 ++++++++++++++++++++++++++
 pango-parser/src/parser/slr.rs   | 37 +++++++++++++++-----------------
 pango-parser/src/parser/table.rs | 30 ++++++++++++++++----------
 3 files changed, 67 insertions(+), 31 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 5f877a2..91a9ce4 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -373,6 +373,37 @@ where
 
         result
     }
+
+    /// Returns the variables that can be followed by the end of the input. This
+    /// is the part of the follow set which is not made of symbols.
+    pub(super) fn variables_before_eof(&self) -> HashSet<V> {
+        let mut result = HashSet::from([self.start_variable]);
+        let mut pending_variables = VecDeque::from([self.start_variable]);
+
+        while let Some(head) = pending_variables.pop_front() {
+            let bodies = self.get_rule_bodies(head).expect("variable does not exist");
+
+            for body in bodies {
+                // everything behind the variable should be able to disappear
+                for symbol in body.iter().rev() {
+                    match symbol {
+                        Symbol::Terminal(_) => break,
+                        Symbol::Variable(v) => {
+                            if result.insert(*v) {
+                                pending_variables.push_back(*v);
+                            }
+                            if !self.first(*v).contains(&Symbol::Epsilon) {
+                                break;
+                            }
+                        }
+                        Symbol::Epsilon => (),
+                    }
+                }
+            }
+        }
+
+        result
+    }
 }
 
 impl<V, T> Grammar<V, T>
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index c828220..e3e04cd 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -110,7 +110,6 @@ where
             return Err(());
         };
 
-        let mut accept = false;
         let parse_node = match action_kind {
             ActionKind::Shift { dest_state } => ParseNode {
                 node: Node::from_symbol(Symbol::Terminal(
@@ -118,13 +117,28 @@ where
                 )),
                 state: *dest_state,
             },
-            ActionKind::Reduce { variable, amount } => {
+            ActionKind::Reduce { variable, amount } | ActionKind::Accept { variable, amount } => {
                 let children = stack
                     .drain((stack.len() - amount)..)
                     .map(|parse_node| parse_node.node)
                     .rev()
                     .collect();
 
+                let outermost = stack.len() == 1;
+                if outermost && matches!(action_kind, ActionKind::Accept { .. }) {
+                    return Ok((
+                        ParseNode {
+                            node: Node {
+                                symbol: Symbol::Variable(*variable),
+                                children,
+                            },
+                            // State does not matter here as the action is to accept
+                            state: StateId::default(),
+                        },
+                        true,
+                    ));
+                }
+
                 let goto = self
                     .table
                     .goto
@@ -148,26 +162,9 @@ where
                     state: *new_state,
                 }
             }
-            ActionKind::Accept { variable, amount } => {
-                let children = stack
-                    .drain((stack.len() - amount)..)
-                    .map(|parse_node| parse_node.node)
-                    .rev()
-                    .collect();
-
-                accept = true;
-                ParseNode {
-                    node: Node {
-                        symbol: Symbol::Variable(*variable),
-                        children,
-                    },
-                    // State does not matter here as the action is to accept
-                    state: StateId::default(),
-                }
-            }
         };
 
-        Ok((parse_node, accept))
+        Ok((parse_node, false))
     }
 }
 
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 1e480a9..0d67381 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -48,6 +48,7 @@ where
         let grammar = cfsm.get_grammar();
 
         let follow_set = grammar.follow_set();
+        let variables_before_eof = grammar.variables_before_eof();
 
         // every state has a row, even if there is nothing to do in it
         let state_count = cfsm.iter().count();
@@ -92,11 +93,7 @@ where
                             .filter(|s| !matches!(s, Symbol::Epsilon))
                             .count();
 
-                        let Some(follow) = follow_set.get(&head) else {
-                            continue;
-                        };
-
-                        for s in follow.iter() {
+                        for s in follow_set.get(&head).into_iter().flatten() {
                             let t = match s {
                                 Symbol::Terminal(t) => Terminal::T(t.into()),
                                 Symbol::Variable(_) => {
@@ -116,16 +113,19 @@ where
                             )?;
                         }
 
-                        if head == grammar.get_start_variable() {
-                            // reduce once to the start variable on a lookahead of eof, then
-                            // accept
+                        if variables_before_eof.contains(&head) {
+                            let variable = head;
+
                             Self::insert_action(
                                 &mut action,
                                 *state_id,
                                 Terminal::Eof,
-                                ActionKind::Accept {
-                                    variable: head,
-                                    amount,
+                                if head == grammar.get_start_variable() {
+                                    // reduce to the start variable on a lookahead of eof, then
+                                    // accept if this was the outermost one
+                                    ActionKind::Accept { variable, amount }
+                                } else {
+                                    ActionKind::Reduce { variable, amount }
                                 },
                             )?;
                         }
@@ -137,6 +137,14 @@ where
             }
         }
 
+        // The outermost start variable is accepted on a lookahead of eof. Anything else
+        // to do in that situation is a conflict.
+        if let Some(state) = goto[StateId::default()].get(&grammar.get_start_variable()) {
+            if action[*state].contains_key(&Terminal::Eof) {
+                return Err(());
+            }
+        }
+
         Ok(Self {
             action,
             goto,
-- 
2.43.0


From 586433e1935aae01a337425d5f5e1be7dd099e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:51 +0000
Subject: [PATCH 17/20] fix: do not take input that cannot be lexed for the end
 of the input

The lexer stops at text that matches no token, which the parser treated as the end.
With `x` matching no token, `3+4x` was parsed as `3+4`.
The parser now asks the lexer whether it has reached the end of its input.
---
 pango-lexer/src/lexer/input.rs | 5 +++++
 pango-lexer/src/lexer/mod.rs   | 7 +++++++
 pango-parser/src/parser/slr.rs | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 4914845..78b037a 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -94,6 +94,11 @@ impl<'a> InputIter<'a> {
         self.prev_characters_iter = characters.into_iter();
     }
 
+    /// Whether there are no more characters to read.
+    pub(super) fn is_at_end(&self) -> bool {
+        self.prev_characters_iter.len() == 0 && self.iter.clone().next().is_none()
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index ac92ea1..3c97320 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -120,6 +120,13 @@ where
     }
 }
 
+impl<TokenKind, Fsm: Simulatable> Lexer<'_, TokenKind, Fsm> {
+    /// Whether all input has been turned into tokens.
+    pub fn is_at_end(&self) -> bool {
+        self.iter.is_at_end()
+    }
+}
+
 impl<TokenKind> Lexer<'_, TokenKind, Nfa> {
     /// Creates a `LexerGenerator`.
     pub fn builder() -> LexerGenerator<TokenKind> {
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index e3e04cd..67b45ba 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -70,6 +70,11 @@ where
             stack.push(parse_node);
         }
 
+        if !input.is_at_end() {
+            // the remaining input does not match any token
+            return Err(());
+        }
+
         // eof
         next_token = None;
         while let Ok((parse_node, accept)) =
-- 
2.43.0


From 4c23da78cfd89d7458fcccd1f17b6bf23fcdf643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:51 +0000
Subject: [PATCH 18/20] fix: escape symbol names in the dot output

Debug representations often contain quotes and backslashes, for example of strings and chars.
They ended the quoted label early, so the output was not valid dot.
---
 pango-parser/src/cfsm/dot.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pango-parser/src/cfsm/dot.rs b/pango-parser/src/cfsm/dot.rs
index daaf3f6..31f13a3 100644
--- a/pango-parser/src/cfsm/dot.rs
+++ b/pango-parser/src/cfsm/dot.rs
@@ -34,7 +34,7 @@ where
         self.states.iter().map(|State { id, item_set, .. }| {
             let label = item_set
                 .iter()
-                .map(|(head, item_body)| format!("{:?} ➞ {}", head, item_body))
+                .map(|(head, item_body)| escape(&format!("{:?} ➞ {}", head, item_body)))
                 .collect::<Vec<_>>()
                 .join(r"\n");
 
@@ -54,11 +54,11 @@ where
                         "{} -> {} [label = \"{}\"]",
                         *id,
                         state,
-                        match symbol {
+                        escape(&match symbol {
                             Symbol::Terminal(t) => format!("{:?}", t),
                             Symbol::Variable(v) => format!("{:?}", v),
                             eps @ Symbol::Epsilon => format!("{:?}", eps),
-                        }
+                        })
                     )
                 })
             },
@@ -66,6 +66,11 @@ where
     }
 }
 
+/// Escapes the text for use in a quoted string of the dot language.
+fn escape(text: &str) -> String {
+    text.replace('\\', r"\\").replace('"', r#"\""#)
+}
+
 impl<V, T> Display for ItemBody<V, T>
 where
     V: Debug,
-- 
2.43.0


From ef98b7a371f25e97261092d3c30ed8bc8a727ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:41 +0000
Subject: [PATCH 19/20] fix: stop reductions that never read a token

A variable that never ends, such as `A` in `A -> B A` with an empty `B`, can be reduced to forever.
Parsing then ran until the memory was exhausted.
It now returns an error when the parser is back in a situation it was in before.
---
 pango-parser/src/parser/slr.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index 67b45ba..e4dfa93 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -45,6 +45,7 @@ where
         // TODO: Store position information about the token.
 
         let mut next_token = None;
+        let mut tops = Vec::new();
 
         let mut current_state = StateId::default();
         let mut stack = Vec::from([ParseNode {
@@ -66,8 +67,14 @@ where
                 });
             };
 
+            if next_token.is_none() {
+                // the token has been shifted
+                tops.clear();
+            }
+
             current_state = parse_node.state;
             stack.push(parse_node);
+            self.record_top(&mut tops, stack.len())?;
         }
 
         if !input.is_at_end() {
@@ -88,12 +95,38 @@ where
 
             current_state = parse_node.state;
             stack.push(parse_node);
+            self.record_top(&mut tops, stack.len())?;
         }
 
         // never reached the accept call
         Err(())
     }
 
+    /// Records that a node was put on top of the stack, which makes the stack
+    /// `height` high. Variables that never end can be reduced to forever without
+    /// reading a token, this fails when that happens.
+    ///
+    /// `tops` contains the heights the stack had since the last shift, as far as
+    /// it never became lower again, with the amount of nodes that were put
+    /// there. More heights, or more nodes on the same height, than there are
+    /// states means that a state is back in the same situation.
+    fn record_top(&self, tops: &mut Vec<(usize, usize)>, height: usize) -> Result<(), ()> {
+        while tops.last().is_some_and(|(h, _)| *h > height) {
+            tops.pop();
+        }
+
+        match tops.last_mut() {
+            Some((h, amount)) if *h == height => *amount += 1,
+            _ => tops.push((height, 1)),
+        }
+
+        let state_count = self.table.action.len();
+        match tops.last() {
+            Some((_, amount)) if *amount > state_count || tops.len() > state_count => Err(()),
+            _ => Ok(()),
+        }
+    }
+
     fn handle_token(
         &self,
         token: &mut Option<Token<T>>,
-- 
2.43.0


From f62a2926cbaaa309a3a665a8407620218bab42b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:45:41 +0000
Subject: [PATCH 20/20] fix: do not take rounds that match nothing one by one

A quantified group that can match the empty string was entered again for
every count up to its bound, so (a*){4294967294} did not come to an end.
Such rounds only help to reach the lower bound, so go there at once.
---
 pango-lexer/src/fsm/nfa/model.rs   | 13 ++++++++++
 pango-lexer/src/fsm/nfa/sim.rs     | 41 ++++++++++++++++++++++++++----
 pango-lexer/src/regex/tokenizer.rs | 11 ++++++++
 3 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index f046a9a..7f77a70 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -119,6 +119,19 @@ impl State {
             .max()
             .unwrap_or(0)
     }
+
+    /// Returns the lowest amount of visits that allows the quantified
+    /// transition of this state. It is zero without such a transition.
+    pub(super) fn lower_bound(&self) -> usize {
+        self.transitions
+            .keys()
+            .map(|input| match input {
+                Input::Quantified(quantifier) => quantifier.lower_bound(),
+                Input::Literal(_) | Input::Eps => 0,
+            })
+            .max()
+            .unwrap_or(0)
+    }
 }
 
 /// Builder struct for the [`Nfa`].
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index a2f0726..28a9696 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -78,11 +78,19 @@ impl<'a> NfaSimulator<'a> {
     /// Returns the runtime epsilon closure of all `runs` together. This is an
     /// epsilon closure of [`Run`]s, NOT of [`State`]s. Because runs contain
     /// state counters, this will also take quantified transitions.
+    ///
+    /// With every run come the counting states it has left since the last
+    /// character. Returning to one of them is a round that matches nothing. It
+    /// only helps to reach the lower bound of the quantifier, so such rounds
+    /// are not taken one by one.
     fn eps_closure(&self, runs: Vec<Run>) -> Vec<Run> {
-        let mut result = runs.iter().cloned().collect::<HashSet<_>>();
+        let mut result = runs
+            .into_iter()
+            .map(|run| (run, BTreeSet::new()))
+            .collect::<HashSet<_>>();
         let mut not_visited = result.iter().cloned().collect::<VecDeque<_>>();
 
-        while let Some(run) = not_visited.pop_front() {
+        while let Some((run, left)) = not_visited.pop_front() {
             let Run {
                 state_id,
                 state_counters,
@@ -111,9 +119,27 @@ impl<'a> NfaSimulator<'a> {
 
             let new_runs = transitions_taken
                 .into_iter()
-                .map(|(new_state, quantified)| {
-                    run.clone()
-                        .take_transition(*new_state, quantified, count_limit)
+                .filter_map(|(new_state, quantified)| {
+                    let mut left = left.clone();
+                    if quantified {
+                        left.remove(state_id);
+                    } else if count_limit > 0 {
+                        left.insert(*state_id);
+                    }
+
+                    let mut new_run =
+                        run.clone()
+                            .take_transition(*new_state, quantified, count_limit);
+                    if left.contains(new_state) {
+                        let lower_bound = self.nfa.get_state(*new_state).lower_bound();
+                        let count = new_run.state_counters.get_mut(new_state)?;
+                        if *count > lower_bound {
+                            return None;
+                        }
+                        *count = lower_bound;
+                    }
+
+                    Some((new_run, left))
                 });
 
             for new_run in new_runs {
@@ -123,6 +149,11 @@ impl<'a> NfaSimulator<'a> {
             }
         }
 
+        let result = result
+            .into_iter()
+            .map(|(run, _)| run)
+            .collect::<HashSet<_>>();
+
         result.into_iter().collect()
     }
 }
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index e1b5f33..c0a30da 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -434,6 +434,17 @@ impl QuantifierKind {
             | QuantifierKind::Range(QuantifierRangeKind::Range(_, max)) => *max as usize + 1,
         }
     }
+
+    /// Returns the lowest count of the range of the quantifier.
+    pub(crate) fn lower_bound(&self) -> usize {
+        match self {
+            QuantifierKind::Asterisk | QuantifierKind::QuestionMark => 0,
+            QuantifierKind::Plus => 1,
+            QuantifierKind::Range(QuantifierRangeKind::Max(min))
+            | QuantifierKind::Range(QuantifierRangeKind::Min(min))
+            | QuantifierKind::Range(QuantifierRangeKind::Range(min, _)) => *min as usize,
+        }
+    }
 }
 
 impl ClassKind {
-- 
2.43.0

