From 5df2f07dd152bcdb8b5c277d6029baa844b74824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 01/36] fix: repoint every exit of an alternative to the
 success state

The last state of an alternative is not always the only one leading out of
it: in (a|b)|c the exits of the inner group kept pointing at c, so that a did
not match and ac did. An alternative without any states (a{0}) broke likewise.
---
 noodle/src/expression.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ba1212a..ce4988e 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -91,24 +91,35 @@ impl Expression {
             }
             parser::Ast::Alternatives(alts) => {
                 states.push(State::new());
-                let mut end_indexes = vec![];
+                let mut alt_ranges = vec![];
                 for alt in alts {
-                    let next_index = states.len();
-                    states[initial_len]
-                        .epsilon_states_bitset_mut()
-                        .insert(next_index);
+                    let start_index = states.len();
                     Self::build_states(alt, states);
-                    end_indexes.push(states.len() - 1);
+                    alt_ranges.push(start_index..states.len());
                 }
                 let next_index = states.len();
-                for end_index in end_indexes {
-                    // Repoint the terminal states to the true success state
-                    let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.remove(end_index + 1);
-                        epsilon_states.insert(next_index);
+                for range in alt_ranges {
+                    let end_index = range.end;
+                    // An alternative may be empty (e.g. `a{0}`), in which case it has no states
+                    states[initial_len]
+                        .epsilon_states_bitset_mut()
+                        .insert(if range.is_empty() {
+                            next_index
+                        } else {
+                            range.start
+                        });
+                    // Repoint every transition out of the alternative to the true success state.
+                    // (Its last state is not necessarily the only one that leads out of it)
+                    for state in states[range].iter_mut() {
+                        let mut epsilon_states = state.epsilon_states_bitset_mut();
+                        if epsilon_states.contains(end_index) {
+                            epsilon_states.remove(end_index);
+                            epsilon_states.insert(next_index);
+                        }
+                        if state.next_state == end_index {
+                            state.next_state = next_index;
+                        }
                     }
-                    states[end_index].next_state = next_index;
                 }
             }
             parser::Ast::Sequence(terms) => {
-- 
2.43.0


From 4d08c9ce336c97c7c0f89781355a22e56bbbb5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:51 +0000
Subject: [PATCH 02/36] fix: keep the success state last when pruning
 equivalent states

Merging an epsilon state with an equivalent later state moved the later state
forward. If that was the success state, it was no longer the last one and
queries such as a?|b matched nothing. States could also be merged twice.
---
 noodle/src/expression.rs | 77 ++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 42 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ce4988e..f7dff8c 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -348,13 +348,10 @@ impl Expression {
         // RUNTIME: O(states^3)
         fn prune_epsilon_pairs(states: &mut Vec<State>) {
             let states_len = states.len();
-            let mut state_map: Vec<_> = (0..states_len).collect();
-            let mut state_map_from: Vec<Option<usize>> = (0..states_len).map(Some).collect();
-            let mut deleted: Vec<usize> = vec![];
+            // `replaced_by[i] == Some(i2)` iff `i` is equivalent to `i2` (and `i` is pruned)
+            // It's always the case that `i2 > i`: so the final "success" state is never pruned
+            let mut replaced_by: Vec<Option<usize>> = vec![None; states_len];
             for (i, state) in states.iter().enumerate() {
-                // Shift the state index down by the number of states before it that were deleted
-                state_map[i] -= deleted.iter().filter(|&d| *d < i).count();
-
                 // Don't attempt to collapse the first state
                 // Removing it would add a lot of complexity, with little benefit
                 if i == 0 {
@@ -371,47 +368,43 @@ impl Expression {
                 // RUNTIME: O(states^2)
                 let mut similar_states = state.epsilon_states.clone();
                 similar_states.borrow_mut().remove(i);
-                for (i2, state2) in states.iter().enumerate() {
-                    // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i > i2`
-                    if i2 <= i {
-                        continue;
-                    }
-                    if similar_states == state2.epsilon_states {
-                        deleted.push(i2);
-                        state_map[i2] = i;
-                        state_map_from[i2] = None;
-                        state_map_from.iter_mut().for_each(|s| {
-                            if *s == Some(i) {
-                                *s = Some(i2)
-                            }
-                        });
-                        break;
-                    }
+                // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i2 > i`
+                replaced_by[i] =
+                    (i + 1..states_len).find(|&i2| similar_states == states[i2].epsilon_states);
+            }
+
+            // `state_map[i]` is the new index for the state `i`, or the one which replaced it
+            let mut new_states_len = 0;
+            let mut state_map: Vec<usize> = vec![0; states_len];
+            for (i, new_index) in state_map.iter_mut().enumerate() {
+                if replaced_by[i].is_none() {
+                    *new_index = new_states_len;
+                    new_states_len += 1;
+                }
+            }
+            for i in (0..states_len).rev() {
+                if let Some(i2) = replaced_by[i] {
+                    state_map[i] = state_map[i2];
                 }
             }
 
-            // Re-create the state table, pruning the `deleted` states
-            // - `state_map_from[i] == None` iff `i` is in `deleted` (and the state is pruned)
-            // - Otherwise, replace the state at `i` with the state at index `state_map_from[i]`
-            // - Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
+            // Re-create the state table, leaving out the pruned states
+            // Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
             // RUNTIME: O(states^2)
-            let new_states_len = states_len - deleted.len();
-            state_map.iter().for_each(|&s| assert!(s < new_states_len));
-            *states = state_map_from
+            *states = states
                 .iter()
-                .filter_map(|&from| {
-                    from.map(|from_index| {
-                        let state = &states[from_index];
-                        let mut epsilon_states = BitSet1D::new((), new_states_len);
-                        for s in state.epsilon_states.borrow().ones() {
-                            epsilon_states.borrow_mut().insert(state_map[s])
-                        }
-                        State {
-                            char_bitset: state.char_bitset,
-                            next_state: state_map[state.next_state],
-                            epsilon_states,
-                        }
-                    })
+                .zip(replaced_by.iter())
+                .filter(|(_, replaced_by)| replaced_by.is_none())
+                .map(|(state, _)| {
+                    let mut epsilon_states = BitSet1D::new((), new_states_len);
+                    for s in state.epsilon_states.borrow().ones() {
+                        epsilon_states.borrow_mut().insert(state_map[s])
+                    }
+                    State {
+                        char_bitset: state.char_bitset,
+                        next_state: state_map[state.next_state],
+                        epsilon_states,
+                    }
                 })
                 .collect();
         }
-- 
2.43.0


From 910e519e6933236a581b26b2484530456484ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 03/36] fix: only collapse state pairs that no other state
 tells apart

Combining an epsilon state with a char state also made the char state
optional for every other state leading to it, so that (a?b)* matched a.
---
 noodle/src/expression.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index f7dff8c..910fe73 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -254,6 +254,8 @@ impl Expression {
         //      - Itself
         //      - The char state
         //      - The epsilon_states of the char state's next state
+        //  - Any other state with a transition to the char state can reach everything that the
+        //    epsilon state can, so it does not matter that it will point to the combined state
         // This could be more generic if states supported an arbitrary set of edges
         // TODO: this code is pretty inefficient
         // RUNTIME: O(states^3)?
@@ -263,6 +265,23 @@ impl Expression {
                 bitset.is_empty() || (bitset.contains(index) && bitset.ones().count() == 1)
             }
 
+            // RUNTIME: O(states^2)
+            fn is_told_apart(eps_index: usize, char_index: usize, states: &[State]) -> bool {
+                let mut new_epsilons = states[eps_index].epsilon_states.clone();
+                new_epsilons.borrow_mut().remove(eps_index);
+                new_epsilons.borrow_mut().remove(char_index);
+
+                states.iter().enumerate().any(|(i, state)| {
+                    let epsilon_states = state.epsilon_states.borrow();
+                    i != eps_index
+                        && i != char_index
+                        && ((state.char_bitset != CharBitset::EMPTY
+                            && state.next_state == char_index)
+                            || (epsilon_states.contains(char_index)
+                                && !new_epsilons.borrow().is_subset(&epsilon_states)))
+                })
+            }
+
             // RUNTIME: O(states)
             #[allow(clippy::nonminimal_bool)]
             fn is_a_pair(eps_index: usize, char_index: usize, states: &[State]) -> bool {
@@ -293,6 +312,8 @@ impl Expression {
                         .contains(char_state.next_state)
                     // ...but point to at most: itself, char_state, and char_state.next_state's epsilons
                     && eps_state.epsilon_states.borrow().is_subset(&allowed_epsilons.borrow())
+                    // ...and no other state can tell the pair apart from char_state alone
+                    && !is_told_apart(eps_index, char_index, states)
             }
 
             // RUNTIME: O(states^2)
-- 
2.43.0


From 1b8067b7206e36bec453cf9daf46cfd238c51f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 04/36] fix: parse nested groups in linear time

Every level of parentheses was parsed up to 17 times over: once per kind of
repetition and once per kind of group. A dozen nested groups took hours.
---
 noodle/src/noodle_grammar.pest |  56 ++++++++-------
 noodle/src/parser.rs           | 128 +++++++++++++++++----------------
 2 files changed, 98 insertions(+), 86 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 486f01c..37562eb 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -18,27 +18,45 @@ invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
 anagram_body = { ASCII_ALPHA+ }
 
-sequence = { (repeat | term)+ }
+sequence = { (term ~ repeat?)+ }
 alternatives = { sequence ~ ("|" ~ sequence)+ }
 anagram = { "<" ~ anagram_body ~ ">" }
 superanagram = { "<" ~ anagram_body ~ "+>" }
 subanagram = { "<" ~ anagram_body ~ "->" }
 transadd = { "<" ~ anagram_body ~ "+" ~ number ~ ">" }
 transdelete = { "<" ~ anagram_body ~ "-" ~ number ~ ">" }
-substring = { "(" ~ term+ ~ ":^)" }
-subset = { "(" ~ term+ ~ ":-)" }
-superset = { "(" ~ term+ ~ ":+)" }
-
-repeat_optional = { term ~ "?" }
-repeat_any = { term ~ "*" }
-repeat_oneormore = { term ~ "+" }
-repeat_atmost = { term ~ "{," ~ number ~ "}" }
-repeat_exact = { term ~ "{" ~ number ~ "}" }
-repeat_atleast = { term ~ "{" ~ number ~ ",}" }
-repeat_range = { term ~ "{" ~ number ~ "," ~ number ~ "}" }
+repeat_optional = { "?" }
+repeat_any = { "*" }
+repeat_oneormore = { "+" }
+repeat_atmost = { "{," ~ number ~ "}" }
+repeat_exact = { "{" ~ number ~ "}" }
+repeat_atleast = { "{" ~ number ~ ",}" }
+repeat_range = { "{" ~ number ~ "," ~ number ~ "}" }
+repeat = _{
+    repeat_optional |
+    repeat_any |
+    repeat_oneormore |
+    repeat_atmost |
+    repeat_exact |
+    repeat_atleast |
+    repeat_range
+}
 
 subexpression = _{ (alternatives | sequence) }
-group = _{ "(" ~ subexpression ~ ")" }
+
+// Groups are parsed in one go: the rule does not need to start over at the "(" to find out that
+// the group is a substring, which would take exponential time when groups are nested.
+substring = { ":^)" }
+subset = { ":-)" }
+superset = { ":+)" }
+group = {
+    "(" ~ term+ ~ (
+        substring |
+        subset |
+        superset |
+        ((repeat ~ (term ~ repeat?)*)? ~ ("|" ~ sequence)* ~ ")")
+    )
+}
 term = _{
       class
     | dot
@@ -48,21 +66,9 @@ term = _{
     | subanagram
     | transadd
     | transdelete
-    | substring
-    | subset
-    | superset
     | number
     | character
 }
-repeat = _{
-    repeat_optional |
-    repeat_any |
-    repeat_oneormore |
-    repeat_atmost |
-    repeat_exact |
-    repeat_atleast |
-    repeat_range
-}
 
 
 
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index dbe938b..6b84fe5 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -497,6 +497,35 @@ fn parse_anagram(mut pairs: Pairs<'_, Rule>) -> (Vec<Char>, Option<usize>) {
     (bank, number)
 }
 
+/// Parse the terms at the start of `pairs`, each of which may be followed by a repetition.
+/// This stops at the first pair which is not part of the (first) sequence of a `Rule::group`
+fn parse_terms(pairs: &mut Pairs<'_, Rule>) -> Vec<Ast> {
+    let mut terms = vec![];
+    while let Some(pair) = pairs.peek() {
+        let rule = pair.as_rule();
+        let numbers = parse_numbers(pair.clone().into_inner());
+        let (min, max) = match rule {
+            Rule::substring | Rule::subset | Rule::superset | Rule::sequence => break,
+            Rule::repeat_optional => (0, Some(1)),
+            Rule::repeat_any => (0, None),
+            Rule::repeat_oneormore => (1, None),
+            Rule::repeat_exact => (numbers[0], Some(numbers[0])),
+            Rule::repeat_atmost => (0, Some(numbers[0])),
+            Rule::repeat_atleast => (numbers[0], None),
+            Rule::repeat_range => (numbers[0], Some(numbers[1])),
+            _ => {
+                terms.extend(parse_term(pair));
+                pairs.next();
+                continue;
+            }
+        };
+        let term = Box::new(terms.pop().unwrap());
+        terms.push(Ast::Repetition { term, min, max });
+        pairs.next();
+    }
+    terms
+}
+
 /// Given an outer pair (a `Rule::term`, `Rule::subexpression`, or similar), parse the contents
 /// into an `Ast` if it contains anything. If it is empty (e.g. whitespace), return `None`.
 fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
@@ -530,46 +559,45 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             }
             Some(Ast::CharClass(bitset))
         }
-        Rule::subset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .map(|c| Ast::Repetition {
-                    term: Box::new(c),
-                    min: 0,
-                    max: Some(1),
-                })
-                .collect(),
-        )),
-        Rule::superset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .flat_map(|c| {
-                    vec![
-                        Ast::Repetition {
-                            term: Box::new(Ast::CharClass(CharBitset::ALL)),
+        Rule::group => {
+            let mut pairs = pair.into_inner();
+            let terms = parse_terms(&mut pairs);
+            Some(match pairs.peek().map(|p| p.as_rule()) {
+                None => Ast::Sequence(terms),
+                Some(Rule::sequence) => Ast::Alternatives(
+                    std::iter::once(Ast::Sequence(terms))
+                        .chain(pairs.filter_map(parse_term))
+                        .collect(),
+                ),
+                Some(Rule::subset) => Ast::Sequence(
+                    terms
+                        .into_iter()
+                        .map(|c| Ast::Repetition {
+                            term: Box::new(c),
                             min: 0,
-                            max: None,
-                        },
-                        c,
-                    ]
-                    .into_iter()
-                })
-                .chain(std::iter::once(Ast::Repetition {
-                    term: Box::new(Ast::CharClass(CharBitset::ALL)),
-                    min: 0,
-                    max: None,
-                }))
-                .collect(),
-        )),
-        Rule::substring => Some(Ast::Substring(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
-        Rule::group => Some(Ast::Sequence(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
-        Rule::sequence => Some(Ast::Sequence(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
+                            max: Some(1),
+                        })
+                        .collect(),
+                ),
+                Some(Rule::superset) => {
+                    let fill = Ast::Repetition {
+                        term: Box::new(Ast::CharClass(CharBitset::ALL)),
+                        min: 0,
+                        max: None,
+                    };
+                    Ast::Sequence(
+                        terms
+                            .into_iter()
+                            .flat_map(|c| vec![fill.clone(), c].into_iter())
+                            .chain(std::iter::once(fill.clone()))
+                            .collect(),
+                    )
+                }
+                Some(Rule::substring) => Ast::Substring(terms),
+                _ => unreachable!(),
+            })
+        }
+        Rule::sequence => Some(Ast::Sequence(parse_terms(&mut pair.into_inner()))),
         Rule::number => {
             let dot = Ast::CharClass(CharBitset::LETTERS);
             let n: usize = pair.as_str().parse().unwrap();
@@ -582,28 +610,6 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 Ast::CharClass(Char::WORD_END.into()),
             ]))
         }
-        Rule::repeat_optional
-        | Rule::repeat_any
-        | Rule::repeat_oneormore
-        | Rule::repeat_exact
-        | Rule::repeat_atmost
-        | Rule::repeat_atleast
-        | Rule::repeat_range => {
-            let mut pairs = pair.into_inner();
-            let term = Box::new(pairs.next().and_then(parse_term).unwrap());
-            let numbers = parse_numbers(pairs);
-            let (min, max) = match rule {
-                Rule::repeat_optional => (0, Some(1)),
-                Rule::repeat_any => (0, None),
-                Rule::repeat_oneormore => (1, None),
-                Rule::repeat_exact => (numbers[0], Some(numbers[0])),
-                Rule::repeat_atmost => (0, Some(numbers[0])),
-                Rule::repeat_atleast => (numbers[0], None),
-                Rule::repeat_range => (numbers[0], Some(numbers[1])),
-                _ => unreachable!(),
-            };
-            Some(Ast::Repetition { term, min, max })
-        }
         Rule::anagram | Rule::subanagram | Rule::superanagram => {
             let (bank, number) = parse_anagram(pair.into_inner());
             assert!(number.is_none());
-- 
2.43.0


From c73896fc551776d6127b266cbef4adc3b9baf4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 05/36] fix: reject queries that are too large to evaluate

Numbers which do not fit a usize panicked, expressions with more than 16k
states wrote past the end of their state sets, and deep nesting, large phrase
lengths or macros which keep doubling could exhaust the stack or all memory.
---
 noodle/src/parser.rs | 103 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 96 insertions(+), 7 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 6b84fe5..09360be 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,8 +1,8 @@
 use crate::words::*;
 use indexmap::IndexMap;
-use pest::error::{Error as PestError, LineColLocation};
+use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
-use pest::Parser;
+use pest::{Parser, Span};
 use std::fmt;
 
 pub type Result<T> = std::result::Result<T, PestError<Rule>>;
@@ -11,6 +11,19 @@ pub type Result<T> = std::result::Result<T, PestError<Rule>>;
 #[grammar = "noodle_grammar.pest"]
 struct NoodleParser;
 
+/// Limit on the size of an expression, in NFA states (multiplied by the number of edits + 1).
+/// This also bounds any single number (repetitions, enumerations, edits) in an expression.
+const MAX_EXPRESSION_SIZE: usize = 4096;
+
+/// Limit on how deep groups can be nested in an expression
+const MAX_GROUP_DEPTH: usize = 100;
+
+/// Limit on the length of a line, after macros have been replaced
+const MAX_LINE_LEN: usize = 256 * 1024;
+
+/// Limit on the number of words in a phrase
+const MAX_PHRASE_WORDS: usize = 1000;
+
 /// A query is a representation of whole input sent to Noodle. It may be made up of
 /// multiple expressions, and also contains global options like which wordlist to use.
 /// This is used to build a `matcher::Matcher`
@@ -77,11 +90,12 @@ pub enum AnagramKind {
 
 impl ExpressionAst {
     pub fn new_from_str(input_str: &str) -> Result<Self> {
+        check_group_depth(input_str)?;
         let pair = NoodleParser::parse(Rule::expression, input_str)?
             .next()
             .unwrap();
 
-        Ok(parse_expression(pair))
+        parse_expression(pair)
     }
 }
 
@@ -136,10 +150,17 @@ impl QueryAst {
 
             let mut line = line.to_owned();
             for (macro_name, macro_value) in macros.iter() {
+                let count = line.matches(macro_name).count();
+                if count > 0 && line.len() + count * macro_value.len() > MAX_LINE_LEN {
+                    let span = Span::new(&line, 0, line.len()).unwrap();
+                    let err = custom_error("line is too long after replacing macros", span);
+                    return Err(error_set_line(err, i + 1));
+                }
                 line = line.replace(macro_name, macro_value);
             }
 
-            let mut pair = NoodleParser::parse(Rule::query, &line)
+            let mut pair = check_group_depth(&line)
+                .and_then(|_| NoodleParser::parse(Rule::query, &line))
                 .map_err(|e| error_set_line(e, i + 1))?
                 .next()
                 .unwrap()
@@ -148,10 +169,13 @@ impl QueryAst {
             if let Some(pair) = pair.next() {
                 match pair.as_rule() {
                     Rule::expression => {
-                        let expr = parse_expression(pair);
+                        let expr =
+                            parse_expression(pair).map_err(|e| error_set_line(e, i + 1))?;
                         expressions.push(expr);
                     }
                     Rule::pragma_words => {
+                        check_numbers(&pair, MAX_PHRASE_WORDS)
+                            .map_err(|e| error_set_line(e, i + 1))?;
                         let inner = pair.into_inner();
                         let numbers = parse_numbers(inner);
                         options.max_words = numbers.get(0).cloned();
@@ -161,6 +185,8 @@ impl QueryAst {
                         options.dictionary = Some(inner.map(|p| p.as_str()).collect());
                     }
                     Rule::pragma_limit => {
+                        check_numbers(&pair, usize::MAX)
+                            .map_err(|e| error_set_line(e, i + 1))?;
                         let inner = pair.into_inner();
                         let numbers = parse_numbers(inner);
                         options.results_limit = numbers.get(0).cloned();
@@ -704,10 +730,68 @@ fn detect_options(ast: &Ast, options: &mut ExpressionOptions) {
     }
 }
 
+fn custom_error(message: &str, span: Span<'_>) -> PestError<Rule> {
+    PestError::new_from_span(
+        ErrorVariant::CustomError {
+            message: message.to_owned(),
+        },
+        span,
+    )
+}
+
+/// Check that every number in `pair` is at most `max`
+fn check_numbers(pair: &Pair<Rule>, max: usize) -> Result<()> {
+    for p in pair.clone().into_inner().flatten() {
+        if p.as_rule() == Rule::number && !matches!(p.as_str().parse::<usize>(), Ok(n) if n <= max) {
+            return Err(custom_error("number is too large", p.as_span()));
+        }
+    }
+    Ok(())
+}
+
+/// Check that groups are not nested so deep that parsing them may overflow the stack
+fn check_group_depth(input_str: &str) -> Result<()> {
+    let mut depth: usize = 0;
+    for (i, c) in input_str.char_indices() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        if depth > MAX_GROUP_DEPTH {
+            let span = Span::new(input_str, i, i + 1).unwrap();
+            return Err(custom_error("groups are nested too deep", span));
+        }
+    }
+    Ok(())
+}
+
+/// Upper bound for the number of NFA states needed to evaluate `ast`
+fn expression_size(ast: &Ast) -> usize {
+    match ast {
+        Ast::CharClass(_) => 1,
+        Ast::Alternatives(nodes) | Ast::Sequence(nodes) | Ast::Substring(nodes) => nodes
+            .iter()
+            .map(expression_size)
+            .fold(1, usize::saturating_add),
+        Ast::Repetition { term, min, max } => expression_size(term)
+            .saturating_mul(max.unwrap_or(*min).max(1))
+            .saturating_add(2),
+        // See `QueryAst::expand_expressions`
+        Ast::Anagram { kind, bank } => match kind {
+            AnagramKind::TransAdd(n) => bank.len() * 6 + n + 5,
+            _ => bank.len() * 6 + 5,
+        },
+    }
+}
+
 /// Build an AST for the given `Rule::expression`
-fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
+fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     assert_eq!(pair.as_rule(), Rule::expression);
 
+    let span = pair.as_span();
+    check_numbers(&pair, MAX_EXPRESSION_SIZE)?;
+
     let mut pairs = pair.into_inner();
     let subexpression = pairs.next().unwrap();
     assert!(
@@ -718,7 +802,12 @@ fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
     let mut options = parse_options(pairs);
     detect_options(&ast, &mut options);
 
-    ExpressionAst { root: ast, options }
+    let size = expression_size(&ast).saturating_add(1);
+    if size.saturating_mul(options.fuzz.unwrap_or(0) + 1) > MAX_EXPRESSION_SIZE {
+        return Err(custom_error("expression is too large", span));
+    }
+
+    Ok(ExpressionAst { root: ast, options })
 }
 
 // TODO: Investigate proptest?
-- 
2.43.0


From 79902e07d2ba372b03508b5d3e3760421ccbba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 06/36] fix: reject repetitions with min > max

a{3,2} subtracted with overflow.
---
 noodle/src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 09360be..8a8e049 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -791,6 +791,14 @@ fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
 
     let span = pair.as_span();
     check_numbers(&pair, MAX_EXPRESSION_SIZE)?;
+    for p in pair.clone().into_inner().flatten() {
+        if p.as_rule() == Rule::repeat_range {
+            let numbers = parse_numbers(p.clone().into_inner());
+            if numbers[0] > numbers[1] {
+                return Err(custom_error("repetition has min > max", p.as_span()));
+            }
+        }
+    }
 
     let mut pairs = pair.into_inner();
     let subexpression = pairs.next().unwrap();
-- 
2.43.0


From 70855b7921ebcf67965d6baa1c8f9c421709acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 07/36] fix: expand anagrams inside repetitions

They were left in the expression, and compiling it panicked.
---
 noodle/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 8a8e049..882a5ce 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -245,10 +245,10 @@ impl QueryAst {
                     nodes.iter_mut().for_each(|n| visit(n, action))
                 }
                 Ast::Repetition {
-                    term: _,
+                    term,
                     min: _,
                     max: _,
-                } => (),
+                } => visit(term, action),
                 Ast::Anagram { kind: _, bank: _ } => action(node),
             }
         }
-- 
2.43.0


From 8fcc19e59f1e5f011fd191d66a0f35e74771652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 08/36] fix: inverted classes only contain letters

[^_] and [^'] matched spaces and punctuation, instead of excluding them.
---
 noodle/src/words.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index c57b864..ddc393c 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -85,7 +85,7 @@ impl CharBitset {
     }
 
     pub fn invert(&mut self) {
-        self.0 ^= Self::LETTERS.0;
+        self.0 = Self::LETTERS.0 & !self.0;
     }
 
     pub fn union_with(&mut self, other: Self) {
-- 
2.43.0


From e6a34f6a6c670e78b5d4562a77d3d79daa7765e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:34 +0000
Subject: [PATCH 09/36] fix: letter ranges with whitespace or upper case
 letters

[a - c] was an empty class, and [A-z] contained spaces and punctuation.
---
 noodle/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 882a5ce..9ee9eed 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -572,8 +572,11 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             inner.for_each(|p| match p.as_rule() {
                 Rule::invert => invert = true,
                 Rule::letter_range => {
-                    let cs = p.as_str().chars().collect::<Vec<_>>();
-                    bitset.union_with(CharBitset::from_range(cs[0], cs[2]));
+                    // There may be whitespace around the dash
+                    let range = p.as_str().to_ascii_lowercase();
+                    let low = range.chars().next().unwrap();
+                    let high = range.chars().last().unwrap();
+                    bitset.union_with(CharBitset::from_range(low, high));
                 }
                 Rule::character => {
                     bitset.union_with(CharBitset::from(p.as_str().chars().next().unwrap()))
-- 
2.43.0


From f30be04b27ea49ab31d2631c9a7299e8de677647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:35 +0000
Subject: [PATCH 10/36] fix: parse block comments and empty comments

The body of a block comment swallowed its end, so that it never parsed.
---
 noodle/src/noodle_grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 37562eb..b2514e3 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -1,7 +1,7 @@
 WHITESPACE = _{ " " }
 COMMENT = _{ 
-    (("//" | "--") ~ ANY+) |
-    ("/*" ~ ANY+ ~ "*/")
+    (("//" | "--") ~ ANY*) |
+    ("/*" ~ (!"*/" ~ ANY)* ~ "*/")
 }
 
 // Note: Keep field names human-readable, they end up in error messages
-- 
2.43.0


From 86918e4e0c100aca7ed337d96eb18c6641d62f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 11/36] fix: parse #dictionary, and dictionary names with
 dashes or digits

'#dictionary x' selected the dictionary 'ionaryx', '#dict wiki-titles' lost
its dash, and '#dict npl-allwords2' did not parse.
---
 noodle/src/noodle_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index b2514e3..9a10337 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -84,7 +84,8 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-pragma_dict = { (^"#dict" | ^"#dictionary") ~ (character | "-")+ }
+dict_name = @{ (ASCII_ALPHANUMERIC | "-" | "_" | "'" | ".")+ }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ dict_name }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0


From 1d02736aa4f3d160d06dcec1e687fe648e36311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 12/36] fix: leave whitespace and comments out of macros

'V =[aeiou]' defined a macro named 'V ', and the comment in
'V=[aeiou] // vowels' swallowed the rest of the lines it was used in.
---
 noodle/src/noodle_grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 9a10337..75f66c3 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -79,8 +79,8 @@ option = _{ option_word_boundaries | option_punctuation | option_fuzz }
 
 expression = { SOI ~ subexpression ~ (option)* ~ EOI }
 
-macro_name = { ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
-macro_value = { (' '..'~')* } // Nearly any ASCII character
+macro_name = @{ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
+macro_value = @{ (!COMMENT ~ ' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-- 
2.43.0


From 03f10e8054075ab3f37065d3a173d361a61288f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 13/36] fix: evaluate a query without any expressions

An empty query (or one made up of comments, macros, ...) panicked.
---
 noodle/src/query.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index ab0819d..3ac2935 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -106,8 +106,6 @@ impl<'word> QueryEvaluator<'word> {
         search_depth_limit: PhraseDepth,
         results_limit: Option<usize>,
     ) -> Self {
-        assert!(!expressions.is_empty());
-
         // TODO: Remove +1
         let max_word_len = 1 + input_wordlist
             .iter()
@@ -186,7 +184,10 @@ impl<'word> QueryEvaluator<'word> {
 
     pub fn progress(&self) -> String {
         match &self.phase {
-            QueryPhase::Word { matchers, wordlist } => matchers[0].progress(wordlist),
+            QueryPhase::Word { matchers, wordlist } => matchers
+                .first()
+                .map(|m| m.progress(wordlist))
+                .unwrap_or_default(),
             QueryPhase::Phrase {
                 search_layers,
                 search_queue,
@@ -228,6 +229,12 @@ impl<'word> QueryEvaluator<'word> {
 
         match &mut self.phase {
             QueryPhase::Word { matchers, wordlist } => {
+                // Without any expressions, there is nothing to search for
+                if matchers.is_empty() {
+                    self.phase = QueryPhase::Done;
+                    return QueryResponse::Complete("Complete, query is empty".to_string());
+                }
+
                 let single_word_only = self.search_depth_limit <= 1;
 
                 // Check for single-word matches
-- 
2.43.0


From b4ee36a9e05d1b10adc229104b67239f2ad383ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 14/36] fix: division by zero in progress()

The estimate of the phrase search is 0 when there is one word left, and so is
the size of an empty wordlist.
---
 noodle/src/matcher.rs | 2 +-
 noodle/src/query.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 71a7ca8..ec430dc 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -162,7 +162,7 @@ impl<'word> WordMatcher<'word> {
             "Single-word matches: {}/{} ({}%)",
             self.word_index,
             wordlist.len(),
-            100 * self.word_index / wordlist.len()
+            100 * self.word_index / wordlist.len().max(1)
         )
     }
 
diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index 3ac2935..36a483d 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -207,7 +207,7 @@ impl<'word> QueryEvaluator<'word> {
                     phase.depth,
                     estimate,
                     initial_search_estimate,
-                    100 * estimate / initial_search_estimate,
+                    100 * estimate / (*initial_search_estimate).max(1),
                     phase.tranche,
                 )
             }
-- 
2.43.0


From 29921c214abe03be6a8efc15c565be0d6abeb2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 15/36] fix: find fuzzy matches with any letters of the
 expression missing

A missing letter was only considered right before a letter that matched: so
'abc !1' did not match ab, nor did 'abcd !2' match ad.
---
 noodle/src/expression.rs | 50 +++++++++++++++++++++++++++-------------
 noodle/src/matcher.rs    | 11 +++------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 910fe73..1af101b 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -465,6 +465,28 @@ impl Expression {
         self.states[state_index].epsilon_states_bitset()
     }
 
+    /// Populate the first entry (`[char=0]`) of a state transition table
+    ///
+    /// After consuming 0 chars, the only states reachable from a state are its epsilon
+    /// transitions; and with fuzz, the states after skipping some letters of the expression
+    ///
+    /// `RUNTIME: O(fuzz * states^3)`
+    pub fn fill_initial_table(&self, table: &mut BitSet3D) {
+        table.borrow_mut().clear();
+        for src in 0..self.states.len() {
+            table
+                .slice_mut((src, 0))
+                .union_with(self.epsilon_states(src));
+            for fuzz_index in 0..self.fuzz {
+                let skip_set =
+                    self.char_transitions(CharBitset::LETTERS, table.slice((src, fuzz_index)));
+                table
+                    .slice_mut((src, fuzz_index + 1))
+                    .union_with(skip_set.slice(()));
+            }
+        }
+    }
+
     /// Populate a state transition table for a given word
     ///
     /// The transition table has dimensions: `[char][from_state][fuzz][to_state]`,
@@ -475,9 +497,7 @@ impl Expression {
     /// to optimize future searches.
     ///
     /// This function does not initialize the transition table. When starting a word,
-    /// the transition_table[char=0] should be initialized to only contain the starting state:
-    /// The only bits that should be set are `[c][0][0][e]` where `e` is an epsilon transition
-    /// from the starting state. (see `Expression::epsilon_states(0)`)
+    /// the transition_table[char=0] should be initialized with `Expression::fill_initial_table`
     ///
     /// If `single_word_only` is true, only entries startin from state 0 are populated,
     /// (i.e. `[c][0][f][t]`). This is an optimization when we know that the user doesn't care
@@ -549,26 +569,24 @@ impl Expression {
                 for fuzz_index in 0..self.fuzz {
                     let state_transitions =
                         lower_table[char_index].slice((state_index, fuzz_index));
+
+                    // Insertion: skip a letter of the expression after having consumed `chr`.
+                    // (`next_state_table[f]` is already complete, so any number can be skipped)
+                    let insertion_set = self.char_transitions(
+                        CharBitset::LETTERS,
+                        upper_table[0].slice((state_index, fuzz_index)),
+                    );
+
                     let mut fuzzed_next_state_transitions =
                         upper_table[0].slice_mut((state_index, fuzz_index + 1));
-
-                    if state_transitions.is_empty() {
-                        continue;
-                    }
+                    fuzzed_next_state_transitions.union_with(insertion_set.slice(()));
 
                     // Deletion
                     fuzzed_next_state_transitions.union_with(state_transitions);
 
                     // Change
-                    let change_set_group =
-                        self.char_transitions(CharBitset::LETTERS, state_transitions);
-                    let change_set = change_set_group.slice(());
-                    fuzzed_next_state_transitions.union_with(change_set);
-
-                    // Insertion
-                    let insertion_set_group = self.char_transitions(char_bitset, change_set);
-                    let insertion_set = insertion_set_group.slice(());
-                    fuzzed_next_state_transitions.union_with(insertion_set);
+                    let change_set = self.char_transitions(CharBitset::LETTERS, state_transitions);
+                    fuzzed_next_state_transitions.union_with(change_set.slice(()));
 
                     // Optimization: discard the states we can get to with less fuzz
                     fuzzed_next_state_transitions.difference_with(fuzz_superset.borrow());
diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index ec430dc..d07a276 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -227,14 +227,9 @@ impl<'word> WordMatcher<'word> {
 
             // If there is no common prefix, clear the table & populate with initial state
             if prefix_len == 0 {
-                prefixed_table[0].borrow_mut().clear();
-                for src in 0..states_len {
-                    // After consuming 0 chars (and 0 fuzz), the only states reachable from state
-                    // `src` are its epsilon transitions
-                    prefixed_table[0]
-                        .slice_mut((src, 0))
-                        .union_with(self.phrase_matcher.expression.epsilon_states(src));
-                }
+                self.phrase_matcher
+                    .expression
+                    .fill_initial_table(&mut prefixed_table[0]);
             }
 
             // Fill the table, but this can return early if the chars are not a match
-- 
2.43.0


From b52e80f795b27f393f01fb08fdcc98a4c9c4aebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:38 +0000
Subject: [PATCH 16/36] fix: substrings ending in a group with several exits

Only the last state of each term was taken into account, so that
((b|a?)c:^) did not match b.
---
 noodle/src/expression.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 1af101b..28f9481 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -129,31 +129,23 @@ impl Expression {
             }
             parser::Ast::Substring(terms) => {
                 states.push(State::new());
-                let mut end_indexes = vec![];
+                let mut start_indexes = vec![];
                 for term in terms {
                     let next_index = states.len();
                     states[initial_len]
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
+                    start_indexes.push(next_index);
                     Self::build_states(term, states);
-                    end_indexes.push(states.len() - 1);
                 }
                 let next_index = states.len();
-                for end_index in end_indexes {
-                    // Add the true success state to the terminal states
-                    let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.insert(next_index);
-                    }
-                    // Rather than have the `char_bitset` edge point to two states,
-                    // we add a epsilon transition onto the `next_state`
-                    if states[end_index].char_bitset != CharBitset::EMPTY {
-                        let next_state = states[end_index].next_state;
-                        if next_state != next_index {
-                            states[next_state]
-                                .epsilon_states_bitset_mut()
-                                .insert(next_index);
-                        }
+                // Each term leads to the start of the next one: from there, the substring can also
+                // end, by an epsilon transition to the true success state
+                for start_index in start_indexes.into_iter().skip(1) {
+                    if start_index < next_index {
+                        states[start_index]
+                            .epsilon_states_bitset_mut()
+                            .insert(next_index);
                     }
                 }
             }
-- 
2.43.0


From 48b7885d2732b5c1858069c1572bb66047c95d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 17/36] fix: honour #words and #limit on the command line

The defaults of the command line options replaced the limits of the query.
---
 noodle-cli/src/main.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/noodle-cli/src/main.rs b/noodle-cli/src/main.rs
index 86f8521..599139a 100644
--- a/noodle-cli/src/main.rs
+++ b/noodle-cli/src/main.rs
@@ -11,13 +11,13 @@ struct Opt {
     #[structopt(short, long, parse(from_os_str), default_value=DEFAULT_WORDLIST_FILE)]
     input: PathBuf,
 
-    /// Number of results to return
+    /// Number of results to return (overrides "#limit"; default: all)
     #[structopt(short = "n", long)]
     count: Option<usize>,
 
-    /// Maximum number of words to combine to make a matching phrase
-    #[structopt(short = "m", long, default_value = "10")]
-    phrase_length: usize,
+    /// Maximum number of words to combine to make a matching phrase (overrides "#words"; default: 10)
+    #[structopt(short = "m", long)]
+    phrase_length: Option<usize>,
 
     /// Noodle query string
     #[structopt(name = "query")]
@@ -29,8 +29,10 @@ fn main() {
     let words = load_wordlist(opt.input).unwrap();
     let query_ast = parser::QueryAst::new_from_str(&opt.query).unwrap();
     let mut evaluator = QueryEvaluator::from_ast(&query_ast, &words);
-    evaluator.set_results_limit(opt.count);
-    evaluator.set_search_depth_limit(opt.phrase_length);
+    evaluator.set_results_limit(opt.count.or(query_ast.options.results_limit));
+    if let Some(phrase_length) = opt.phrase_length {
+        evaluator.set_search_depth_limit(phrase_length);
+    }
 
     for result in evaluator {
         if let QueryResponse::Match(phrase) = result {
-- 
2.43.0


From 420b9ebe4a79841645327fa293c31db0f27e4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 18/36] fix: count queries which end with an error as inactive

Neither a websocket query which did not parse, nor one whose client went away
while results were sent, was ever removed from noodle_queries_active.
---
 noodle-webapp/src/main.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index c0618da..16c0cf8 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -60,6 +60,24 @@ lazy_static! {
     static ref ACTIVE_QUERIES: AtomicUsize = AtomicUsize::new(0_usize);
     static ref TOTAL_QUERIES: AtomicUsize = AtomicUsize::new(0_usize);
 }
+
+/// Counts as an active query for as long as it exists, however the query ends
+struct ActiveQuery;
+
+impl ActiveQuery {
+    /// Also returns the number of other active queries
+    fn start() -> (Self, usize) {
+        TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
+        (Self, ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed))
+    }
+}
+
+impl Drop for ActiveQuery {
+    fn drop(&mut self) {
+        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
+    }
+}
+
 static TIMEOUT: Duration = Duration::from_secs(150);
 static TIMEOUT_PLAINTEXT: Duration = Duration::from_secs(10);
 
@@ -154,8 +172,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     //
     // TODO: I don't like that this has a lot of the same code as run_websocket,
     // but it's a pain to abstract out streams due to their long types
-    TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
-    ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed);
+    let _active = ActiveQuery::start();
 
     let timeout = if plaintext {
         TIMEOUT_PLAINTEXT
@@ -164,7 +181,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     };
     let query_ast = parser::QueryAst::new_from_str(query_str);
 
-    let result = match query_ast {
+    match query_ast {
         Ok(mut query_ast) => {
             let mut body = String::new();
             if plaintext && query_ast.options.results_limit.is_none() {
@@ -200,9 +217,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
             Ok(body)
         }
         Err(error) => Ok(error.to_string()),
-    };
-    ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
-    result
+    }
 }
 
 /// Websockets interface, for interactive use
@@ -225,8 +240,7 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             .map(|m| m.map_err(Into::into))
             .unwrap_or_else(|| Err(anyhow!("Websocket closed without data")))?;
 
-        TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
-        let n_active = { ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed) };
+        let (_active, n_active) = ActiveQuery::start();
         let start = Instant::now();
         tx.send(Response::Status(format!(
             "Running query ({} other(s) active)...",
@@ -306,7 +320,6 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             };
         }
 
-        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
         Ok(())
     }
     .await;
-- 
2.43.0


From c1882d5994038496e012194341fdd0ea785d9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 19/36] fix: do not panic on queries which are not UTF-8 text

---
 noodle-webapp/src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 16c0cf8..2f54c5f 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -248,7 +248,8 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
         )))
         .await?;
 
-        let query_ast = parser::QueryAst::new_from_str(msg.to_str().unwrap());
+        let query_str = msg.to_str().map_err(|_| anyhow!("Query is not text"))?;
+        let query_ast = parser::QueryAst::new_from_str(query_str);
 
         if let Err(e) = &query_ast {
             tx.send(Response::Status("Query parse error".to_string()))
@@ -377,7 +378,7 @@ async fn main() {
         .and(warp::body::content_length_limit(64 * 1024)) // 64kB
         .and(warp::body::bytes())
         .map(|query_str: bytes::Bytes| {
-            run_query_sync(std::str::from_utf8(&query_str).unwrap(), false)
+            run_query_sync(&String::from_utf8_lossy(&query_str), false)
         });
 
     let routes = get_query
-- 
2.43.0


From 07636d53866b19df0c026e9995bb4c48faf533c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:03 +0000
Subject: [PATCH 20/36] fix: return the last phrase when it is a match

A match on the very last phrase to be tried was dropped, because the search
completed before it was returned.
---
 noodle/src/query.rs | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index 36a483d..992fa90 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -194,7 +194,10 @@ impl<'word> QueryEvaluator<'word> {
                 initial_search_estimate,
                 ..
             } => {
-                let phase = &search_queue[0];
+                let phase = match search_queue.first() {
+                    Some(phase) => phase,
+                    None => return "Done".to_string(),
+                };
                 let step_index = &search_layers[0].word_index;
 
                 let estimate = search_estimate(search_queue);
@@ -508,7 +511,8 @@ impl<'word> QueryEvaluator<'word> {
 
                 let mut deadline_check_count = 0;
                 let mut result = None;
-                loop {
+                // Search until there is a result, or the queue is exhausted
+                while !search_queue.is_empty() {
                     let search_phase = &search_queue[0];
                     let (lower_layers, upper_layers) = search_layers.split_at_mut(*layer_index + 1);
                     let prev_layer = &mut lower_layers[*layer_index];
@@ -599,22 +603,12 @@ impl<'word> QueryEvaluator<'word> {
                                         });
                                     }
 
-                                    if search_queue.is_empty() {
-                                        // If the depth queue is empty, we're done for good!
-                                        // Signal that the iterator is exhausted
-                                        self.phase = QueryPhase::Done;
-                                        return QueryResponse::Complete(format!(
-                                            "Complete, found all {} phrases up to {} words",
-                                            self.results_count, self.search_depth_limit
-                                        ));
-                                    } else {
-                                        // Otherwise, restart at the first layer with the new depth
-                                        *phase_had_partial_match = false;
-                                        search_layers[*layer_index].word_index = 0;
-                                        search_layers[*layer_index].max_tranche =
-                                            wordlist[0].tranche;
-                                        break;
-                                    }
+                                    // Restart at the first layer with the new depth
+                                    // (or, if the depth queue is empty, we're done for good!)
+                                    *phase_had_partial_match = false;
+                                    search_layers[*layer_index].word_index = 0;
+                                    search_layers[*layer_index].max_tranche = wordlist[0].tranche;
+                                    break;
                                 }
 
                                 // Ascend back to the previous layer (perhaps recursively!)
@@ -642,7 +636,17 @@ impl<'word> QueryEvaluator<'word> {
                         return QueryResponse::Timeout;
                     }
                 }
-                result.unwrap()
+
+                if let Some(result) = result {
+                    return result;
+                }
+
+                // Signal that the iterator is exhausted
+                self.phase = QueryPhase::Done;
+                QueryResponse::Complete(format!(
+                    "Complete, found all {} phrases up to {} words",
+                    self.results_count, self.search_depth_limit
+                ))
             }
             QueryPhase::Done => QueryResponse::Complete(
                 "QueryEvaluator.next_within_deadline called repeatedly".to_string(),
-- 
2.43.0


From 7f593774022dff5bd57f88ad3faa7066f01deb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:24 +0000
Subject: [PATCH 21/36] fix: print expressions in a form that reads back the
 same

---
 noodle/src/parser.rs | 65 ++++++++++++++++----------------------------
 noodle/src/words.rs  |  2 +-
 2 files changed, 25 insertions(+), 42 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 9ee9eed..5065c41 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -415,6 +415,16 @@ impl QueryAst {
 
 impl fmt::Display for Ast {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        // Group repetitions, to use them where the grammar only allows for a single term
+        fn single_term(node: &Ast) -> String {
+            let text = node.to_string();
+            if text.ends_with(&['?', '*', '+', '}'][..]) {
+                format!("({})", text)
+            } else {
+                text
+            }
+        }
+
         match self {
             Ast::CharClass(CharBitset::LETTERS) => write!(f, ".")?,
             Ast::CharClass(char_bitset) => write!(f, "{:?}", char_bitset)?,
@@ -437,49 +447,22 @@ impl fmt::Display for Ast {
                 }
             }
             Ast::Substring(nodes) => {
-                if nodes.len() > 1 {
-                    write!(f, "(")?;
-                }
-                nodes.iter().try_for_each(|n| write!(f, "{}", n))?;
-                if nodes.len() > 1 {
-                    write!(f, ":^)")?;
+                write!(f, "(")?;
+                nodes.iter().try_for_each(|n| write!(f, "{}", single_term(n)))?;
+                write!(f, ":^)")?;
+            }
+            Ast::Repetition { term, min, max } => {
+                write!(f, "{}", single_term(term))?;
+                match (min, max) {
+                    (0, None) => write!(f, "*")?,
+                    (0, Some(1)) => write!(f, "?")?,
+                    (1, None) => write!(f, "+")?,
+                    (0, Some(max)) => write!(f, "{{,{}}}", max)?,
+                    (min, None) => write!(f, "{{{},}}", min)?,
+                    (min, Some(max)) if min == max => write!(f, "{{{}}}", min)?,
+                    (min, Some(max)) => write!(f, "{{{},{}}}", min, max)?,
                 }
             }
-            Ast::Repetition {
-                term,
-                min: 0,
-                max: None,
-            } => write!(f, "{}*", term)?,
-            Ast::Repetition {
-                term,
-                min: 0,
-                max: Some(1),
-            } => write!(f, "{}?", term)?,
-            Ast::Repetition {
-                term,
-                min: 1,
-                max: None,
-            } => write!(f, "{}+", term)?,
-            Ast::Repetition {
-                term,
-                min: 0,
-                max: Some(max),
-            } => write!(f, "{}{{,{}}}", term, max)?,
-            Ast::Repetition {
-                term,
-                min,
-                max: None,
-            } => write!(f, "{}{{{},}}", term, min)?,
-            Ast::Repetition {
-                term,
-                min,
-                max: Some(max),
-            } if min == max => write!(f, "{}{{{}}}", term, min)?,
-            Ast::Repetition {
-                term,
-                min,
-                max: Some(max),
-            } => write!(f, "{}{{{},{}}}", term, min, max)?,
             Ast::Anagram { kind, bank } => {
                 write!(f, "<")?;
                 bank.iter().try_for_each(|c| write!(f, "{:?}", c))?;
diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index ddc393c..d0ce26d 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -133,7 +133,7 @@ impl fmt::Debug for CharBitset {
         }
         let ones = self.0.count_ones();
         if ones == 0 {
-            return write!(f, "0");
+            return write!(f, "[^a-z]");
         }
         if ones > 1 {
             write!(f, "[")?;
-- 
2.43.0


From eb66c2bf05a0f16163283849c91d3a5cc69bed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 22/36] fix: leave whitespace and comments out of anagrams

---
 noodle/src/noodle_grammar.pest | 3 ++-
 noodle/src/parser.rs           | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 75f66c3..0183532 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -16,7 +16,8 @@ dot = { "." }
 letter_range = { ASCII_ALPHA ~ "-" ~ ASCII_ALPHA }
 invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
-anagram_body = { ASCII_ALPHA+ }
+letter = { ASCII_ALPHA }
+anagram_body = { letter+ }
 
 sequence = { (term ~ repeat?)+ }
 alternatives = { sequence ~ ("|" ~ sequence)+ }
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 5065c41..a552878 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -500,7 +500,11 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
 fn parse_anagram(mut pairs: Pairs<'_, Rule>) -> (Vec<Char>, Option<usize>) {
     let body = pairs.next().unwrap();
     assert_eq!(body.as_rule(), Rule::anagram_body);
-    let bank = body.as_str().chars().map(|c| c.into()).collect();
+    // There may be whitespace or comments between the letters
+    let bank = body
+        .into_inner()
+        .map(|p| p.as_str().chars().next().unwrap().into())
+        .collect();
     let number = parse_numbers(pairs).get(0).cloned();
 
     (bank, number)
-- 
2.43.0


From e59553793ca5f877209baafcee13c87684a2f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:05 +0000
Subject: [PATCH 23/36] fix: leave whitespace before a comment out of macros

---
 noodle/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index a552878..7b84445 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -202,7 +202,7 @@ impl QueryAst {
                         let terms: Vec<_> = inner
                             .filter_map(|p| match p.as_rule() {
                                 Rule::macro_name => Some(p.as_str()),
-                                Rule::macro_value => Some(p.as_str()),
+                                Rule::macro_value => Some(p.as_str().trim_end()),
                                 _ => None,
                             })
                             .collect();
-- 
2.43.0


From c1ab872cbbb8f23b6c67f7190a2ebbf930a0970a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 24/36] fix: stop loading a word list at an error which would
 repeat forever

---
 noodle/src/words.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index d0ce26d..882939d 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -230,6 +230,11 @@ where
 
     let mut wordlist: Vec<_> = unzip
         .lines()
+        // Skip lines which are not UTF-8, but stop at any other error (it would repeat forever)
+        .take_while(|line| match line {
+            Ok(_) => true,
+            Err(err) => err.kind() == io::ErrorKind::InvalidData,
+        })
         .filter_map(|line| line.ok())
         .filter_map(|line| {
             // Parse either a plain wordlist, or a 2-column (count, word) variant
-- 
2.43.0


From 4a5da1bd2a1c393e3482f2ba53b5638d1d9d6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:35 +0000
Subject: [PATCH 25/36] fix: time out in the phrase search even if every step
 finds a result

---
 noodle/src/query.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index 992fa90..f322e43 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -513,6 +513,16 @@ impl<'word> QueryEvaluator<'word> {
                 let mut result = None;
                 // Search until there is a result, or the queue is exhausted
                 while !search_queue.is_empty() {
+                    // (This is also checked before the first step, in case there is a result
+                    // within the first few steps of every call)
+                    if deadline_check_count % 256 == 0
+                        && deadline.is_some()
+                        && Some(Instant::now()) > deadline
+                    {
+                        return QueryResponse::Timeout;
+                    }
+                    deadline_check_count += 1;
+
                     let search_phase = &search_queue[0];
                     let (lower_layers, upper_layers) = search_layers.split_at_mut(*layer_index + 1);
                     let prev_layer = &mut lower_layers[*layer_index];
@@ -627,14 +637,6 @@ impl<'word> QueryEvaluator<'word> {
                     if result.is_some() {
                         break;
                     }
-
-                    deadline_check_count += 1;
-                    if deadline_check_count % 256 == 0
-                        && deadline.is_some()
-                        && Some(Instant::now()) > deadline
-                    {
-                        return QueryResponse::Timeout;
-                    }
                 }
 
                 if let Some(result) = result {
-- 
2.43.0


From d487624b9a6b51cea030b520e23b18e3fb39a602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:21 +0000
Subject: [PATCH 26/36] fix: the progress of a search over many groups and long
 phrases overflowed

---
 noodle/src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index f322e43..c946d3f 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -210,7 +210,7 @@ impl<'word> QueryEvaluator<'word> {
                     phase.depth,
                     estimate,
                     initial_search_estimate,
-                    100 * estimate / (*initial_search_estimate).max(1),
+                    100 * u64::from(estimate) / u64::from(*initial_search_estimate).max(1),
                     phase.tranche,
                 )
             }
-- 
2.43.0


From ff36eba2f7c21b01c99b012fc3dd67ea4f128da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:14 +0000
Subject: [PATCH 27/36] fix: a very long line in a word list overflowed its
 score

---
 noodle/src/words.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index 882939d..11fca23 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -239,7 +239,7 @@ where
         .filter_map(|line| {
             // Parse either a plain wordlist, or a 2-column (count, word) variant
             let mut word = line.as_ref();
-            let mut score = line.len() as u32 * 200;
+            let mut score = (line.len() as u32).saturating_mul(200);
             if let Some((count_col, word_col)) = line.split_once('\t') {
                 if let Ok(count) = count_col.parse::<u32>() {
                     score = count;
-- 
2.43.0


From 544eef9e589a037549ebfc36f745a0d7877c9c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 28/36] fix: the page's status no longer shows the failure of a
 connection it gave up

Closing a WebSocket that is still connecting fires its error handler, which
overwrote the status of the next query (or "Stopped by user").
---
 noodle-webapp/static/index.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/noodle-webapp/static/index.html b/noodle-webapp/static/index.html
index c8dfb78..4258096 100644
--- a/noodle-webapp/static/index.html
+++ b/noodle-webapp/static/index.html
@@ -431,6 +431,7 @@
             function stop() {
                 if (window.ws) {
                     window.ws.onclose = null;
+                    window.ws.onerror = null;
                     window.ws.close();
                     statusDiv.innerText = "Stopped by user";
                 }
-- 
2.43.0


From f76e81e87618cfaaca1027609292ff3c93b1b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 29/36] fix: links beside an answer with &, #, +, / or ? are
 about all of it

---
 noodle-webapp/static/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/noodle-webapp/static/index.html b/noodle-webapp/static/index.html
index 4258096..065c270 100644
--- a/noodle-webapp/static/index.html
+++ b/noodle-webapp/static/index.html
@@ -519,14 +519,14 @@
                         let google = document.createElement("a");
                         google.innerText = "g";
                         google.className = "ext";
-                        google.href = "https://google.com/search?q=define:" + encodeURI(match.fullText);
+                        google.href = "https://google.com/search?q=define:" + encodeURIComponent(match.fullText);
                         google.title = "Google define:" + match.fullText;
                         google.target = "_blank";
 
                         let wiki = document.createElement("a");
                         wiki.innerText = "w";
                         wiki.className = "ext";
-                        wiki.href = "https://en.wikipedia.org/w/index.php?ns0=1&search=" + encodeURI(match.fullText);
+                        wiki.href = "https://en.wikipedia.org/w/index.php?ns0=1&search=" + encodeURIComponent(match.fullText);
                         wiki.title = "Wikipedia " + match.fullText;
                         wiki.target = "_blank";
 
@@ -534,7 +534,7 @@
                         cxio.innerText = "x";
                         cxio.className = "ext";
                         cxio.title = "crossword-solver.io clue " + match.fullText;
-                        cxio.href = "https://crossword-solver.io/clue/" + encodeURI(match.fullText);
+                        cxio.href = "https://crossword-solver.io/clue/" + encodeURIComponent(match.fullText);
                         cxio.target = "_blank";
 
                         match.block.appendChild(copy);
-- 
2.43.0


From 7dae58c84e0ebef613b589adcb60b25bab387261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 30/36] fix: the page works when its address is not well-formed

---
 noodle-webapp/static/index.html | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/noodle-webapp/static/index.html b/noodle-webapp/static/index.html
index 065c270..2949c6e 100644
--- a/noodle-webapp/static/index.html
+++ b/noodle-webapp/static/index.html
@@ -405,7 +405,12 @@
             var customWordlist = document.querySelector("#custom-wordlist");
             var feedback = document.querySelector("#feedback");
 
-            input.value = decodeURI(window.location.hash.substring(1));
+            try {
+                input.value = decodeURI(window.location.hash.substring(1));
+            } catch (e) {
+                // Malformed percent-encoding: take the text as it is
+                input.value = window.location.hash.substring(1);
+            }
             window.matches = "";
 
             function rebuildOutput() {
-- 
2.43.0


From b21c2151f3fab2092e40ab1d720ab902e9e14a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:28 +0000
Subject: [PATCH 31/36] fix: keep words with an en dash in word lists

---
 listgen/listgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/listgen/listgen.py b/listgen/listgen.py
index 3b49341..d018c35 100644
--- a/listgen/listgen.py
+++ b/listgen/listgen.py
@@ -115,13 +115,13 @@ def strip_word(word: str) -> str:
     #     - (Usually domains are filterd out by the ":" check, this is a backstop of sorts)
     if not any_letter_re.match(word):
         return ""
+    word = word.replace("–", "-")
     match = strip_word_re.match(word)
     if not match:
         return ""
     word = match.group(1)
     if "_" in word:
         return ""
-    word = word.replace("–", "-")
     if "www." in word or domain_re.match(word):
         return ""
     return word
-- 
2.43.0


From bfeecab511b7401ffde27535ee279a4e25b3f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:12 +0000
Subject: [PATCH 32/36] fix: parentheses in comments do not hide how deep
 groups are nested

---
 noodle/src/parser.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 7b84445..4566161 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -742,7 +742,22 @@ fn check_numbers(pair: &Pair<Rule>, max: usize) -> Result<()> {
 /// Check that groups are not nested so deep that parsing them may overflow the stack
 fn check_group_depth(input_str: &str) -> Result<()> {
     let mut depth: usize = 0;
+    let mut comment_end: usize = 0;
     for (i, c) in input_str.char_indices() {
+        // Comments do not open or close groups
+        if i < comment_end {
+            continue;
+        }
+        let rest = &input_str[i..];
+        if rest.starts_with("//") || rest.starts_with("--") {
+            break;
+        }
+        if rest.starts_with("/*") {
+            match rest[2..].find("*/") {
+                Some(len) => comment_end = i + 2 + len + 2,
+                None => break,
+            }
+        }
         match c {
             '(' => depth += 1,
             ')' => depth = depth.saturating_sub(1),
-- 
2.43.0


From f589f33b04e0cdec91b437c1bdfd7ff33adfbaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:04 +0000
Subject: [PATCH 33/36] fix: comments are allowed within the text of a macro

---
 noodle/src/noodle_grammar.pest |  4 ++--
 noodle/src/parser.rs           | 15 +++++++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 0183532..1e87417 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -81,8 +81,8 @@ option = _{ option_word_boundaries | option_punctuation | option_fuzz }
 expression = { SOI ~ subexpression ~ (option)* ~ EOI }
 
 macro_name = @{ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
-macro_value = @{ (!COMMENT ~ ' '..'~')* } // Nearly any ASCII character
-macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
+macro_value = @{ (!COMMENT ~ ' '..'~')+ } // Nearly any ASCII character
+macro_define = { SOI ~ macro_name ~ "=" ~ macro_value* ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
 dict_name = @{ (ASCII_ALPHANUMERIC | "-" | "_" | "'" | ".")+ }
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 4566161..5ca1646 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -198,16 +198,15 @@ impl QueryAst {
                         wordlist = Some(vec![]);
                     }
                     Rule::macro_define => {
-                        let inner = pair.into_inner();
-                        let terms: Vec<_> = inner
-                            .filter_map(|p| match p.as_rule() {
-                                Rule::macro_name => Some(p.as_str()),
-                                Rule::macro_value => Some(p.as_str().trim_end()),
-                                _ => None,
-                            })
+                        let mut inner = pair.into_inner();
+                        let macro_name = inner.next().unwrap().as_str();
+                        // There may be comments within the value
+                        let macro_value: Vec<_> = inner
+                            .filter(|p| p.as_rule() == Rule::macro_value)
+                            .map(|p| p.as_str().trim_end())
                             .collect();
                         // TODO: Maybe check if it's unique? Or not use a hashmap at all?
-                        macros.insert(terms[0].to_owned(), terms[1].to_owned());
+                        macros.insert(macro_name.to_owned(), macro_value.join(" "));
                     }
                     Rule::EOI => (),
                     _ => println!("Unexpected: {:?}", pair),
-- 
2.43.0


From 50790dc6a01b60f07b317db446c235eaf3a8037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:04 +0000
Subject: [PATCH 34/36] fix: running searches do not keep the other requests
 from being answered

---
 noodle-webapp/src/main.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 2f54c5f..4ca32bc 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -10,6 +10,7 @@ use std::net::IpAddr;
 use std::str::FromStr;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::time::{Duration, Instant};
+use tokio::task::block_in_place;
 use warp::ws::Message;
 use warp::Filter;
 
@@ -298,7 +299,8 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
                 break;
             }
             let deadline = start + duration;
-            match evaluator.next_within_deadline(Some(deadline)) {
+            let response = block_in_place(|| evaluator.next_within_deadline(Some(deadline)));
+            match response {
                 QueryResponse::Match(phrase) => tx.send(Response::Match { phrase }).await?,
                 QueryResponse::Logs(logs) => {
                     for log in logs {
@@ -371,14 +373,17 @@ async fn main() {
     let get_query = warp::get()
         .and(warp::path("query"))
         .and(warp::path::param())
-        .map(|q: String| run_query_sync(&percent_decode_str(&q).decode_utf8_lossy(), true));
+        .map(|q: String| {
+            // (searches may take long, the other requests don't wait for them)
+            block_in_place(|| run_query_sync(&percent_decode_str(&q).decode_utf8_lossy(), true))
+        });
 
     let post_query = warp::post()
         .and(warp::path("query"))
         .and(warp::body::content_length_limit(64 * 1024)) // 64kB
         .and(warp::body::bytes())
         .map(|query_str: bytes::Bytes| {
-            run_query_sync(&String::from_utf8_lossy(&query_str), false)
+            block_in_place(|| run_query_sync(&String::from_utf8_lossy(&query_str), false))
         });
 
     let routes = get_query
-- 
2.43.0


From 63e62d48c76f4a6e698b9a84693ea402de28e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:33 +0000
Subject: [PATCH 35/36] fix: giving up on optimizing the search does not lose
 answers

---
 noodle/src/query.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index c946d3f..f06a34a 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -368,7 +368,12 @@ impl<'word> QueryEvaluator<'word> {
                         if converged {
                             break;
                         }
-                        if optimization_passes > 100 {
+                        // (The matchers can only be used together if their wordlists are the same)
+                        if optimization_passes > 100
+                            && matchers
+                                .iter()
+                                .all(|m| m.alive_wordlist.len() == alive_wordlist.len())
+                        {
                             log_messages.push(format!(
                                 "gave up after performing {} optimization passes",
                                 optimization_passes
-- 
2.43.0


From 05d88dde0d4e9e67fd94f068eb7418c86561455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:18 +0000
Subject: [PATCH 36/36] fix: a deadline is noticed while the search for phrases
 is prepared

---
 noodle/src/query.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index f06a34a..94d558f 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -263,6 +263,15 @@ impl<'word> QueryEvaluator<'word> {
                         return QueryResponse::Match(vec![word.clone()]);
                     }
                 }
+
+                // Process remaining words to populate phrase-matching data, even though they won't yield any single-word matches
+                if !single_word_only {
+                    let mut wordlist = &first_matcher[0].alive_wordlist;
+                    for matcher in remaining_matchers.iter_mut() {
+                        let _ = matcher.iter(wordlist, false, deadline).count();
+                        wordlist = &matcher.alive_wordlist;
+                    }
+                }
                 if deadline.is_some() && Some(Instant::now()) > deadline {
                     return QueryResponse::Timeout;
                 }
@@ -278,17 +287,14 @@ impl<'word> QueryEvaluator<'word> {
 
                 let mut log_messages = vec![];
 
-                // Process remaining words to populate phrase-matching data, even though they won't yield any single-word matches
-                let mut alive_wordlist = {
-                    let mut wordlist = &first_matcher[0].alive_wordlist;
-                    for matcher in remaining_matchers.iter_mut() {
-                        let _ = matcher.iter(wordlist, false, None).count();
-                        wordlist = &matcher.alive_wordlist;
-                    }
-
-                    wordlist
-                }
-                .clone();
+                // This is the last matcher's wordlist, or one that has been optimized further (before
+                // a timeout, see below): each is a (weak) subset of all the longer ones
+                let mut alive_wordlist = matchers
+                    .iter()
+                    .map(|m| &m.alive_wordlist)
+                    .min_by_key(|wordlist| wordlist.len())
+                    .unwrap()
+                    .clone();
 
                 let mut tranches = alive_wordlist.iter().map(|w| w.tranche).collect::<Vec<_>>();
                 tranches.dedup();
@@ -325,6 +331,7 @@ impl<'word> QueryEvaluator<'word> {
                     loop {
                         optimization_passes += 1;
                         let mut converged = true;
+                        let mut did_shrink = false;
 
                         // Try to tighten the `search_queue` with the wordset/matchers we have so far
                         loop {
@@ -350,12 +357,14 @@ impl<'word> QueryEvaluator<'word> {
                             let did_opt =
                                 matcher.optimize_for_wordlist(&alive_wordlist, &search_queue);
                             converged = converged && !did_opt;
+                            did_shrink = did_shrink || did_opt;
 
                             // If the optimization step reduced the `alive_wordlist`, then use that
                             // moving forward.
                             if matcher.alive_wordlist.len() != alive_wordlist.len() {
                                 assert!(matcher.alive_wordlist.len() < alive_wordlist.len());
                                 converged = false;
+                                did_shrink = true;
 
                                 // TODO: can the big Vec clone be avoided?
                                 alive_wordlist = matcher.alive_wordlist.clone();
@@ -368,6 +377,11 @@ impl<'word> QueryEvaluator<'word> {
                         if converged {
                             break;
                         }
+                        // The matchers keep what this pass has achieved, the next call carries on
+                        // from there
+                        if did_shrink && deadline.is_some() && Some(Instant::now()) > deadline {
+                            return QueryResponse::Timeout;
+                        }
                         // (The matchers can only be used together if their wordlists are the same)
                         if optimization_passes > 100
                             && matchers
-- 
2.43.0

