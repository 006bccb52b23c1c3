From fe861517397b15641a8465044845a0ee2c65eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 01/26] fix: give every alternative and substring term its own
 terminal state

Nested alternatives, an alternative ending in a repetition, and substrings
ending in one were linked to the wrong successor, so e.g. (a|b)|c or x(a|b)|c
accepted the wrong words.
---
 noodle/src/expression.rs | 42 +++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ba1212a..1ceb382 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -98,17 +98,16 @@ impl Expression {
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
                     Self::build_states(alt, states);
-                    end_indexes.push(states.len() - 1);
+                    // Terminate each alternative with its own state, which all of its paths reach
+                    end_indexes.push(states.len());
+                    states.push(State::new());
                 }
                 let next_index = states.len();
                 for end_index in end_indexes {
-                    // Repoint the terminal states to the true success state
-                    let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.remove(end_index + 1);
-                        epsilon_states.insert(next_index);
-                    }
-                    states[end_index].next_state = next_index;
+                    // Point the terminal states to the true success state
+                    states[end_index]
+                        .epsilon_states_bitset_mut()
+                        .insert(next_index);
                 }
             }
             parser::Ast::Sequence(terms) => {
@@ -118,32 +117,27 @@ impl Expression {
             }
             parser::Ast::Substring(terms) => {
                 states.push(State::new());
-                let mut end_indexes = vec![];
+                let mut end_indexes = vec![initial_len];
                 for term in terms {
                     let next_index = states.len();
                     states[initial_len]
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
                     Self::build_states(term, states);
-                    end_indexes.push(states.len() - 1);
+                    // Terminate each term with its own state, which leads on to the next term
+                    let end_index = states.len();
+                    states.push(State::new());
+                    states[end_index]
+                        .epsilon_states_bitset_mut()
+                        .insert(end_index + 1);
+                    end_indexes.push(end_index);
                 }
                 let next_index = states.len();
                 for end_index in end_indexes {
                     // Add the true success state to the terminal states
-                    let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.insert(next_index);
-                    }
-                    // Rather than have the `char_bitset` edge point to two states,
-                    // we add a epsilon transition onto the `next_state`
-                    if states[end_index].char_bitset != CharBitset::EMPTY {
-                        let next_state = states[end_index].next_state;
-                        if next_state != next_index {
-                            states[next_state]
-                                .epsilon_states_bitset_mut()
-                                .insert(next_index);
-                        }
-                    }
+                    states[end_index]
+                        .epsilon_states_bitset_mut()
+                        .insert(next_index);
                 }
             }
             parser::Ast::Repetition {
-- 
2.43.0


From ff7ed3e6c69173184af5e02c890af2049834dced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 02/26] fix: remap states consistently when merging equivalent
 epsilon states

The index map was off by the number of deleted states, and a state could be
deleted twice: optimizing e.g. (b*|[ab]?|(b|baa)) panicked, and other
expressions changed their language.
---
 noodle/src/expression.rs | 57 +++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 1ceb382..ef785f0 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -331,13 +331,9 @@ impl Expression {
         // RUNTIME: O(states^3)
         fn prune_epsilon_pairs(states: &mut Vec<State>) {
             let states_len = states.len();
-            let mut state_map: Vec<_> = (0..states_len).collect();
-            let mut state_map_from: Vec<Option<usize>> = (0..states_len).map(Some).collect();
+            let mut replacements: Vec<_> = (0..states_len).collect();
             let mut deleted: Vec<usize> = vec![];
             for (i, state) in states.iter().enumerate() {
-                // Shift the state index down by the number of states before it that were deleted
-                state_map[i] -= deleted.iter().filter(|&d| *d < i).count();
-
                 // Don't attempt to collapse the first state
                 // Removing it would add a lot of complexity, with little benefit
                 if i == 0 {
@@ -360,41 +356,42 @@ impl Expression {
                         continue;
                     }
                     if similar_states == state2.epsilon_states {
-                        deleted.push(i2);
-                        state_map[i2] = i;
-                        state_map_from[i2] = None;
-                        state_map_from.iter_mut().for_each(|s| {
-                            if *s == Some(i) {
-                                *s = Some(i2)
-                            }
-                        });
+                        // Keep the later of the two, so the success state always stays last
+                        deleted.push(i);
+                        replacements[i] = i2;
                         break;
                     }
                 }
             }
 
             // Re-create the state table, pruning the `deleted` states
-            // - `state_map_from[i] == None` iff `i` is in `deleted` (and the state is pruned)
-            // - Otherwise, replace the state at `i` with the state at index `state_map_from[i]`
-            // - Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
+            // - Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`),
+            //   the new index of the state which (eventually) replaces it
             // RUNTIME: O(states^2)
             let new_states_len = states_len - deleted.len();
+            let state_map: Vec<_> = (0..states_len)
+                .map(|mut i| {
+                    while replacements[i] != i {
+                        i = replacements[i];
+                    }
+                    i - deleted.iter().filter(|&d| *d < i).count()
+                })
+                .collect();
             state_map.iter().for_each(|&s| assert!(s < new_states_len));
-            *states = state_map_from
+            *states = states
                 .iter()
-                .filter_map(|&from| {
-                    from.map(|from_index| {
-                        let state = &states[from_index];
-                        let mut epsilon_states = BitSet1D::new((), new_states_len);
-                        for s in state.epsilon_states.borrow().ones() {
-                            epsilon_states.borrow_mut().insert(state_map[s])
-                        }
-                        State {
-                            char_bitset: state.char_bitset,
-                            next_state: state_map[state.next_state],
-                            epsilon_states,
-                        }
-                    })
+                .enumerate()
+                .filter(|(i, _)| !deleted.contains(i))
+                .map(|(_, state)| {
+                    let mut epsilon_states = BitSet1D::new((), new_states_len);
+                    for s in state.epsilon_states.borrow().ones() {
+                        epsilon_states.borrow_mut().insert(state_map[s])
+                    }
+                    State {
+                        char_bitset: state.char_bitset,
+                        next_state: state_map[state.next_state],
+                        epsilon_states,
+                    }
                 })
                 .collect();
         }
-- 
2.43.0


From bc00bb878ee34d53198428fef1c8b8aec9940cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:34 +0000
Subject: [PATCH 03/26] fix: let fuzzy matching insert letters anywhere

An inserted letter was only considered next to a changed one, so letters
missing from the start or end of a word, or several in a row, were not
matched within the given edit distance (hello !1 did not match hell).
---
 noodle/src/expression.rs | 38 +++++++++++++++++++++++++++-----------
 noodle/src/matcher.rs    | 10 +++++-----
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ef785f0..cd71182 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -431,6 +431,25 @@ impl Expression {
         self.states[state_index].epsilon_states_bitset()
     }
 
+    /// Populate `from_state`'s entry of a state transition table, before any characters are consumed:
+    /// its epsilon transitions (with 0 fuzz), and what can be reached by inserting up to `fuzz` letters
+    ///
+    /// `RUNTIME: O(fuzz * states^2)`
+    pub fn start_transitions(&self, from_state: usize, transition_table: &mut BitSet3D) {
+        transition_table
+            .slice_mut((from_state, 0))
+            .union_with(self.epsilon_states(from_state));
+        for fuzz_index in 0..self.fuzz {
+            let insertion_set_group = self.char_transitions(
+                CharBitset::LETTERS,
+                transition_table.slice((from_state, fuzz_index)),
+            );
+            transition_table
+                .slice_mut((from_state, fuzz_index + 1))
+                .union_with(insertion_set_group.slice(()));
+        }
+    }
+
     /// Populate a state transition table for a given word
     ///
     /// The transition table has dimensions: `[char][from_state][fuzz][to_state]`,
@@ -441,9 +460,8 @@ impl Expression {
     /// to optimize future searches.
     ///
     /// This function does not initialize the transition table. When starting a word,
-    /// the transition_table[char=0] should be initialized to only contain the starting state:
-    /// The only bits that should be set are `[c][0][0][e]` where `e` is an epsilon transition
-    /// from the starting state. (see `Expression::epsilon_states(0)`)
+    /// the transition_table[char=0] should be initialized to only contain what is reachable without
+    /// consuming any characters. (see `Expression::start_transitions`)
     ///
     /// If `single_word_only` is true, only entries startin from state 0 are populated,
     /// (i.e. `[c][0][f][t]`). This is an optimization when we know that the user doesn't care
@@ -515,12 +533,15 @@ impl Expression {
                 for fuzz_index in 0..self.fuzz {
                     let state_transitions =
                         lower_table[char_index].slice((state_index, fuzz_index));
+                    let insertion_set_group = self.char_transitions(
+                        CharBitset::LETTERS,
+                        upper_table[0].slice((state_index, fuzz_index)),
+                    );
                     let mut fuzzed_next_state_transitions =
                         upper_table[0].slice_mut((state_index, fuzz_index + 1));
 
-                    if state_transitions.is_empty() {
-                        continue;
-                    }
+                    // Insertion
+                    fuzzed_next_state_transitions.union_with(insertion_set_group.slice(()));
 
                     // Deletion
                     fuzzed_next_state_transitions.union_with(state_transitions);
@@ -531,11 +552,6 @@ impl Expression {
                     let change_set = change_set_group.slice(());
                     fuzzed_next_state_transitions.union_with(change_set);
 
-                    // Insertion
-                    let insertion_set_group = self.char_transitions(char_bitset, change_set);
-                    let insertion_set = insertion_set_group.slice(());
-                    fuzzed_next_state_transitions.union_with(insertion_set);
-
                     // Optimization: discard the states we can get to with less fuzz
                     fuzzed_next_state_transitions.difference_with(fuzz_superset.borrow());
                     fuzz_superset
diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 71a7ca8..ff9b79e 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -229,11 +229,11 @@ impl<'word> WordMatcher<'word> {
             if prefix_len == 0 {
                 prefixed_table[0].borrow_mut().clear();
                 for src in 0..states_len {
-                    // After consuming 0 chars (and 0 fuzz), the only states reachable from state
-                    // `src` are its epsilon transitions
-                    prefixed_table[0]
-                        .slice_mut((src, 0))
-                        .union_with(self.phrase_matcher.expression.epsilon_states(src));
+                    // After consuming 0 chars, the only states reachable from state `src` are its
+                    // epsilon transitions (and the letters which were fuzzily inserted)
+                    self.phrase_matcher
+                        .expression
+                        .start_transitions(src, &mut prefixed_table[0]);
                 }
             }
 
-- 
2.43.0


From 2aa71e5bedfe844b4caae7c9fb14f5a873d28534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 04/26] fix: expand anagrams inside repetitions

An anagram under a repetition, e.g. <ab>? or (<ab>c:-), was left in the AST
and compiling the expression panicked.
---
 noodle/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index dbe938b..8261b46 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -219,10 +219,10 @@ impl QueryAst {
                     nodes.iter_mut().for_each(|n| visit(n, action))
                 }
                 Ast::Repetition {
-                    term: _,
+                    term,
                     min: _,
                     max: _,
-                } => (),
+                } => visit(term, action),
                 Ast::Anagram { kind: _, bank: _ } => action(node),
             }
         }
-- 
2.43.0


From 2945516f65c76f7d7ed8e5f619908e71442a73f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 05/26] fix: return the last phrase before completing the
 search

When the last phrase to be tried was a match, the evaluator counted it but
returned the completion instead: with the words a and b, bb found nothing.
---
 noodle/src/query.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index ab0819d..a630fbe 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -193,7 +193,10 @@ impl<'word> QueryEvaluator<'word> {
                 initial_search_estimate,
                 ..
             } => {
-                let phase = &search_queue[0];
+                let phase = match search_queue.first() {
+                    Some(phase) => phase,
+                    None => return "Done".to_string(),
+                };
                 let step_index = &search_layers[0].word_index;
 
                 let estimate = search_estimate(search_queue);
@@ -499,6 +502,15 @@ impl<'word> QueryEvaluator<'word> {
             } => {
                 assert!(!wordlist.is_empty());
 
+                // The previous call returned the last phrase, there's nothing left to search
+                if search_queue.is_empty() {
+                    self.phase = QueryPhase::Done;
+                    return QueryResponse::Complete(format!(
+                        "Complete, found all {} phrases up to {} words",
+                        self.results_count, self.search_depth_limit
+                    ));
+                }
+
                 let mut deadline_check_count = 0;
                 let mut result = None;
                 loop {
@@ -592,7 +604,10 @@ impl<'word> QueryEvaluator<'word> {
                                         });
                                     }
 
-                                    if search_queue.is_empty() {
+                                    if search_queue.is_empty() && result.is_some() {
+                                        // Return the last phrase first, before signalling completion
+                                        break;
+                                    } else if search_queue.is_empty() {
                                         // If the depth queue is empty, we're done for good!
                                         // Signal that the iterator is exhausted
                                         self.phase = QueryPhase::Done;
-- 
2.43.0


From 37a9f9fea1a1cbb0ababce6a9e65b184f885d892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 06/26] fix: complete a query without expressions instead of
 panicking

An empty query, or one with only comments, pragmas or macros, parses but
tripped an assertion in the evaluator.
---
 noodle/src/query.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index a630fbe..fe665f2 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -106,8 +106,6 @@ impl<'word> QueryEvaluator<'word> {
         search_depth_limit: PhraseDepth,
         results_limit: Option<usize>,
     ) -> Self {
-        assert!(!expressions.is_empty());
-
         // TODO: Remove +1
         let max_word_len = 1 + input_wordlist
             .iter()
@@ -186,7 +184,10 @@ impl<'word> QueryEvaluator<'word> {
 
     pub fn progress(&self) -> String {
         match &self.phase {
-            QueryPhase::Word { matchers, wordlist } => matchers[0].progress(wordlist),
+            QueryPhase::Word { matchers, wordlist } => matchers
+                .first()
+                .map(|m| m.progress(wordlist))
+                .unwrap_or_default(),
             QueryPhase::Phrase {
                 search_layers,
                 search_queue,
@@ -230,6 +231,11 @@ impl<'word> QueryEvaluator<'word> {
         }
 
         match &mut self.phase {
+            // Without any expressions, there is nothing to match
+            QueryPhase::Word { matchers, .. } if matchers.is_empty() => {
+                self.phase = QueryPhase::Done;
+                QueryResponse::Complete("Complete, there are no expressions".to_string())
+            }
             QueryPhase::Word { matchers, wordlist } => {
                 let single_word_only = self.search_depth_limit <= 1;
 
-- 
2.43.0


From 22d75546287197e1f49b5c7567c02781cadd8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 07/26] fix: compute the search progress without dividing by
 zero

progress() panicked on an empty wordlist and when a single word was left for
the phrase search, overflowed for deep searches, and showed every phase as
complete at its first word.
---
 noodle/src/matcher.rs |  2 +-
 noodle/src/query.rs   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index ff9b79e..9c52d39 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -162,7 +162,7 @@ impl<'word> WordMatcher<'word> {
             "Single-word matches: {}/{} ({}%)",
             self.word_index,
             wordlist.len(),
-            100 * self.word_index / wordlist.len()
+            100 * self.word_index / wordlist.len().max(1)
         )
     }
 
diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index fe665f2..89ca812 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -55,7 +55,7 @@ enum QueryPhase<'word> {
 
         /// Initial (unitless) estimate for time to perform the phrase search phase,
         /// based on the size/value of the `search_queue`. (See `search_estimate`)
-        initial_search_estimate: u32,
+        initial_search_estimate: u64,
     },
     /// Phase 3, done!
     Done,
@@ -87,7 +87,7 @@ struct SearchLayer {
 
 // --
 
-fn search_estimate(search_phases: &[SearchPhase]) -> u32 {
+fn search_estimate(search_phases: &[SearchPhase]) -> u64 {
     // This is just an incredibly rough guess at how long each phase will take
     // In theory each phase should be `O(total_size)`, but eliminating common
     // prefixes makes it usually run much faster.
@@ -95,7 +95,7 @@ fn search_estimate(search_phases: &[SearchPhase]) -> u32 {
     // Assume each phase is roughly `O((log total_size) ^ 2)`
     search_phases
         .iter()
-        .map(|p| (p.total_size as f64).log2().powf(2.0) as u32)
+        .map(|p| (p.total_size as f64).log2().powf(2.0) as u64)
         .sum()
 }
 
@@ -202,7 +202,7 @@ impl<'word> QueryEvaluator<'word> {
 
                 let estimate = search_estimate(search_queue);
                 let step_estimate =
-                    ((*step_index as f64).log2() * (phase.depth as f64)).powf(2.0) as u32;
+                    (((*step_index).max(1) as f64).log2() * (phase.depth as f64)).powf(2.0) as u64;
                 let estimate = initial_search_estimate - estimate.saturating_sub(step_estimate);
 
                 format!(
@@ -210,7 +210,7 @@ impl<'word> QueryEvaluator<'word> {
                     phase.depth,
                     estimate,
                     initial_search_estimate,
-                    100 * estimate / initial_search_estimate,
+                    100 * estimate / (*initial_search_estimate).max(1),
                     phase.tranche,
                 )
             }
-- 
2.43.0


From f82d13e394e12fabde636b497122ab7b52de8ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 08/26] fix: accept /* */ comments, and empty // comments

The body of a block comment swallowed its own terminator, so the documented
/* ... */ never parsed; neither did a // or -- at the very end of a line.
---
 noodle/src/noodle_grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 486f01c..f8fcfdb 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -1,7 +1,7 @@
 WHITESPACE = _{ " " }
 COMMENT = _{ 
-    (("//" | "--") ~ ANY+) |
-    ("/*" ~ ANY+ ~ "*/")
+    (("//" | "--") ~ ANY*) |
+    ("/*" ~ (!"*/" ~ ANY)* ~ "*/")
 }
 
 // Note: Keep field names human-readable, they end up in error messages
-- 
2.43.0


From 2dd44a5a394151000aa87e079f96c1b40bb0e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 09/26] fix: keep the whole name in the #dict pragma

#dictionary NAME was read as #dict with 'ionary' before the name, dashes were
dropped from names, and names with digits did not parse; the web page sends
the names of its word lists this way.
---
 noodle/src/noodle_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index f8fcfdb..93c75e3 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -78,7 +78,8 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-pragma_dict = { (^"#dict" | ^"#dictionary") ~ (character | "-")+ }
+dict_name = @{ (ASCII_ALPHANUMERIC | dot | punctuation | whitespace | "-")+ }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ dict_name }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0


From eebbe487ebbfdfb17f972e8499bc2515e77a4042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 10/26] fix: reject repetition ranges out of order and numbers
 too large to use

a{5,3} and a{99999999999999999999} passed the grammar and then panicked (or,
optimized, overflowed).
---
 noodle/src/parser.rs | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 8261b46..1721f6a 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,6 +1,6 @@
 use crate::words::*;
 use indexmap::IndexMap;
-use pest::error::{Error as PestError, LineColLocation};
+use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
 use pest::Parser;
 use std::fmt;
@@ -81,6 +81,7 @@ impl ExpressionAst {
             .next()
             .unwrap();
 
+        check_numbers(&pair)?;
         Ok(parse_expression(pair))
     }
 }
@@ -148,6 +149,7 @@ impl QueryAst {
             if let Some(pair) = pair.next() {
                 match pair.as_rule() {
                     Rule::expression => {
+                        check_numbers(&pair).map_err(|e| error_set_line(e, i + 1))?;
                         let expr = parse_expression(pair);
                         expressions.push(expr);
                     }
@@ -485,6 +487,39 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
         .collect()
 }
 
+/// Check that every `Rule::number` in an expression can be represented, and that the bounds of
+/// every `Rule::repeat_range` are in order. (The grammar only ensures that they are digits)
+fn check_numbers(pair: &Pair<'_, Rule>) -> Result<()> {
+    let error = |message: &str| {
+        Err(PestError::new_from_span(
+            ErrorVariant::CustomError {
+                message: message.to_string(),
+            },
+            pair.as_span(),
+        ))
+    };
+    match pair.as_rule() {
+        Rule::number if pair.as_str().parse::<u16>().is_err() => error("number is too large"),
+        Rule::repeat_range => {
+            pair.clone()
+                .into_inner()
+                .try_for_each(|p| check_numbers(&p))?;
+            // The first inner pair is the term itself
+            let mut pairs = pair.clone().into_inner();
+            pairs.next();
+            let numbers = parse_numbers(pairs);
+            if numbers[0] > numbers[1] {
+                return error("repetition range is out of order");
+            }
+            Ok(())
+        }
+        _ => pair
+            .clone()
+            .into_inner()
+            .try_for_each(|p| check_numbers(&p)),
+    }
+}
+
 /// Given the contents of an anagram-like rule, return a tuple containing the parsed contents of
 /// the `anagram_body` & `number` rules.
 /// The outer `pairs` *must* either be `[Rule::anagram_body]` or `[Rule::anagram_body, Rule::number]`
-- 
2.43.0


From 05eedf1af2be3ce637cdb422137cc84d23a0416a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 11/26] fix: reject expressions with more states than a state
 set can hold

Compiling e.g. a{20000} wrote past the end of the fixed-size state sets.
---
 noodle/src/expression.rs |  2 +-
 noodle/src/parser.rs     | 44 +++++++++++++++++++++++++++++++++++++++-
 2 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index cd71182..dad5cf1 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -5,7 +5,7 @@ use std::fmt;
 
 // This is only used while constructing the `Expression`,
 // the sets are resized before they are evaluated.
-const MAX_SET_SIZE: usize = 16 * 1024;
+pub(crate) const MAX_SET_SIZE: usize = 16 * 1024;
 
 #[derive(Debug, Clone)]
 struct State {
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 1721f6a..a7621fb 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,3 +1,4 @@
+use crate::expression::MAX_SET_SIZE as MAX_STATES;
 use crate::words::*;
 use indexmap::IndexMap;
 use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
@@ -82,7 +83,10 @@ impl ExpressionAst {
             .unwrap();
 
         check_numbers(&pair)?;
-        Ok(parse_expression(pair))
+        let span = pair.as_span();
+        let expr = parse_expression(pair);
+        check_size(&expr, span)?;
+        Ok(expr)
     }
 }
 
@@ -150,7 +154,9 @@ impl QueryAst {
                 match pair.as_rule() {
                     Rule::expression => {
                         check_numbers(&pair).map_err(|e| error_set_line(e, i + 1))?;
+                        let span = pair.as_span();
                         let expr = parse_expression(pair);
+                        check_size(&expr, span).map_err(|e| error_set_line(e, i + 1))?;
                         expressions.push(expr);
                     }
                     Rule::pragma_words => {
@@ -520,6 +526,42 @@ fn check_numbers(pair: &Pair<'_, Rule>) -> Result<()> {
     }
 }
 
+/// Check that an expression does not need more states than `expression::Expression` can represent
+fn check_size(expression: &ExpressionAst, span: pest::Span<'_>) -> Result<()> {
+    // An upper bound on the number of states, once anagrams are expanded
+    fn states_bound(ast: &Ast) -> usize {
+        let sum = |nodes: &[Ast]| {
+            nodes
+                .iter()
+                .map(|n| states_bound(n).saturating_add(1))
+                .fold(1, usize::saturating_add)
+        };
+        match ast {
+            Ast::CharClass(_) => 1,
+            Ast::Alternatives(nodes) | Ast::Sequence(nodes) | Ast::Substring(nodes) => sum(nodes),
+            Ast::Repetition { term, min, max } => max
+                .unwrap_or(*min)
+                .max(1)
+                .saturating_mul(states_bound(term))
+                .saturating_add(2),
+            Ast::Anagram { kind, bank } => match kind {
+                AnagramKind::TransAdd(n) => n + 6 * (bank.len() + 1),
+                _ => 6 * (bank.len() + 1),
+            },
+        }
+    }
+
+    if states_bound(&expression.root) >= MAX_STATES {
+        return Err(PestError::new_from_span(
+            ErrorVariant::CustomError {
+                message: "expression is too large".to_string(),
+            },
+            span,
+        ));
+    }
+    Ok(())
+}
+
 /// Given the contents of an anagram-like rule, return a tuple containing the parsed contents of
 /// the `anagram_body` & `number` rules.
 /// The outer `pairs` *must* either be `[Rule::anagram_body]` or `[Rule::anagram_body, Rule::number]`
-- 
2.43.0


From 93af05d0470170163ba3f9c4226ee48a09e86d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 12/26] fix: stop counting a websocket query as active when it
 ends early

A parse error or a client going away returned before the gauge was
decremented.
---
 noodle-webapp/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index c0618da..9c5d04c 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -205,6 +205,15 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     result
 }
 
+/// Counts a query as active until it is dropped, however the query ends
+struct ActiveQuery;
+
+impl Drop for ActiveQuery {
+    fn drop(&mut self) {
+        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
+    }
+}
+
 /// Websockets interface, for interactive use
 async fn run_websocket(websocket: warp::ws::WebSocket) {
     let (tx, rx) = websocket.split();
@@ -227,6 +236,7 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
 
         TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
         let n_active = { ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed) };
+        let _active = ActiveQuery;
         let start = Instant::now();
         tx.send(Response::Status(format!(
             "Running query ({} other(s) active)...",
@@ -306,7 +316,6 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             };
         }
 
-        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
         Ok(())
     }
     .await;
-- 
2.43.0


From f080e8346b941e2aac2ecee18d5ca3a48135aa57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 13/26] fix: do not panic on a websocket message or POST body
 which is not text

A client closing the websocket without sending a query is one such message.
---
 noodle-webapp/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 9c5d04c..e3f241b 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -244,7 +244,10 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
         )))
         .await?;
 
-        let query_ast = parser::QueryAst::new_from_str(msg.to_str().unwrap());
+        let query_str = msg
+            .to_str()
+            .map_err(|_| anyhow!("Websocket message is not text"))?;
+        let query_ast = parser::QueryAst::new_from_str(query_str);
 
         if let Err(e) = &query_ast {
             tx.send(Response::Status("Query parse error".to_string()))
@@ -373,7 +376,7 @@ async fn main() {
         .and(warp::body::content_length_limit(64 * 1024)) // 64kB
         .and(warp::body::bytes())
         .map(|query_str: bytes::Bytes| {
-            run_query_sync(std::str::from_utf8(&query_str).unwrap(), false)
+            run_query_sync(&String::from_utf8_lossy(&query_str), false)
         });
 
     let routes = get_query
-- 
2.43.0


From 9d982f2a27a4de39611f177939ccb5257ae06b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 14/26] fix: do not make the space after a one-letter macro
 name part of it

X = [ab] defined a macro named 'X ', which later lines did not use.
---
 noodle/src/noodle_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 93c75e3..f622650 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -73,7 +73,7 @@ option = _{ option_word_boundaries | option_punctuation | option_fuzz }
 
 expression = { SOI ~ subexpression ~ (option)* ~ EOI }
 
-macro_name = { ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
+macro_name = @{ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
-- 
2.43.0


From e968ffd8b0598e61f5071b78b4d3865419b0d514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:55 +0000
Subject: [PATCH 15/26] fix: only merge an epsilon and a character state when
 that adds no paths

---
 noodle/src/expression.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index dad5cf1..5171fe4 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -237,6 +237,7 @@ impl Expression {
         //      - Itself
         //      - The char state
         //      - The epsilon_states of the char state's next state
+        //  - Wherever the char state can be reached, so can everything that the epsilon state reaches
         // This could be more generic if states supported an arbitrary set of edges
         // TODO: this code is pretty inefficient
         // RUNTIME: O(states^3)?
@@ -276,6 +277,18 @@ impl Expression {
                         .contains(char_state.next_state)
                     // ...but point to at most: itself, char_state, and char_state.next_state's epsilons
                     && eps_state.epsilon_states.borrow().is_subset(&allowed_epsilons.borrow())
+                    // Other states which lead to char_state must not gain anything when they
+                    // lead to eps_state instead
+                    && states.iter().enumerate().all(|(i, state)| {
+                        state.next_state != char_index
+                            && (i == char_index
+                                || !state.epsilon_states.borrow().contains(char_index)
+                                || {
+                                    let mut gained = eps_state.epsilon_states.clone();
+                                    gained.borrow_mut().remove(eps_index);
+                                    gained.borrow().is_subset(&state.epsilon_states.borrow())
+                                })
+                    })
             }
 
             // RUNTIME: O(states^2)
-- 
2.43.0


From e2be60df46c2c2af5c475d4b7f7f6cf05e13b0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 16/26] fix: show nested repetitions, substrings of one term
 and empty classes so that they can be read back

---
 noodle/src/parser.rs | 46 ++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index a7621fb..d890695 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -395,10 +395,32 @@ impl QueryAst {
     }
 }
 
+/// An `Ast` which is repeated or otherwise used as a `Rule::term`. This can be anything but a
+/// repetition, which has to be put in a group (even if it is the only node of a sequence)
+struct Term<'a>(&'a Ast);
+
+impl<'a> fmt::Display for Term<'a> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let mut node = self.0;
+        while let Ast::Sequence(nodes) = node {
+            match &nodes[..] {
+                [inner] => node = inner,
+                _ => break,
+            }
+        }
+        match node {
+            Ast::Repetition { .. } => write!(f, "({})", node),
+            _ => write!(f, "{}", node),
+        }
+    }
+}
+
 impl fmt::Display for Ast {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Ast::CharClass(CharBitset::LETTERS) => write!(f, ".")?,
+            // The complement of every letter
+            Ast::CharClass(CharBitset::EMPTY) => write!(f, "[^a-z]")?,
             Ast::CharClass(char_bitset) => write!(f, "{:?}", char_bitset)?,
             Ast::Alternatives(nodes) => {
                 if let Some(first) = nodes.get(0) {
@@ -419,49 +441,45 @@ impl fmt::Display for Ast {
                 }
             }
             Ast::Substring(nodes) => {
-                if nodes.len() > 1 {
-                    write!(f, "(")?;
-                }
-                nodes.iter().try_for_each(|n| write!(f, "{}", n))?;
-                if nodes.len() > 1 {
-                    write!(f, ":^)")?;
-                }
+                write!(f, "(")?;
+                nodes.iter().try_for_each(|n| write!(f, "{}", Term(n)))?;
+                write!(f, ":^)")?;
             }
             Ast::Repetition {
                 term,
                 min: 0,
                 max: None,
-            } => write!(f, "{}*", term)?,
+            } => write!(f, "{}*", Term(term))?,
             Ast::Repetition {
                 term,
                 min: 0,
                 max: Some(1),
-            } => write!(f, "{}?", term)?,
+            } => write!(f, "{}?", Term(term))?,
             Ast::Repetition {
                 term,
                 min: 1,
                 max: None,
-            } => write!(f, "{}+", term)?,
+            } => write!(f, "{}+", Term(term))?,
             Ast::Repetition {
                 term,
                 min: 0,
                 max: Some(max),
-            } => write!(f, "{}{{,{}}}", term, max)?,
+            } => write!(f, "{}{{,{}}}", Term(term), max)?,
             Ast::Repetition {
                 term,
                 min,
                 max: None,
-            } => write!(f, "{}{{{},}}", term, min)?,
+            } => write!(f, "{}{{{},}}", Term(term), min)?,
             Ast::Repetition {
                 term,
                 min,
                 max: Some(max),
-            } if min == max => write!(f, "{}{{{}}}", term, min)?,
+            } if min == max => write!(f, "{}{{{}}}", Term(term), min)?,
             Ast::Repetition {
                 term,
                 min,
                 max: Some(max),
-            } => write!(f, "{}{{{},{}}}", term, min, max)?,
+            } => write!(f, "{}{{{},{}}}", Term(term), min, max)?,
             Ast::Anagram { kind, bank } => {
                 write!(f, "<")?;
                 bank.iter().try_for_each(|c| write!(f, "{:?}", c))?;
-- 
2.43.0


From 761635a7be701232e81367c9ef5ccd8dd9543b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:24 +0000
Subject: [PATCH 17/26] fix: ignore spaces and comments between the letters of
 anagrams and ranges

---
 noodle/src/noodle_grammar.pest |  5 +++--
 noodle/src/parser.rs           | 18 +++++++++++++++---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index f622650..65cc246 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -13,10 +13,11 @@ whitespace = _{ "_" }
 
 character = { ASCII_ALPHA | dot | punctuation | whitespace }
 dot = { "." }
-letter_range = { ASCII_ALPHA ~ "-" ~ ASCII_ALPHA }
+letter = { ASCII_ALPHA }
+letter_range = { letter ~ "-" ~ letter }
 invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
-anagram_body = { ASCII_ALPHA+ }
+anagram_body = { letter+ }
 
 sequence = { (repeat | term)+ }
 alternatives = { sequence ~ ("|" ~ sequence)+ }
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index d890695..f6b17b2 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -511,6 +511,15 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
         .collect()
 }
 
+/// Given a (flat) list of parsed `pairs`, return the character of every `Rule::letter`.
+/// (There may be whitespace or comments between them)
+fn parse_letters(pairs: Pairs<'_, Rule>) -> Vec<char> {
+    pairs
+        .filter(|p| p.as_rule() == Rule::letter)
+        .filter_map(|p| p.as_str().chars().next())
+        .collect()
+}
+
 /// Check that every `Rule::number` in an expression can be represented, and that the bounds of
 /// every `Rule::repeat_range` are in order. (The grammar only ensures that they are digits)
 fn check_numbers(pair: &Pair<'_, Rule>) -> Result<()> {
@@ -586,7 +595,10 @@ fn check_size(expression: &ExpressionAst, span: pest::Span<'_>) -> Result<()> {
 fn parse_anagram(mut pairs: Pairs<'_, Rule>) -> (Vec<Char>, Option<usize>) {
     let body = pairs.next().unwrap();
     assert_eq!(body.as_rule(), Rule::anagram_body);
-    let bank = body.as_str().chars().map(|c| c.into()).collect();
+    let bank = parse_letters(body.into_inner())
+        .into_iter()
+        .map(|c| c.into())
+        .collect();
     let number = parse_numbers(pairs).get(0).cloned();
 
     (bank, number)
@@ -612,8 +624,8 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             inner.for_each(|p| match p.as_rule() {
                 Rule::invert => invert = true,
                 Rule::letter_range => {
-                    let cs = p.as_str().chars().collect::<Vec<_>>();
-                    bitset.union_with(CharBitset::from_range(cs[0], cs[2]));
+                    let cs = parse_letters(p.into_inner());
+                    bitset.union_with(CharBitset::from_range(cs[0], cs[1]));
                 }
                 Rule::character => {
                     bitset.union_with(CharBitset::from(p.as_str().chars().next().unwrap()))
-- 
2.43.0


From d0b80c0af0f90a48a3631b7602ad3ea2580949e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:59 +0000
Subject: [PATCH 18/26] fix: report word list files which cannot be read
 instead of panicking or reading them forever

---
 noodle/src/words.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index c57b864..73a5a2b 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -208,14 +208,13 @@ pub fn load_wordlist<P>(filename: P) -> Result<Vec<Word>, ()>
 where
     P: AsRef<std::path::Path> + Clone,
 {
-    // TODO: Correctly propagate errors
     // TODO: Include tranche values in the wordlist file, rather than making them up
-    let file = std::fs::File::open(filename.clone()).unwrap();
+    let file = std::fs::File::open(filename.clone()).map_err(|_| ())?;
     let bufread = io::BufReader::new(file);
     let unzip: Box<dyn BufRead> =
         if filename.as_ref().extension() == Some(std::ffi::OsStr::new("zst")) {
             Box::new(io::BufReader::new(
-                zstd::stream::read::Decoder::new(bufread).unwrap(),
+                zstd::stream::read::Decoder::new(bufread).map_err(|_| ())?,
             ))
         } else {
             Box::new(bufread)
@@ -227,10 +226,20 @@ where
     let mut tranche: Tranche = 0;
     let mut word_count: usize = 0;
     let mut skipped_count: usize = 0;
+    let mut read_error = false;
 
     let mut wordlist: Vec<_> = unzip
         .lines()
-        .filter_map(|line| line.ok())
+        // Skip lines which are not valid UTF-8. Any other error may repeat forever, so stop there
+        .map_while(|line| match line {
+            Ok(line) => Some(Some(line)),
+            Err(e) if e.kind() == io::ErrorKind::InvalidData => Some(None),
+            Err(_) => {
+                read_error = true;
+                None
+            }
+        })
+        .flatten()
         .filter_map(|line| {
             // Parse either a plain wordlist, or a 2-column (count, word) variant
             let mut word = line.as_ref();
@@ -270,6 +279,9 @@ where
             Some(word)
         })
         .collect();
+    if read_error {
+        return Err(());
+    }
     wordlist.sort();
     println!(
         "Loaded {} words with {} tranches (skipped {})",
-- 
2.43.0


From 9a060931bf27240bdec4bd4a5ed33ebead8f5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 19/26] fix: compact_distance_set confused the rows with the
 blocks of a row

---
 noodle/src/bitset.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/noodle/src/bitset.rs b/noodle/src/bitset.rs
index 5dc7dc5..874871f 100644
--- a/noodle/src/bitset.rs
+++ b/noodle/src/bitset.rs
@@ -226,12 +226,12 @@ impl BitSet<(usize, usize)> {
     /// `self` represents a 3D bitset: [x][y][z].
     /// Removes all [index][y+1][z] where [index][y][z] exists
     pub fn compact_distance_set(&mut self, index: usize) {
-        let blocks = &mut self.blocks[self.size.0 * index..self.size.0 * (index + 1)];
-        let stride = blocks.len() / self.size.1;
-        debug_assert_eq!(stride * self.size.1, blocks.len());
+        let rows = self.size.0;
+        let stride = self.size.1;
+        let blocks = &mut self.blocks[rows * stride * index..rows * stride * (index + 1)];
         for i in 0..stride {
             let mut mask: Block = 0;
-            for j in 0..self.size.1 {
+            for j in 0..rows {
                 let b = &mut blocks[j * stride + i];
                 *b &= !mask;
                 mask |= *b;
-- 
2.43.0


From 269021443052b93cbe240deccb2016a2a26b14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 20/26] Hook: cfg(noodle_verif) makes the bitset module public

---
 noodle/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/noodle/src/lib.rs b/noodle/src/lib.rs
index 3906dce..802512f 100644
--- a/noodle/src/lib.rs
+++ b/noodle/src/lib.rs
@@ -1,8 +1,14 @@
+#![allow(unexpected_cfgs)]
+
 extern crate pest;
 #[macro_use]
 extern crate pest_derive;
 
+#[cfg(not(noodle_verif))]
 mod bitset;
+/// Verification hook: makes the bit sets accessible to an external driver
+#[cfg(noodle_verif)]
+pub mod bitset;
 pub mod expression;
 mod matcher;
 pub mod parser;
-- 
2.43.0


From 25f4d964031a156acc9f25c7ffa90253be0372eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:56 +0000
Subject: [PATCH 21/26] fix: write diagnostics to standard error, not among the
 results on standard output

---
 noodle/src/expression.rs | 2 +-
 noodle/src/parser.rs     | 4 ++--
 noodle/src/words.rs      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 5171fe4..d633a11 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -435,7 +435,7 @@ impl Expression {
             loop_count += 1;
         }
         if loop_count > 2 {
-            println!("warning: optimize_states required {} loops", loop_count);
+            eprintln!("warning: optimize_states required {} loops", loop_count);
         }
     }
 
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index f6b17b2..733ef2d 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -192,7 +192,7 @@ impl QueryAst {
                         macros.insert(terms[0].to_owned(), terms[1].to_owned());
                     }
                     Rule::EOI => (),
-                    _ => println!("Unexpected: {:?}", pair),
+                    _ => eprintln!("Unexpected: {:?}", pair),
                 }
             }
         }
@@ -730,7 +730,7 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             let mut number = number.unwrap();
             if rule == Rule::transdelete && number > bank.len() {
                 // NB: Should this be an error?
-                println!("Warning: transdelete longer than bank");
+                eprintln!("Warning: transdelete longer than bank");
                 number = bank.len();
             }
             Some(Ast::Anagram {
diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index 73a5a2b..6e15dea 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -283,7 +283,7 @@ where
         return Err(());
     }
     wordlist.sort();
-    println!(
+    eprintln!(
         "Loaded {} words with {} tranches (skipped {})",
         wordlist.len(),
         tranche + 1,
-- 
2.43.0


From 87455233820505c6ee557a5f55245e9904098d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 22/26] fix: read nested groups in linear time

Every construct of the grammar was tried from the start of its first term (16 times at every level of
nesting), so that ((((((a)))))) took minutes to read.
---
 noodle/src/noodle_grammar.pest |  56 ++++++-------
 noodle/src/parser.rs           | 148 +++++++++++++++++++--------------
 2 files changed, 115 insertions(+), 89 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 65cc246..ea1428d 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -19,27 +19,30 @@ invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
 anagram_body = { letter+ }
 
-sequence = { (repeat | term)+ }
-alternatives = { sequence ~ ("|" ~ sequence)+ }
+// A term is read once, whatever follows it: there is no second attempt at a nested expression
+sequence = { repeat+ }
+alternatives = { sequence ~ ("|" ~ sequence)* }
 anagram = { "<" ~ anagram_body ~ ">" }
 superanagram = { "<" ~ anagram_body ~ "+>" }
 subanagram = { "<" ~ anagram_body ~ "->" }
 transadd = { "<" ~ anagram_body ~ "+" ~ number ~ ">" }
 transdelete = { "<" ~ anagram_body ~ "-" ~ number ~ ">" }
-substring = { "(" ~ term+ ~ ":^)" }
-subset = { "(" ~ term+ ~ ":-)" }
-superset = { "(" ~ term+ ~ ":+)" }
 
-repeat_optional = { term ~ "?" }
-repeat_any = { term ~ "*" }
-repeat_oneormore = { term ~ "+" }
-repeat_atmost = { term ~ "{," ~ number ~ "}" }
-repeat_exact = { term ~ "{" ~ number ~ "}" }
-repeat_atleast = { term ~ "{" ~ number ~ ",}" }
-repeat_range = { term ~ "{" ~ number ~ "," ~ number ~ "}" }
+group_end = { ")" }
+substring_end = { ":^)" }
+subset_end = { ":-)" }
+superset_end = { ":+)" }
 
-subexpression = _{ (alternatives | sequence) }
-group = _{ "(" ~ subexpression ~ ")" }
+repeat_optional = { "?" }
+repeat_any = { "*" }
+repeat_oneormore = { "+" }
+repeat_atmost = { "{," ~ number ~ "}" }
+repeat_exact = { "{" ~ number ~ "}" }
+repeat_atleast = { "{" ~ number ~ ",}" }
+repeat_range = { "{" ~ number ~ "," ~ number ~ "}" }
+
+// (A substring, subset or superset only contains terms, see `check_expression`)
+group = { "(" ~ alternatives ~ (group_end | substring_end | subset_end | superset_end) }
 term = _{
       class
     | dot
@@ -49,30 +52,27 @@ term = _{
     | subanagram
     | transadd
     | transdelete
-    | substring
-    | subset
-    | superset
     | number
     | character
 }
-repeat = _{
-    repeat_optional |
-    repeat_any |
-    repeat_oneormore |
-    repeat_atmost |
-    repeat_exact |
-    repeat_atleast |
-    repeat_range
+repeat = {
+    term ~ (
+        repeat_optional |
+        repeat_any |
+        repeat_oneormore |
+        repeat_atmost |
+        repeat_exact |
+        repeat_atleast |
+        repeat_range
+    )?
 }
 
-
-
 option_word_boundaries = { "!_" }
 option_punctuation = { "!'" }
 option_fuzz = {"!" ~ number }
 option = _{ option_word_boundaries | option_punctuation | option_fuzz }
 
-expression = { SOI ~ subexpression ~ (option)* ~ EOI }
+expression = { SOI ~ alternatives ~ (option)* ~ EOI }
 
 macro_name = @{ ASCII_ALPHA ~ (ASCII_ALPHA | ASCII_DIGIT | "_")* }
 macro_value = { (' '..'~')* } // Nearly any ASCII character
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 733ef2d..aeeab93 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -82,7 +82,7 @@ impl ExpressionAst {
             .next()
             .unwrap();
 
-        check_numbers(&pair)?;
+        check_expression(&pair)?;
         let span = pair.as_span();
         let expr = parse_expression(pair);
         check_size(&expr, span)?;
@@ -153,7 +153,7 @@ impl QueryAst {
             if let Some(pair) = pair.next() {
                 match pair.as_rule() {
                     Rule::expression => {
-                        check_numbers(&pair).map_err(|e| error_set_line(e, i + 1))?;
+                        check_expression(&pair).map_err(|e| error_set_line(e, i + 1))?;
                         let span = pair.as_span();
                         let expr = parse_expression(pair);
                         check_size(&expr, span).map_err(|e| error_set_line(e, i + 1))?;
@@ -522,7 +522,8 @@ fn parse_letters(pairs: Pairs<'_, Rule>) -> Vec<char> {
 
 /// Check that every `Rule::number` in an expression can be represented, and that the bounds of
 /// every `Rule::repeat_range` are in order. (The grammar only ensures that they are digits)
-fn check_numbers(pair: &Pair<'_, Rule>) -> Result<()> {
+/// Also check that substrings, subsets & supersets only contain terms.
+fn check_expression(pair: &Pair<'_, Rule>) -> Result<()> {
     let error = |message: &str| {
         Err(PestError::new_from_span(
             ErrorVariant::CustomError {
@@ -536,20 +537,31 @@ fn check_numbers(pair: &Pair<'_, Rule>) -> Result<()> {
         Rule::repeat_range => {
             pair.clone()
                 .into_inner()
-                .try_for_each(|p| check_numbers(&p))?;
-            // The first inner pair is the term itself
-            let mut pairs = pair.clone().into_inner();
-            pairs.next();
-            let numbers = parse_numbers(pairs);
+                .try_for_each(|p| check_expression(&p))?;
+            let numbers = parse_numbers(pair.clone().into_inner());
             if numbers[0] > numbers[1] {
                 return error("repetition range is out of order");
             }
             Ok(())
         }
+        Rule::group => {
+            let mut pairs = pair.clone().into_inner();
+            let alternatives = pairs.next().unwrap();
+            check_expression(&alternatives)?;
+            let only_terms = alternatives.clone().into_inner().count() == 1
+                && alternatives
+                    .into_inner()
+                    .flat_map(|sequence| sequence.into_inner())
+                    .all(|repeat| repeat.into_inner().count() == 1);
+            if pairs.next().unwrap().as_rule() != Rule::group_end && !only_terms {
+                return error("expected only terms, without repetitions or alternatives");
+            }
+            Ok(())
+        }
         _ => pair
             .clone()
             .into_inner()
-            .try_for_each(|p| check_numbers(&p)),
+            .try_for_each(|p| check_expression(&p)),
     }
 }
 
@@ -637,43 +649,51 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             }
             Some(Ast::CharClass(bitset))
         }
-        Rule::subset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .map(|c| Ast::Repetition {
-                    term: Box::new(c),
-                    min: 0,
-                    max: Some(1),
-                })
-                .collect(),
-        )),
-        Rule::superset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .flat_map(|c| {
-                    vec![
-                        Ast::Repetition {
+        Rule::group => {
+            let mut inner = pair.into_inner();
+            let alternatives = inner.next().unwrap();
+            let kind = inner.next().unwrap().as_rule();
+            if kind == Rule::group_end {
+                return parse_term(alternatives);
+            }
+            let terms = alternatives
+                .into_inner()
+                .flat_map(|sequence| sequence.into_inner())
+                .filter_map(parse_term);
+            Some(match kind {
+                Rule::subset_end => Ast::Sequence(
+                    terms
+                        .map(|c| Ast::Repetition {
+                            term: Box::new(c),
+                            min: 0,
+                            max: Some(1),
+                        })
+                        .collect(),
+                ),
+                Rule::superset_end => Ast::Sequence(
+                    terms
+                        .flat_map(|c| {
+                            vec![
+                                Ast::Repetition {
+                                    term: Box::new(Ast::CharClass(CharBitset::ALL)),
+                                    min: 0,
+                                    max: None,
+                                },
+                                c,
+                            ]
+                            .into_iter()
+                        })
+                        .chain(std::iter::once(Ast::Repetition {
                             term: Box::new(Ast::CharClass(CharBitset::ALL)),
                             min: 0,
                             max: None,
-                        },
-                        c,
-                    ]
-                    .into_iter()
-                })
-                .chain(std::iter::once(Ast::Repetition {
-                    term: Box::new(Ast::CharClass(CharBitset::ALL)),
-                    min: 0,
-                    max: None,
-                }))
-                .collect(),
-        )),
-        Rule::substring => Some(Ast::Substring(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
-        Rule::group => Some(Ast::Sequence(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
+                        }))
+                        .collect(),
+                ),
+                Rule::substring_end => Ast::Substring(terms.collect()),
+                _ => unreachable!(),
+            })
+        }
         Rule::sequence => Some(Ast::Sequence(
             pair.into_inner().filter_map(parse_term).collect(),
         )),
@@ -689,16 +709,15 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 Ast::CharClass(Char::WORD_END.into()),
             ]))
         }
-        Rule::repeat_optional
-        | Rule::repeat_any
-        | Rule::repeat_oneormore
-        | Rule::repeat_exact
-        | Rule::repeat_atmost
-        | Rule::repeat_atleast
-        | Rule::repeat_range => {
+        Rule::repeat => {
             let mut pairs = pair.into_inner();
-            let term = Box::new(pairs.next().and_then(parse_term).unwrap());
-            let numbers = parse_numbers(pairs);
+            let term = pairs.next().and_then(parse_term).unwrap();
+            let suffix = match pairs.next() {
+                Some(suffix) => suffix,
+                None => return Some(term),
+            };
+            let rule = suffix.as_rule();
+            let numbers = parse_numbers(suffix.into_inner());
             let (min, max) = match rule {
                 Rule::repeat_optional => (0, Some(1)),
                 Rule::repeat_any => (0, None),
@@ -709,7 +728,11 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 Rule::repeat_range => (numbers[0], Some(numbers[1])),
                 _ => unreachable!(),
             };
-            Some(Ast::Repetition { term, min, max })
+            Some(Ast::Repetition {
+                term: Box::new(term),
+                min,
+                max,
+            })
         }
         Rule::anagram | Rule::subanagram | Rule::superanagram => {
             let (bank, number) = parse_anagram(pair.into_inner());
@@ -742,9 +765,14 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 bank,
             })
         }
-        Rule::alternatives => Some(Ast::Alternatives(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
+        Rule::alternatives => {
+            let mut nodes: Vec<_> = pair.into_inner().filter_map(parse_term).collect();
+            if nodes.len() == 1 {
+                nodes.pop()
+            } else {
+                Some(Ast::Alternatives(nodes))
+            }
+        }
 
         _ => None,
     }
@@ -810,12 +838,10 @@ fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
     assert_eq!(pair.as_rule(), Rule::expression);
 
     let mut pairs = pair.into_inner();
-    let subexpression = pairs.next().unwrap();
-    assert!(
-        subexpression.as_rule() == Rule::sequence || subexpression.as_rule() == Rule::alternatives
-    );
+    let alternatives = pairs.next().unwrap();
+    assert_eq!(alternatives.as_rule(), Rule::alternatives);
 
-    let ast = parse_term(subexpression).unwrap();
+    let ast = parse_term(alternatives).unwrap();
     let mut options = parse_options(pairs);
     detect_options(&ast, &mut options);
 
-- 
2.43.0


From bb1baa581f6b4e134bfea49dc62854d1fdce3c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 23/26] fix: refuse lines which are nested too deeply or grow
 too long

Deep nesting overflowed the stack, and a few macros which double their length exhausted the memory.
---
 noodle/src/parser.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index aeeab93..2113b81 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -6,6 +6,12 @@ use pest::iterators::{Pair, Pairs};
 use pest::Parser;
 use std::fmt;
 
+/// The most bytes of a line of a query, once its macros are replaced
+const MAX_LINE_LENGTH: usize = 65536;
+
+/// The deepest nesting of groups in an expression
+const MAX_NESTING: usize = 100;
+
 pub type Result<T> = std::result::Result<T, PestError<Rule>>;
 
 #[derive(Parser)]
@@ -78,6 +84,7 @@ pub enum AnagramKind {
 
 impl ExpressionAst {
     pub fn new_from_str(input_str: &str) -> Result<Self> {
+        check_line(input_str)?;
         let pair = NoodleParser::parse(Rule::expression, input_str)?
             .next()
             .unwrap();
@@ -141,9 +148,16 @@ impl QueryAst {
 
             let mut line = line.to_owned();
             for (macro_name, macro_value) in macros.iter() {
+                let count = line.matches(macro_name.as_str()).count();
+                let growth = macro_value.len().saturating_sub(macro_name.len());
+                if line.len() + count * growth > MAX_LINE_LENGTH {
+                    let err = line_error(&line, "line is too long");
+                    return Err(error_set_line(err, i + 1));
+                }
                 line = line.replace(macro_name, macro_value);
             }
 
+            check_line(&line).map_err(|e| error_set_line(e, i + 1))?;
             let mut pair = NoodleParser::parse(Rule::query, &line)
                 .map_err(|e| error_set_line(e, i + 1))?
                 .next()
@@ -497,6 +511,35 @@ impl fmt::Display for Ast {
     }
 }
 
+/// An error about a whole line
+fn line_error(line: &str, message: &str) -> PestError<Rule> {
+    PestError::new_from_pos(
+        ErrorVariant::CustomError {
+            message: message.to_string(),
+        },
+        pest::Position::from_start(line),
+    )
+}
+
+/// Check that a line can be parsed without running out of stack or memory
+fn check_line(line: &str) -> Result<()> {
+    if line.len() > MAX_LINE_LENGTH {
+        return Err(line_error(line, "line is too long"));
+    }
+    let mut depth: usize = 0;
+    for c in line.chars() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        if depth > MAX_NESTING {
+            return Err(line_error(line, "groups are nested too deeply"));
+        }
+    }
+    Ok(())
+}
+
 /// Given a (flat) list of parsed `pairs`, parse every `Rule::number` into a `usize` and return
 /// them in a `Vec<usize>`.
 fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
-- 
2.43.0


From f2454a27ca9b00e3c4a0d60d2fceae6839632a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 24/26] fix: refuse limits on the number of words which exhaust
 the memory

#words 100000000 (or an overflowing number, which was ignored) aborted the process: there is a search phase for every number of words.
Also stop looking for possible numbers of words once there are none.
---
 noodle/src/matcher.rs | 6 ++++++
 noodle/src/parser.rs  | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 9c52d39..d0d9ff4 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -747,6 +747,12 @@ impl PhraseMatcher {
                 }
             }
             states_fuzz_dst = next_states_fuzz_dst;
+
+            // There is nothing left to extend with more words
+            if (0..tranches_len).all(|t| states_fuzz_dst.slice2d(t).is_empty()) {
+                search_phases.retain(|p| p.depth <= w);
+                break;
+            }
         }
     }
 
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 2113b81..c02e1de 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -9,6 +9,9 @@ use std::fmt;
 /// The most bytes of a line of a query, once its macros are replaced
 const MAX_LINE_LENGTH: usize = 65536;
 
+/// The highest limit on the number of words of a phrase
+const MAX_WORDS: usize = 1000;
+
 /// The deepest nesting of groups in an expression
 const MAX_NESTING: usize = 100;
 
@@ -176,7 +179,11 @@ impl QueryAst {
                     Rule::pragma_words => {
                         let inner = pair.into_inner();
                         let numbers = parse_numbers(inner);
-                        options.max_words = numbers.get(0).cloned();
+                        options.max_words = numbers.get(0).cloned().filter(|&n| n <= MAX_WORDS);
+                        if options.max_words.is_none() {
+                            let err = line_error(&line, "number is too large");
+                            return Err(error_set_line(err, i + 1));
+                        }
                     }
                     Rule::pragma_dict => {
                         let inner = pair.into_inner();
-- 
2.43.0


From 44e576ce55749e8fc8192ec38bdfcb5a114f458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 25/26] fix: refuse expressions whose tables exhaust the memory

a{1000}!60000 aborted the process.
---
 noodle/src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index c02e1de..ff21c5d 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -12,6 +12,9 @@ const MAX_LINE_LENGTH: usize = 65536;
 /// The highest limit on the number of words of a phrase
 const MAX_WORDS: usize = 1000;
 
+/// The most bits of a table of transitions between states
+const MAX_TABLE_SIZE: usize = 1 << 29;
+
 /// The deepest nesting of groups in an expression
 const MAX_NESTING: usize = 100;
 
@@ -640,7 +643,11 @@ fn check_size(expression: &ExpressionAst, span: pest::Span<'_>) -> Result<()> {
         }
     }
 
-    if states_bound(&expression.root) >= MAX_STATES {
+    // Matching takes tables of every pair of states, for every number of edits
+    let states = states_bound(&expression.root);
+    let fuzz = expression.options.fuzz.unwrap_or(0);
+    let table_size = states.saturating_mul(states).saturating_mul(fuzz + 1);
+    if states >= MAX_STATES || table_size > MAX_TABLE_SIZE {
         return Err(PestError::new_from_span(
             ErrorVariant::CustomError {
                 message: "expression is too large".to_string(),
-- 
2.43.0


From d153c73c76ec61ee0feda55589cdd1d90f5016db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:01 +0000
Subject: [PATCH 26/26] fix: cut short plain HTTP queries whose time is up
 while they find results

The evaluator only checks its deadline while it does not find anything, so
queries with many results went on (and filled the memory) until all were found.
---
 noodle-webapp/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index e3f241b..5b7707f 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -186,6 +186,11 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
                             body.push_str(&flatten_phrase(p));
                             body.push('\n');
                         }
+                        // The evaluator only checks the deadline if it does not find a match
+                        if Instant::now() > deadline {
+                            body.push_str(&format!("# Timeout after {:?}\n", timeout));
+                            break;
+                        }
                     }
                     QueryResponse::Timeout => {
                         body.push_str(&format!("# Timeout after {:?}\n", timeout));
-- 
2.43.0

