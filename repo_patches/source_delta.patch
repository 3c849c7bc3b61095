From 57c15c63542a6de3a185180689c6f8863cea2cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:37 +0000
Subject: [PATCH 01/34] fix: tr_unique keeps duplicate transitions separated by
 one with another weight

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index b7eb7d3..72ecb0b 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -359,7 +359,21 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let state = &mut self.states.get_unchecked_mut(state as usize);
         let trs_vec = Arc::make_mut(&mut state.trs.0);
         trs_vec.sort_by(tr_compare);
-        trs_vec.dedup();
+
+        // Transitions that differ only by their weights are contiguous but in no
+        // particular order, so all of them have to be looked at.
+        let mut uniques: Vec<Tr<W>> = Vec::with_capacity(trs_vec.len());
+        for tr in trs_vec.drain(..) {
+            let duplicate = uniques
+                .iter()
+                .rev()
+                .take_while(|t| equal_tr(t, &tr))
+                .any(|t| t.weight == tr.weight);
+            if !duplicate {
+                uniques.push(tr);
+            }
+        }
+        *trs_vec = uniques;
 
         // There might be a better way to do this
         if state.niepsilons != 0 || state.noepsilons != 0 {
-- 
2.43.0


From 6bf867388e7045196d2d5248b7b2661905046222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:37 +0000
Subject: [PATCH 02/34] fix: del_states panics instead of returning an error on
 a missing state

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index 72ecb0b..16b3628 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -133,6 +133,11 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let mut new_id = vec![0_i32; self.states.len()];
 
         for s in dstates {
+            ensure!(
+                (s as usize) < new_id.len(),
+                "State id {:?} doesn't exist",
+                s
+            );
             new_id[s as usize] = -1;
         }
 
-- 
2.43.0


From bdf2d8ed699f09474bac412f55656a49863031b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:02 +0000
Subject: [PATCH 03/34] fix: dfs_visit skips every state of an FST without
 start state

---
 rustfst/src/algorithms/dfs_visit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/dfs_visit.rs b/rustfst/src/algorithms/dfs_visit.rs
index d810b21..0c4d70b 100644
--- a/rustfst/src/algorithms/dfs_visit.rs
+++ b/rustfst/src/algorithms/dfs_visit.rs
@@ -103,10 +103,12 @@ pub fn dfs_visit<'a, W: Semiring, F: ExpandedFst<W>, V: Visitor<'a, W, F>, A: Tr
 ) {
     visitor.init_visit(fst);
     let start = match fst.start() {
-        None => {
+        None if access_only => {
             visitor.finish_visit();
             return;
         }
+        // No state is accessible but they still have to be visited.
+        None => 0,
         Some(s) => s,
     };
 
-- 
2.43.0


From 2fd69fe43a44340192886d9e4954f1d735eaf4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:08 +0000
Subject: [PATCH 04/34] fix: is_final_unchecked disagrees with is_final on a
 zero final weight

---
 rustfst/src/fst_traits/fst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_traits/fst.rs b/rustfst/src/fst_traits/fst.rs
index 9c59c69..a760d84 100644
--- a/rustfst/src/fst_traits/fst.rs
+++ b/rustfst/src/fst_traits/fst.rs
@@ -129,7 +129,9 @@ pub trait CoreFst<W: Semiring> {
     ///
     #[inline]
     unsafe fn is_final_unchecked(&self, state: StateId) -> bool {
-        self.final_weight_unchecked(state).is_some()
+        self.final_weight_unchecked(state)
+            .map(|final_weight| final_weight != W::zero())
+            .unwrap_or(false)
     }
 
     /// Check whether a state is the start state or not.
-- 
2.43.0


From 2d5d238f4689ff6b9c40b5dc42bc23f115a73a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:28 +0000
Subject: [PATCH 05/34] fix: union with a first FST that has states but no
 start state selects a wrong start state

---
 rustfst/src/algorithms/union/union_static.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/union/union_static.rs b/rustfst/src/algorithms/union/union_static.rs
index 10c8220..012bfcf 100644
--- a/rustfst/src/algorithms/union/union_static.rs
+++ b/rustfst/src/algorithms/union/union_static.rs
@@ -87,8 +87,10 @@ where
 
     let start1 = fst_1.start();
     if start1.is_none() {
-        unsafe { fst_1.set_start_unchecked(start2) };
-        fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        unsafe { fst_1.set_start_unchecked(start2 + numstates1) };
+        if numstates1 == 0 {
+            fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        }
         return Ok(());
     }
     let start1 = unsafe { start1.unsafe_unwrap() };
-- 
2.43.0


From 92703b2a5df2a93099a0b19eade12eb828cfdc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:28 +0000
Subject: [PATCH 06/34] fix: condense panics on an FST without start state

---
 rustfst/src/algorithms/condense.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/condense.rs b/rustfst/src/algorithms/condense.rs
index 7a04985..391000e 100644
--- a/rustfst/src/algorithms/condense.rs
+++ b/rustfst/src/algorithms/condense.rs
@@ -27,7 +27,7 @@ pub fn condense<W: Semiring, FI: Fst<W> + ExpandedFst<W>, FO: MutableFst<W>>(
                 let c = c as StateId;
                 let s = s as StateId;
 
-                if s == ifst.start().unwrap() {
+                if Some(s) == ifst.start() {
                     ofst.set_start_unchecked(c);
                 }
                 if let Some(final_weight) = ifst.final_weight_unchecked(s) {
-- 
2.43.0


From 6db78ac80cdcdd416fbe573b22eb1d0fafdc074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:46 +0000
Subject: [PATCH 07/34] fix: Input/OutputEpsilonMapper claim epsilons on an FST
 without transitions

---
 rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs  | 4 +---
 rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
index 136c858..dfa682d 100644
--- a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for InputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::I_EPSILONS
-            | FstProperties::I_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::I_LABEL_SORTED
     }
 }
 
diff --git a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
index 42e4ac4..73fe89a 100644
--- a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for OutputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::O_EPSILONS
-            | FstProperties::O_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::O_LABEL_SORTED
     }
 }
 
-- 
2.43.0


From d61bd144520ef29048084998c96f9fa7d312a018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:46 +0000
Subject: [PATCH 08/34] fix: state_sort leaves the states of an FST without
 start state unsorted

---
 rustfst/src/algorithms/state_sort.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/algorithms/state_sort.rs b/rustfst/src/algorithms/state_sort.rs
index 30e5463..d810768 100644
--- a/rustfst/src/algorithms/state_sort.rs
+++ b/rustfst/src/algorithms/state_sort.rs
@@ -24,20 +24,17 @@ where
         order.len(),
         fst.num_states()
     );
-    if fst.start().is_none() {
-        return Ok(());
-    }
     // TODO: Use properties with mask once available
     let props = fst.properties_with_mask(FstProperties::statesort_properties());
 
-    let start_state = fst.start().unwrap();
-
     let mut done = vec![false; order.len()];
 
-    debug_assert!((start_state as usize) < order.len());
-    debug_assert!((order[start_state as usize] as usize) < fst.num_states());
+    if let Some(start_state) = fst.start() {
+        debug_assert!((start_state as usize) < order.len());
+        debug_assert!((order[start_state as usize] as usize) < fst.num_states());
 
-    fst.set_start(order[start_state as usize])?;
+        fst.set_start(order[start_state as usize])?;
+    }
 
     for mut s1 in fst.states_range() {
         if done[s1 as usize] {
-- 
2.43.0


From fcdb871adf8643804dd3bd5f8c5ba0c6472bb7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:01 +0000
Subject: [PATCH 09/34] fix: replace claims properties of sub-FSTs that are
 never called

---
 .../src/fst_properties/mutate_properties.rs   | 34 +++++--------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/rustfst/src/fst_properties/mutate_properties.rs b/rustfst/src/fst_properties/mutate_properties.rs
index 6fff2c0..94d64c7 100644
--- a/rustfst/src/fst_properties/mutate_properties.rs
+++ b/rustfst/src/fst_properties/mutate_properties.rs
@@ -525,31 +525,15 @@ pub fn replace_properties(
         if inprops[root as usize].contains(FstProperties::INITIAL_CYCLIC) {
             outprops |= FstProperties::INITIAL_CYCLIC;
         }
-        let mut props = FstProperties::empty();
-        let mut string = true;
-        for inprop in inprops {
-            if replace_transducer {
-                props |= FstProperties::NOT_ACCEPTOR & *inprop;
-            }
-            props |= (FstProperties::NOT_I_DETERMINISTIC
-                | FstProperties::NOT_O_DETERMINISTIC
-                | FstProperties::EPSILONS
-                | FstProperties::I_EPSILONS
-                | FstProperties::O_EPSILONS
-                | FstProperties::WEIGHTED
-                | FstProperties::WEIGHTED_CYCLES
-                | FstProperties::CYCLIC
-                | FstProperties::NOT_TOP_SORTED
-                | FstProperties::NOT_STRING)
-                & *inprop;
-            if !inprop.contains(FstProperties::STRING) {
-                string = false;
-            }
-        }
-        outprops |= props;
-        if string {
-            outprops |= FstProperties::STRING;
-        }
+        // A sub-FST that is never called contributes nothing to the result, so
+        // that only the root is known to be part of it.
+        outprops |= (FstProperties::EPSILONS
+            | FstProperties::I_EPSILONS
+            | FstProperties::O_EPSILONS
+            | FstProperties::WEIGHTED
+            | FstProperties::WEIGHTED_CYCLES
+            | FstProperties::CYCLIC)
+            & inprops[root as usize];
     }
     let mut acceptor = !replace_transducer;
     let mut ideterministic = !epsilon_on_call && epsilon_on_return;
-- 
2.43.0


From d89b62633e4534c976e6a2ef88ef297566ef9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:23 +0000
Subject: [PATCH 10/34] fix: approx_equal says an infinite weight differs from
 itself, so rm_epsilon and shortest_distance never return

---
 rustfst/src/semirings/utils_float.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/utils_float.rs b/rustfst/src/semirings/utils_float.rs
index 0fc9f14..e853042 100644
--- a/rustfst/src/semirings/utils_float.rs
+++ b/rustfst/src/semirings/utils_float.rs
@@ -1,3 +1,4 @@
 pub(crate) fn float_approx_equal(w1: f32, w2: f32, delta: f32) -> bool {
-    (w1 - w2).abs() <= delta
+    // Not (w1 - w2).abs() : an infinite weight has to be equal to itself.
+    w1 <= w2 + delta && w2 <= w1 + delta
 }
-- 
2.43.0


From 6a1edbca7517faf68725eae713959d7c9722d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:24 +0000
Subject: [PATCH 11/34] fix: rm_epsilon panics or uses stale distances behind
 an epsilon transition of weight zero

---
 .../src/algorithms/rm_epsilon/rm_epsilon_state.rs  | 10 +++++++---
 rustfst/src/algorithms/shortest_distance.rs        | 14 ++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs b/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
index f20a444..cfe6b92 100644
--- a/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
+++ b/rustfst/src/algorithms/rm_epsilon/rm_epsilon_state.rs
@@ -63,10 +63,15 @@ impl<W: Semiring, Q: Queue> RmEpsilonState<W, Q> {
             }
             self.visited[state as usize] = true;
             self.visited_states.push(state);
+            // A state behind an epsilon transition of weight zero has no distance.
+            let dist = distance
+                .get(state as usize)
+                .cloned()
+                .unwrap_or_else(W::zero);
             for tr in fst.borrow().get_trs(state)?.trs() {
                 // TODO: Remove this clone
                 let mut tr = tr.clone();
-                tr.weight = distance[state as usize].times(&tr.weight)?;
+                tr.weight = dist.times(&tr.weight)?;
                 if tr_filter.keep(&tr) {
                     while self.visited.len() <= (tr.nextstate as usize) {
                         self.visited.push(false);
@@ -104,8 +109,7 @@ impl<W: Semiring, Q: Queue> RmEpsilonState<W, Q> {
                 }
             }
             final_weight.plus_assign(
-                distance[state as usize]
-                    .times(fst.borrow().final_weight(state)?.unwrap_or_else(W::zero))?,
+                dist.times(fst.borrow().final_weight(state)?.unwrap_or_else(W::zero))?,
             )?;
         }
 
diff --git a/rustfst/src/algorithms/shortest_distance.rs b/rustfst/src/algorithms/shortest_distance.rs
index 715d16f..097c41c 100644
--- a/rustfst/src/algorithms/shortest_distance.rs
+++ b/rustfst/src/algorithms/shortest_distance.rs
@@ -230,9 +230,19 @@ impl<W: Semiring, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
                 }
             }
         }
-        self.source_id += 1;
         // TODO: This clone could be avoided
-        Ok(self.distance.clone())
+        let mut distance = self.distance.clone();
+        if self.retain {
+            // The states not reached from this source still hold the distance from a previous one.
+            let source_id = Some(self.source_id as StateId);
+            for (state, d) in distance.iter_mut().enumerate() {
+                if self.sources.get(state).copied().flatten() != source_id {
+                    *d = W::zero();
+                }
+            }
+        }
+        self.source_id += 1;
+        Ok(distance)
     }
 }
 
-- 
2.43.0


From 1b9fe151447664e48bd7f90b5cc1a4c76fc2e766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 12/34] fix: SigmaMatcher ignores sigma transitions of a state
 that also has the label itself

---
 .../compose/matchers/sigma_matcher.rs          | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
index 3abcd41..899eeb2 100644
--- a/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
+++ b/rustfst/src/algorithms/compose/matchers/sigma_matcher.rs
@@ -201,19 +201,18 @@ where
         }
 
         let mut find_empty = false;
-        let has_sigma = has_sigma(state, &matcher, sigma_label)?;
+        // The sigma transitions of the state, if any, match the label.
+        let has_sigma = has_sigma(state, &matcher, sigma_label)?
+            && match_label != EPS_LABEL
+            && match_label != NO_LABEL
+            && is_match_label_allowed(sigma_allowed_matches, match_label);
 
         let mut matcher_iterator_match_label = matcher.iter(state, match_label)?.peekable();
         let (sigma_match, matcher_iterator) = if matcher_iterator_match_label.peek().is_some() {
             (Some(NO_LABEL), matcher_iterator_match_label)
         } else {
             let mut matcher_iterator_sigma_label = matcher.iter(state, sigma_label)?.peekable();
-            if has_sigma
-                && match_label != EPS_LABEL
-                && match_label != NO_LABEL
-                && is_match_label_allowed(sigma_allowed_matches, match_label)
-                && matcher_iterator_sigma_label.peek().is_some()
-            {
+            if has_sigma && matcher_iterator_sigma_label.peek().is_some() {
                 (Some(match_label), matcher_iterator_sigma_label)
             } else {
                 find_empty = true;
@@ -268,11 +267,10 @@ where
     }
 
     pub fn next_openfst(&mut self) {
-        let r = self.matcher_iterator.next();
-        if r.is_none()
+        self.matcher_iterator.next();
+        if self.matcher_iterator.peek().is_none()
             && self.has_sigma
             && self.sigma_match.unwrap() == NO_LABEL
-            && self.match_label > 0
         {
             self.matcher_iterator = self
                 .matcher
-- 
2.43.0


From 36f3b524f171030cebd2a02a281400f1d9e49d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:46 +0000
Subject: [PATCH 13/34] fix: TropicalWeight and LogWeight closure are wrong
 (infinite and negative zero weights, log sum), so all_pairs_shortest_distance
 is

---
 rustfst/src/semirings/log_weight.rs      | 4 ++--
 rustfst/src/semirings/tropical_weight.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/semirings/log_weight.rs b/rustfst/src/semirings/log_weight.rs
index 09ee25d..0d50899 100644
--- a/rustfst/src/semirings/log_weight.rs
+++ b/rustfst/src/semirings/log_weight.rs
@@ -124,8 +124,8 @@ impl CompleteSemiring for LogWeight {}
 
 impl StarSemiring for LogWeight {
     fn closure(&self) -> Self {
-        if self.value.0 >= 0.0 && self.value.0 < 1.0 {
-            Self::new((1.0 - self.value.0).ln())
+        if self.value.0 > 0.0 {
+            Self::new((1.0 - (-self.value.0).exp()).ln())
         } else {
             Self::new(f32::NEG_INFINITY)
         }
diff --git a/rustfst/src/semirings/tropical_weight.rs b/rustfst/src/semirings/tropical_weight.rs
index 13663fa..bfbc062 100644
--- a/rustfst/src/semirings/tropical_weight.rs
+++ b/rustfst/src/semirings/tropical_weight.rs
@@ -116,7 +116,7 @@ impl CompleteSemiring for TropicalWeight {}
 
 impl StarSemiring for TropicalWeight {
     fn closure(&self) -> Self {
-        if self.value.is_sign_positive() && self.value.is_finite() {
+        if self.value.0 >= 0.0 {
             Self::new(0.0)
         } else {
             Self::new(f32::NEG_INFINITY)
-- 
2.43.0


From 0e84a217f8fbfd479bb093a0e48cfe11b877a436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:46 +0000
Subject: [PATCH 14/34] fix: minimize errors on an FST without start state and
 keeps equivalent states apart when transitions are not sorted

---
 rustfst/src/algorithms/minimize.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rustfst/src/algorithms/minimize.rs b/rustfst/src/algorithms/minimize.rs
index 05e0e3a..3eb85da 100644
--- a/rustfst/src/algorithms/minimize.rs
+++ b/rustfst/src/algorithms/minimize.rs
@@ -118,6 +118,12 @@ where
         false
     };
 
+    if ifst.start().is_none() {
+        // Nothing is accepted: the minimal machine has no state at all.
+        ifst.del_all_states();
+        return Ok(());
+    }
+
     if !props.contains(FstProperties::ACCEPTOR) {
         // Weighted transducer
         let mut to_gallic = ToGallicConverter {};
@@ -486,6 +492,7 @@ fn pre_partition<W: Semiring, F: MutableFst<W>>(
                 .trs()
                 .iter()
                 .map(|e| e.ilabel)
+                .sorted()
                 .dedup()
                 .collect_vec();
 
-- 
2.43.0


From f25248b79cbd2c6f73c63865afa6cab6cb7bad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:46 +0000
Subject: [PATCH 15/34] fix: push panics when asked to remove the common affix
 of an FST without successful path

---
 rustfst/src/algorithms/push.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/push.rs b/rustfst/src/algorithms/push.rs
index cfdf649..44340d8 100644
--- a/rustfst/src/algorithms/push.rs
+++ b/rustfst/src/algorithms/push.rs
@@ -203,11 +203,14 @@ macro_rules! m_labels_pushing {
                 &gdistance,
                 $reweight_type == ReweightType::ReweightToInitial,
             )?;
-            if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
-                total_weight.set_value1($string_weight::one());
-            }
-            if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
-                total_weight.set_value2(W::one());
+            // Without any successful path there is nothing to remove (and zero has no inverse).
+            if !total_weight.is_zero() {
+                if !$push_type.intersects(PushType::REMOVE_COMMON_AFFIX) {
+                    total_weight.set_value1($string_weight::one());
+                }
+                if !$push_type.intersects(PushType::REMOVE_TOTAL_WEIGHT) {
+                    total_weight.set_value2(W::one());
+                }
             }
             reweight(&mut gfst, gdistance.as_slice(), $reweight_type)?;
             remove_weight(
-- 
2.43.0


From 12ba509e2d49c83ae2a0ef53fd88846c7481b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:46 +0000
Subject: [PATCH 16/34] fix: shortest_distance loses or duplicates states in
 its queue on self-loops; ShortestFirstQueue::update is unimplemented

---
 rustfst/src/algorithms/queues/shortest_first_queue.rs | 4 +++-
 rustfst/src/algorithms/shortest_distance.rs           | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/queues/shortest_first_queue.rs b/rustfst/src/algorithms/queues/shortest_first_queue.rs
index bf588f0..23be347 100644
--- a/rustfst/src/algorithms/queues/shortest_first_queue.rs
+++ b/rustfst/src/algorithms/queues/shortest_first_queue.rs
@@ -62,7 +62,9 @@ impl<C: Clone + FnMut(&StateId, &StateId) -> Ordering> Queue for ShortestFirstQu
     }
 
     fn update(&mut self, _state: StateId) {
-        unimplemented!()
+        // The order of the states may have changed: rebuild the heap.
+        let states: Vec<_> = self.heap.drain().collect();
+        self.heap.extend(states);
     }
 
     fn is_empty(&self) -> bool {
diff --git a/rustfst/src/algorithms/shortest_distance.rs b/rustfst/src/algorithms/shortest_distance.rs
index 097c41c..6a55531 100644
--- a/rustfst/src/algorithms/shortest_distance.rs
+++ b/rustfst/src/algorithms/shortest_distance.rs
@@ -221,7 +221,7 @@ impl<W: Semiring, Q: Queue, A: TrFilter<W>> ShortestDistanceState<W, Q, A> {
                     na.plus_assign(&weight)?;
                     *nd = na.clone();
                     nr.plus_assign(&weight)?;
-                    if !self.enqueued[state] {
+                    if !self.enqueued[nextstate] {
                         self.state_queue.enqueue(nextstate as StateId);
                         self.enqueued[nextstate] = true;
                     } else {
-- 
2.43.0


From 6607e0ff172bc5b82841c115e19ccc1888c2c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:58 +0000
Subject: [PATCH 17/34] fix: head of an empty StateOrderQueue, TopOrderQueue or
 SccQueue returns a stale state or panics

---
 rustfst/src/algorithms/queues/scc_queue.rs         | 3 +++
 rustfst/src/algorithms/queues/state_order_queue.rs | 3 +++
 rustfst/src/algorithms/queues/top_order_queue.rs   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/rustfst/src/algorithms/queues/scc_queue.rs b/rustfst/src/algorithms/queues/scc_queue.rs
index 757d6f7..f55f85a 100644
--- a/rustfst/src/algorithms/queues/scc_queue.rs
+++ b/rustfst/src/algorithms/queues/scc_queue.rs
@@ -31,6 +31,9 @@ impl SccQueue {
 
 impl Queue for SccQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         self.update_front();
         self.queues[self.front as usize].head()
     }
diff --git a/rustfst/src/algorithms/queues/state_order_queue.rs b/rustfst/src/algorithms/queues/state_order_queue.rs
index b7898fa..4439415 100644
--- a/rustfst/src/algorithms/queues/state_order_queue.rs
+++ b/rustfst/src/algorithms/queues/state_order_queue.rs
@@ -10,6 +10,9 @@ pub struct StateOrderQueue {
 
 impl Queue for StateOrderQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         Some(self.front as StateId)
     }
 
diff --git a/rustfst/src/algorithms/queues/top_order_queue.rs b/rustfst/src/algorithms/queues/top_order_queue.rs
index 5f1c4e2..2196ea3 100644
--- a/rustfst/src/algorithms/queues/top_order_queue.rs
+++ b/rustfst/src/algorithms/queues/top_order_queue.rs
@@ -39,6 +39,9 @@ impl TopOrderQueue {
 
 impl Queue for TopOrderQueue {
     fn head(&mut self) -> Option<StateId> {
+        if self.is_empty() {
+            return None;
+        }
         self.state[self.front as usize]
     }
 
-- 
2.43.0


From 844c62b92df169488347e53bc7106cc60d97f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:34 +0000
Subject: [PATCH 18/34] fix: reweight towards final states multiplies final
 weights on the wrong side (non-commutative semirings)

---
 rustfst/src/algorithms/reweight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/reweight.rs b/rustfst/src/algorithms/reweight.rs
index 820ed9f..151e7c9 100644
--- a/rustfst/src/algorithms/reweight.rs
+++ b/rustfst/src/algorithms/reweight.rs
@@ -87,7 +87,7 @@ where
 
             match reweight_type {
                 ReweightType::ReweightToFinal => {
-                    final_weight.times_assign(d_s)?;
+                    final_weight = d_s.times(&final_weight)?;
                 }
                 ReweightType::ReweightToInitial => {
                     if d_s.is_zero() {
-- 
2.43.0


From a7724f9cb7ab4ec8d353770f6265a07f6e6009f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:23 +0000
Subject: [PATCH 19/34] fix: rm_final_epsilon multiplies transition and final
 weight in the wrong order (non-commutative semirings)

---
 rustfst/src/algorithms/rm_final_epsilon.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/algorithms/rm_final_epsilon.rs b/rustfst/src/algorithms/rm_final_epsilon.rs
index e8f1f83..2a55869 100644
--- a/rustfst/src/algorithms/rm_final_epsilon.rs
+++ b/rustfst/src/algorithms/rm_final_epsilon.rs
@@ -52,9 +52,8 @@ where
                             ifst.final_weight_unchecked(state).unwrap_or_else(W::zero)
                         })
                         .plus_assign(
-                            ifst.final_weight_unchecked(tr.nextstate)
-                                .unsafe_unwrap()
-                                .times(&tr.weight)?,
+                            tr.weight
+                                .times(ifst.final_weight_unchecked(tr.nextstate).unsafe_unwrap())?,
                         )?
                 };
                 trs_to_del.push(idx);
-- 
2.43.0


From e3e8f416a4c92691889c53345845dd951623f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 20/34] fix: TrsConst::to_trs_vec returns the transitions of
 every state

---
 rustfst/src/trs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/trs.rs b/rustfst/src/trs.rs
index b20ec1f..d1f8247 100644
--- a/rustfst/src/trs.rs
+++ b/rustfst/src/trs.rs
@@ -77,7 +77,7 @@ impl<W: Semiring> Trs<W> for TrsConst<W> {
     }
 
     fn to_trs_vec(&self) -> TrsVec<W> {
-        TrsVec(Arc::clone(&self.trs))
+        TrsVec(Arc::new(self.trs().to_vec()))
     }
 
     // Doesn't clone the data, only the Arc
-- 
2.43.0


From 54d039613a78a3d76d5bbe66e6dcfdfccc928ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:11 +0000
Subject: [PATCH 21/34] fix: SccQueue claims states after its components
 emptied and panics on dequeue

---
 rustfst/src/algorithms/queues/scc_queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/queues/scc_queue.rs b/rustfst/src/algorithms/queues/scc_queue.rs
index f55f85a..19d71d0 100644
--- a/rustfst/src/algorithms/queues/scc_queue.rs
+++ b/rustfst/src/algorithms/queues/scc_queue.rs
@@ -40,7 +40,7 @@ impl Queue for SccQueue {
 
     fn enqueue(&mut self, state: StateId) {
         let u_state = state as usize;
-        if self.front > self.back {
+        if self.is_empty() {
             self.front = self.sccs[u_state] as i32;
             self.back = self.sccs[u_state] as i32;
         } else if (self.sccs[u_state] as i32) > self.back {
-- 
2.43.0


From 7ef08f45bc0086fd915ec9e422a2e5a54623e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:33 +0000
Subject: [PATCH 22/34] fix: fst_convert drops transitions and final weights of
 an FST without start state but claims its properties

---
 rustfst/src/algorithms/fst_convert.rs | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rustfst/src/algorithms/fst_convert.rs b/rustfst/src/algorithms/fst_convert.rs
index ea96267..8b53645 100644
--- a/rustfst/src/algorithms/fst_convert.rs
+++ b/rustfst/src/algorithms/fst_convert.rs
@@ -16,18 +16,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for data in ifst.fst_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
-            }
-            for tr in data.trs.trs() {
-                unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
-            }
+    for data in ifst.fst_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
+        }
+        for tr in data.trs.trs() {
+            unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
+        }
 
-            if let Some(final_weight) = data.final_weight {
-                unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
-            }
+        if let Some(final_weight) = data.final_weight {
+            unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
         }
     }
 
@@ -52,18 +52,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for fst_iter_data in ifst.fst_into_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
-            }
-            for tr in fst_iter_data.trs {
-                unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
-            }
+    for fst_iter_data in ifst.fst_into_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
+        }
+        for tr in fst_iter_data.trs {
+            unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
+        }
 
-            if let Some(w) = fst_iter_data.final_weight {
-                unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
-            }
+        if let Some(w) = fst_iter_data.final_weight {
+            unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
         }
     }
 
-- 
2.43.0


From 2baa81eed98cb2580bca6b0b7e14e9afd3065fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:00 +0000
Subject: [PATCH 23/34] fix: the text form of an FST whose start state has no
 transition names another start state

---
 rustfst/src/fst_traits/macros.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/fst_traits/macros.rs b/rustfst/src/fst_traits/macros.rs
index 8b90c9e..df909ce 100644
--- a/rustfst/src/fst_traits/macros.rs
+++ b/rustfst/src/fst_traits/macros.rs
@@ -43,9 +43,30 @@ macro_rules! display_single_state {
     };
 }
 
+macro_rules! display_single_final_state {
+    ($fst:expr, $state_id:expr, $f: expr, $show_weight_one: expr) => {
+        let final_weight = unsafe { $fst.final_weight_unchecked($state_id).unsafe_unwrap() };
+        if final_weight.is_one() && !$show_weight_one {
+            writeln!($f, "{}", &$state_id)?;
+        } else {
+            writeln!($f, "{}\t{}", &$state_id, &final_weight)?;
+        }
+    };
+}
+
 macro_rules! write_fst {
     ($fst:expr, $f:expr, $show_weight_one: expr, $use_symt: expr) => {
         if let Some(start_state) = $fst.start() {
+            // The first line has to be about the start state, even if no tr leaves it.
+            let no_tr_at_start = unsafe { $fst.num_trs_unchecked(start_state) == 0 };
+            if no_tr_at_start {
+                if unsafe { $fst.is_final_unchecked(start_state) } {
+                    display_single_final_state!($fst, start_state, $f, $show_weight_one);
+                } else {
+                    writeln!($f, "{}\tInfinity", start_state)?;
+                }
+            }
+
             // Firstly print the trs leaving the start state
             display_single_state!($fst, start_state, $f, $show_weight_one, $use_symt);
 
@@ -58,12 +79,8 @@ macro_rules! write_fst {
 
             // Finally, print the final states with their weight
             for final_state in $fst.final_states_iter() {
-                let final_weight =
-                    unsafe { $fst.final_weight_unchecked(final_state).unsafe_unwrap() };
-                if final_weight.is_one() && !$show_weight_one {
-                    writeln!($f, "{}", &final_state)?;
-                } else {
-                    writeln!($f, "{}\t{}", &final_state, &final_weight)?;
+                if final_state != start_state || !no_tr_at_start {
+                    display_single_final_state!($fst, final_state, $f, $show_weight_one);
                 }
             }
         }
-- 
2.43.0


From 25874b5edd3bc98184393a99937d800e15f31b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:45 +0000
Subject: [PATCH 24/34] fix: check_path_in_fst compares output labels at the
 output position

---
 rustfst/src/fst_path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/fst_path.rs b/rustfst/src/fst_path.rs
index acb3db3..2b09af8 100644
--- a/rustfst/src/fst_path.rs
+++ b/rustfst/src/fst_path.rs
@@ -126,7 +126,7 @@ pub fn check_path_in_fst<W: Semiring, F: Fst<W>>(fst: &F, fst_path: &FstPath<W>)
                 let match_ilabel = next_ilabel_idx < fst_path.ilabels.len()
                     && tr.ilabel == fst_path.ilabels[next_ilabel_idx];
                 let match_olabel = next_olabel_idx < fst_path.olabels.len()
-                    && tr.olabel == fst_path.olabels[next_ilabel_idx];
+                    && tr.olabel == fst_path.olabels[next_olabel_idx];
                 let (new_next_ilabel_idx, new_next_olabel_idx) =
                     if tr.ilabel == EPS_LABEL && tr.olabel == EPS_LABEL {
                         (next_ilabel_idx, next_olabel_idx)
-- 
2.43.0


From 0d546dda5c67afde19d777cba105c5698aeb7ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:33 +0000
Subject: [PATCH 25/34] fix: reverse_back of a ProbabilityWeight gives the
 weight back instead of panicking

---
 rustfst/src/semirings/probability_weight.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/semirings/probability_weight.rs b/rustfst/src/semirings/probability_weight.rs
index 0591345..5da8a8a 100644
--- a/rustfst/src/semirings/probability_weight.rs
+++ b/rustfst/src/semirings/probability_weight.rs
@@ -84,7 +84,7 @@ impl Semiring for ProbabilityWeight {
 
 impl ReverseBack<ProbabilityWeight> for ProbabilityWeight {
     fn reverse_back(&self) -> Result<ProbabilityWeight> {
-        unimplemented!()
+        Ok(*self)
     }
 }
 
-- 
2.43.0


From cc0f93c32a453227ee2273bc18cc7e29fec352df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:46 +0000
Subject: [PATCH 26/34] fix: tr_map with MapRequireSuperfinal deletes a final
 weight mapped to zero

A final weight that the mapper sends to (eps, eps, zero) has no transition to
the superfinal state, but its old final weight was left in place. weight_convert
removes it, and so does the documentation of MapRequireSuperfinal.
---
 rustfst/src/algorithms/tr_map.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/rustfst/src/algorithms/tr_map.rs b/rustfst/src/algorithms/tr_map.rs
index f4dd82b..92634d5 100644
--- a/rustfst/src/algorithms/tr_map.rs
+++ b/rustfst/src/algorithms/tr_map.rs
@@ -155,22 +155,26 @@ where
                     }
                 }
                 MapFinalAction::MapRequireSuperfinal => {
-                    if Some(state) != superfinal
-                        && (final_tr.ilabel != EPS_LABEL
+                    if Some(state) != superfinal {
+                        if final_tr.ilabel != EPS_LABEL
                             || final_tr.olabel != EPS_LABEL
-                            || !final_tr.weight.is_zero())
-                    {
+                            || !final_tr.weight.is_zero()
+                        {
+                            unsafe {
+                                // checked
+                                ifst.add_tr_unchecked(
+                                    state,
+                                    Tr::new(
+                                        final_tr.ilabel,
+                                        final_tr.olabel,
+                                        final_tr.weight,
+                                        superfinal.unwrap(),
+                                    ),
+                                );
+                            }
+                        }
                         unsafe {
                             // checked
-                            ifst.add_tr_unchecked(
-                                state,
-                                Tr::new(
-                                    final_tr.ilabel,
-                                    final_tr.olabel,
-                                    final_tr.weight,
-                                    superfinal.unwrap(),
-                                ),
-                            );
                             ifst.delete_final_weight_unchecked(state);
                         }
                     }
-- 
2.43.0


From 5f92062a431c16684756ea336252e5932ccacaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:46 +0000
Subject: [PATCH 27/34] fix: InvertWeightMapper leaves zero weights alone, as
 documented

---
 rustfst/src/algorithms/tr_mappers/invert_weight_mapper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/tr_mappers/invert_weight_mapper.rs b/rustfst/src/algorithms/tr_mappers/invert_weight_mapper.rs
index 000ff53..51c5d15 100644
--- a/rustfst/src/algorithms/tr_mappers/invert_weight_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/invert_weight_mapper.rs
@@ -10,7 +10,9 @@ pub struct InvertWeightMapper {}
 
 #[inline]
 pub fn map_weight<W: WeaklyDivisibleSemiring>(weight: &mut W) -> Result<()> {
-    weight.set_value(W::one().divide(weight, DivideType::DivideAny)?.take_value());
+    if !weight.is_zero() {
+        weight.set_value(W::one().divide(weight, DivideType::DivideAny)?.take_value());
+    }
     Ok(())
 }
 
-- 
2.43.0


From 7d3234e9fa10a7130716df62274f27b87c1c53f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:46 +0000
Subject: [PATCH 28/34] fix: SimpleWeightConverter keeps only the properties
 that do not depend on weights

The one of a semiring need not be the one of another with the same value type
(tropical 0.0, probability 1.0), so WEIGHTED and UNWEIGHTED do not carry over.
---
 .../src/algorithms/weight_converters/simple_weight_converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs b/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
index de59725..9aea5de 100644
--- a/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
+++ b/rustfst/src/algorithms/weight_converters/simple_weight_converter.rs
@@ -36,6 +36,6 @@ where
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        inprops
+        inprops & FstProperties::weight_invariant_properties()
     }
 }
-- 
2.43.0


From 99447ca3b59f00bd0e90def1574e5991dbe95399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:02 +0000
Subject: [PATCH 29/34] fix: lazy machines count the transitions of states that
 were not expanded yet

LazyFst and LazyFst2 answered num_trs, num_input_epsilons and num_output_epsilons
from the cache alone: for a state already named by a transition but not yet
expanded they reported that the state doesn't exist, and num_trs_unchecked was
undefined behaviour.
---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 13 ++++++++++++-
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 60b0778..bcc047b 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -61,13 +61,14 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
+        self.expand_known_state(s)?;
         self.cache
             .num_trs(s)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -90,12 +91,14 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_known_state(state)?;
         self.cache
             .num_input_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_known_state(state)?;
         self.cache
             .num_output_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
@@ -223,6 +226,14 @@ where
         }
     }
 
+    // The cache only holds the transitions of the states that were already expanded.
+    fn expand_known_state(&self, state: StateId) -> Result<()> {
+        if self.cache.num_trs(state).is_none() && (state as usize) < self.cache.num_known_states() {
+            self.get_trs(state)?;
+        }
+        Ok(())
+    }
+
     /// Turns the Lazy FST into a static one.
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 853f34e..711ab2b 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -56,13 +56,14 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
+        self.expand_known_state(s)?;
         self.cache
             .num_trs(s)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -86,12 +87,14 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_known_state(state)?;
         self.cache
             .num_input_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_known_state(state)?;
         self.cache
             .num_output_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
@@ -219,6 +222,14 @@ where
         }
     }
 
+    // The cache only holds the transitions of the states that were already expanded.
+    fn expand_known_state(&self, state: StateId) -> Result<()> {
+        if self.cache.num_trs(state).is_none() && (state as usize) < self.cache.num_known_states() {
+            self.get_trs(state)?;
+        }
+        Ok(())
+    }
+
     /// Turns the Lazy FST into a static one.
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
-- 
2.43.0


From ef6521f7c50e0857e7a793883cd3aeecfb44c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:31 +0000
Subject: [PATCH 30/34] fix: determinize: equal weighted subsets must give one
 state

---
 .../src/algorithms/determinize/determinize_fsa_op.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
index c137f1a..2f8a555 100644
--- a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
+++ b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
@@ -1,7 +1,6 @@
 use std::borrow::Borrow;
 use std::collections::btree_map::Entry as EntryBTreeMap;
-use std::collections::hash_map::Entry as EntryHashMap;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::BTreeMap;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::sync::Arc;
@@ -155,13 +154,14 @@ where
             det_tr.weight = CD::common_divisor(&det_tr.weight, &dest_elt.weight)?;
         }
 
-        let mut new_pairs = HashMap::new();
+        // Keep the elements ordered by state: equal subsets must give equal tuples.
+        let mut new_pairs = BTreeMap::new();
         for x in &mut det_tr.dest_tuple.subset.pairs {
             match new_pairs.entry(x.state) {
-                EntryHashMap::Vacant(e) => {
+                EntryBTreeMap::Vacant(e) => {
                     e.insert(x.clone());
                 }
-                EntryHashMap::Occupied(mut e) => {
+                EntryBTreeMap::Occupied(mut e) => {
                     e.get_mut().weight.plus_assign(&x.weight)?;
                 }
             };
-- 
2.43.0


From 4d4ce95729d259400e79a03c214574f66e34d3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:21 +0000
Subject: [PATCH 31/34] fix: factor_weight with different final labels does not
 give an acceptor

---
 rustfst/src/algorithms/factor_weight/factor_weight_op.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
index f6a7192..af9dd62 100644
--- a/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
+++ b/rustfst/src/algorithms/factor_weight/factor_weight_op.rs
@@ -144,7 +144,14 @@ where
             bail!("Factoring neither tr weights nor final weights");
         }
         let factor_tr_weights = opts.mode.contains(FactorWeightType::FACTOR_ARC_WEIGHTS);
-        let properties = factor_weight_properties(fst.borrow().properties());
+        let mut properties = factor_weight_properties(fst.borrow().properties());
+        if opts.mode.contains(FactorWeightType::FACTOR_FINAL_WEIGHTS)
+            && (opts.final_ilabel != opts.final_olabel
+                || opts.increment_final_ilabel != opts.increment_final_olabel)
+        {
+            // The transitions added for the final weights have two different labels.
+            properties &= !FstProperties::ACCEPTOR;
+        }
         Ok(Self {
             opts,
             fst,
-- 
2.43.0


From d0d8b5079e986e94777242318ae405fa102883b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:30 +0000
Subject: [PATCH 32/34] fix: rows of a text symbol table that do not parse are
 dropped silently

---
 rustfst/src/parsers/text_symt/nom_parser.rs       | 4 +++-
 rustfst/src/parsers/text_symt/parsed_text_symt.rs | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/parsers/text_symt/nom_parser.rs b/rustfst/src/parsers/text_symt/nom_parser.rs
index 6d73061..903bbfa 100644
--- a/rustfst/src/parsers/text_symt/nom_parser.rs
+++ b/rustfst/src/parsers/text_symt/nom_parser.rs
@@ -1,5 +1,7 @@
+use nom::branch::alt;
 use nom::bytes::complete::tag;
 use nom::character::complete::space1;
+use nom::combinator::eof;
 use nom::multi::many0;
 use nom::sequence::terminated;
 use nom::IResult;
@@ -16,7 +18,7 @@ fn row(i: &str) -> IResult<&str, (Symbol, Label)> {
 }
 
 fn vec_rows(i: &str) -> IResult<&str, Vec<(Symbol, Label)>> {
-    many0(terminated(row, tag("\n")))(i)
+    many0(terminated(row, alt((tag("\n"), eof))))(i)
 }
 
 pub(crate) fn parse_text_symt(i: &str) -> IResult<&str, ParsedTextSymt> {
diff --git a/rustfst/src/parsers/text_symt/parsed_text_symt.rs b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
index 73a8b5c..3958839 100644
--- a/rustfst/src/parsers/text_symt/parsed_text_symt.rs
+++ b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
@@ -13,8 +13,11 @@ pub(crate) struct ParsedTextSymt {
 
 impl ParsedTextSymt {
     pub(crate) fn from_string(symt_string: &str) -> Result<Self> {
-        let (_, parsed_symt) = parse_text_symt(symt_string)
+        let (rest, parsed_symt) = parse_text_symt(symt_string)
             .map_err(|_| format_err!("Error while parsing text symt"))?;
+        if !rest.trim().is_empty() {
+            bail!("Error while parsing text symt, unexpected : {:?}", rest);
+        }
         Ok(parsed_symt)
     }
 
-- 
2.43.0


From 2216b68246a06581330e0aa93e279df787154606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:31 +0000
Subject: [PATCH 33/34] fix: labels of a binary symbol table are truncated
 before they are compared

---
 rustfst/src/parsers/bin_symt/nom_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/parsers/bin_symt/nom_parser.rs b/rustfst/src/parsers/bin_symt/nom_parser.rs
index 9967655..0e6f4ad 100644
--- a/rustfst/src/parsers/bin_symt/nom_parser.rs
+++ b/rustfst/src/parsers/bin_symt/nom_parser.rs
@@ -7,7 +7,7 @@ use crate::parsers::bin_fst::fst_header::OpenFstString;
 use crate::parsers::nom_utils::NomCustomError;
 use crate::parsers::{parse_bin_i32, parse_bin_i64};
 use crate::parsers::{write_bin_i32, write_bin_i64};
-use crate::{Label, SymbolTable};
+use crate::SymbolTable;
 use anyhow::Result;
 use std::io::Write;
 
@@ -31,7 +31,7 @@ pub(crate) fn parse_symbol_table_bin(
     let mut symt = SymbolTable::empty();
     for (key, symbol) in pairs_idx_symbols.into_iter() {
         let inserted_label = symt.add_symbol(symbol);
-        if inserted_label != key as Label {
+        if inserted_label as i64 != key {
             return Err(nom::Err::Error(NomCustomError::SymbolTableError(
                 format!("SymbolTable must contain increasing labels with no hole. Expected : {} and Got : {}", inserted_label, key)
             )));
-- 
2.43.0


From eaca2c1820ae8166c4fd2d844dca06dda505cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:46 +0000
Subject: [PATCH 34/34] fix: rows of a text fst that do not parse are dropped
 silently

---
 rustfst/src/parsers/text_fst/parsed_text_fst.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/parsers/text_fst/parsed_text_fst.rs b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
index 4c88236..9af0fc6 100644
--- a/rustfst/src/parsers/text_fst/parsed_text_fst.rs
+++ b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
@@ -85,8 +85,11 @@ impl<W: SerializableSemiring> ParsedTextFst<W> {
     /// 3   0.67
     /// ```
     pub fn from_string(fst_string: &str) -> Result<Self> {
-        let (_, vec_rows_parsed) =
+        let (rest, vec_rows_parsed) =
             vec_rows_parsed(fst_string).map_err(|_| format_err!("Error while parsing text fst"))?;
+        if !rest.trim().is_empty() {
+            bail!("Error while parsing text fst, unexpected : {:?}", rest);
+        }
 
         Ok(Self::from_vec_rows_parsed(vec_rows_parsed))
     }
-- 
2.43.0

