"""The properties, in one place; meta/gen.py writes properties.jsonl and MANIFEST.json from here."""
S = "rustfst/src/"
PROPS = []
NA = {}


def P(id, title, statement, over, quant, why, files, mech, obs, note=""):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=[S + f for f in files],
                      mech=[(n, S + w) for n, w in mech], obs=obs, note=note))


P("C01", "VectorFst mutations have exactly their described effect",
  "After any sequence of mutations of a mutable FST (adding and deleting states and transitions, setting the start state and final weights, replacing transitions or editing them through the mutable iterator, in the checked and the unchecked forms), its states, start state, final weights, transition lists in order and per-state epsilon counts are exactly those the operations describe, and nothing else changed. An operation that names a state or transition that does not exist returns an error and leaves the machine as it was. Deleting states renumbers the remaining ones in order and removes exactly the transitions that led to a deleted state.",
  ["histories", "inputs"], "every history of mutations on machines of any size, every semiring, every label and state id",
  "unit tests run a few fixed call sequences; the representation keeps redundant epsilon counts, shared (Arc) transition vectors and renumbered ids whose consistency depends on the history",
  ["fst_impls/vector_fst/mutable_fst.rs", "fst_impls/vector_fst/fst.rs", "fst_impls/vector_fst/data_structure.rs", "fst_impls/vector_fst/expanded_fst.rs", "trs.rs", "trs_iter_mut.rs", "fst_traits/mutable_fst.rs"],
  [("MutableFst for VectorFst", "fst_impls/vector_fst/mutable_fst.rs"), ("CoreFst for VectorFst", "fst_impls/vector_fst/fst.rs"), ("TrsIterMut", "trs_iter_mut.rs"), ("TrsVec (Arc, copy on write)", "trs.rs")],
  ["the accessors start, final_weight, get_trs, num_trs, num_states, num_input_epsilons, num_output_epsilons"],
  "Proof of the accessors and mutators of VectorFst over an abstract machine for every input; sort_trs, unique_trs, sum_trs and the iterator adapters they use are covered by the bounded stand-in. Clone, Arc::make_mut and unchecked indexing carry assumed contracts (the in-bounds requirement is an obligation of the caller).")

P("C02", "Every property flag an FST asserts is true of it",
  "Whenever an FST reports a property flag (acceptor, deterministic, epsilon-free, sorted, weighted, acyclic, accessible, string, and their negations), that flag is true of its states and transitions. This holds after any history of mutations starting from a machine whose flags are true, for the result of every algorithm that sets flags, and for computed properties, which in addition decide every requested flag.",
  ["histories", "inputs"], "every history of mutations and algorithm calls, every machine, every combination of known flags of the inputs",
  "algorithms choose strategies from the flags (matchers, queues, shortcuts), so one wrong bit silently corrupts later results; tests compare properties on a handful of machines",
  ["fst_properties/mutate_properties.rs", "fst_properties/properties.rs", "fst_properties/compute_properties.rs", "fst_properties/utils.rs", "fst_impls/vector_fst/mutable_fst.rs", "trs_iter_mut.rs", "algorithms"],
  [("per-operation flag updates", "fst_properties/mutate_properties.rs"), ("compute_fst_properties", "fst_properties/compute_properties.rs"), ("flag masks", "fst_properties/properties.rs")],
  ["properties()", "compute_fst_properties", "compute_and_update_properties"],
  "Proof that the flag updates of the mutators keep every asserted flag true (flags given their meaning on the abstract machine, all machines); the flags set by whole algorithms and compute_fst_properties are covered by the bounded stand-in.")

P("C04", "Union, concatenation and closure compute the rational operations",
  "union, concat and closure (plus and star), in their static and lazy forms, produce a machine whose weighted relation is the union, concatenation or Kleene closure of the relations of the operands: every pair of strings gets exactly the semiring sum of the weights the operation defines. This includes operands with no states, no start state, no final state, a start state on a cycle, and zero weights. The operand that is only read is unchanged.",
  ["inputs"], "all pairs of machines over any semiring, of any size and shape",
  "tests compare a few machines with OpenFst; the operations have separate code paths for missing start states and initial cycles and renumber states",
  ["algorithms/union", "algorithms/concat", "algorithms/closure", "fst_properties/mutate_properties.rs"],
  [("union", "algorithms/union/union_static.rs"), ("concat", "algorithms/concat/concat_static.rs"), ("closure", "algorithms/closure/closure_static.rs")],
  ["the machine after the call: start, final weights, transitions in order"],
  "Proof, for every pair of machines, that the static forms build exactly the disjoint union of the two machines with the epsilon transitions of the textbook construction (and that the shortcut from an existing start state is only taken when it lies on no cycle). The lazy forms are covered by the bounded stand-in.")

P("C05", "Inversion, projection and reversal",
  "invert exchanges the input and output label of every transition, project copies the chosen label to the other side, and reverse turns every transition around, gives the reversed weight to each, and connects a new start state to the former final states; labels, weights, targets and order are otherwise kept. Hence the relation of the result is the inverse, the projection or the reversal of the original relation, for every machine.",
  ["inputs"], "all machines of any size over any semiring",
  "tests check a few machines; label swaps on shared transition vectors and the renumbering of reverse depend on every transition",
  ["algorithms/inversion.rs", "algorithms/projection.rs", "algorithms/reverse.rs", "trs_iter_mut.rs"],
  [("invert", "algorithms/inversion.rs"), ("project", "algorithms/projection.rs"), ("reverse", "algorithms/reverse.rs")],
  ["the machine after the call: start, final weights, transitions in order"],
  "Proof of the exact result of the three functions over the contracts of the FST traits.")

P("C11", "Shortest distance, shortest path and the queues that drive them",
  "shortest_distance gives every state the semiring sum of the weights of all paths from the start state to it (or, reversed, from it to the final states), all_pairs_shortest_distance does so for every pair, and shortest_path returns successful paths of the input that are the n best by weight (distinct strings when unique is asked for), in order; whatever queue discipline is chosen, and for machines with cycles, self-loops, epsilon transitions, no start or no final state. Every queue returns exactly the states that were put in and not yet taken out or cleared: none is lost, invented or returned twice, and each discipline takes them in its own order (first in first out, last in first out, lowest state, topological order, components in order).",
  ["inputs", "histories"], "all machines of any size, all queue disciplines, every history of queue operations",
  "the result depends on the interplay of relaxation order, re-enqueueing and early termination; tests compare a few machines with OpenFst and never exercise a queue after it was emptied or cleared",
  ["algorithms/shortest_distance.rs", "algorithms/shortest_path.rs", "algorithms/all_pairs_shortest_distance.rs", "algorithms/queues", "algorithms/queue.rs"],
  [("Queue implementations", "algorithms/queues"), ("ShortestDistanceState", "algorithms/shortest_distance.rs"), ("shortest_path", "algorithms/shortest_path.rs")],
  ["the distances and paths returned", "head, enqueue, dequeue, is_empty, clear of every queue"],
  "Proof, for every history, that the Fifo, Lifo, Trivial, StateOrder, TopOrder and Scc queues hold exactly the states enqueued and not dequeued and hand them out in their order; and, for every machine, filter, source and queue, that when ShortestDistanceState::shortest_distance returns, its distances are finite sums of path weights and solve the equations of the shortest distance, with the lemmas that in an idempotent semiring no path is better than such a solution and that on an acyclic machine there is only one (a right semiring; weights taken for approximately equal are assumed to be equal; that the loop ends is not claimed). shortest_path, the reversed and all pairs forms, AutoQueue and ShortestFirstQueue are covered by the bounded stand-in.")

P("C17", "Weight and label pushing keeps the weight of every string",
  "reweight with a potential and push (weights, labels, to the start or to the final states, with or without removing the total weight or the common affix) keep states, labels and structure as documented and preserve the weight of every successful path up to the removed total: the potentials cancel along each path. A pushed machine has the promised normal form (the sum over what leaves each state is one, or the corresponding condition on the final side).",
  ["inputs"], "all machines over the weakly left or right divisible semirings, all potentials",
  "potentials multiply and divide on a given side, so an error cancels on commutative weights or on machines without a start final weight; tests compare a few machines",
  ["algorithms/reweight.rs", "algorithms/push.rs", "algorithms/shortest_distance.rs"],
  [("reweight", "algorithms/reweight.rs"), ("push, push_weights", "algorithms/push.rs")],
  ["the machine after the call: start, final weights, transitions in order"],
  "Proof of the exact result of reweight for every machine, potential and direction, and of the lemma that the potentials telescope along every path. push itself (potentials by shortest distance, label pushing through Gallic weights) is covered by the bounded stand-in.")

P("C16", "VectorFst and ConstFst present the same machine",
  "Converting a VectorFst to a ConstFst, and converting either back with fst_convert or fst_convert_from_ref, yields a machine with the same states, start state, final weights, transitions in order, epsilon counts, symbol tables and only true property flags, including machines without a start state. Every accessor of a representation (checked, unchecked, and the iterators over states and transitions, borrowed or consuming) tells the same story about it, copies of a transition list hold exactly the transitions of their state, and an accessor given a state that does not exist returns an error. Two machines of the same representation are equal exactly when states, start, final weights and transitions are the same (symbol tables and flags do not count).",
  ["inputs"], "all machines of any size over any semiring",
  "a ConstFst stores all transitions in one array addressed by offset and length; an off-by-one shows only at particular states and through particular accessors",
  ["fst_impls/const_fst", "fst_impls/vector_fst", "trs.rs", "algorithms/fst_convert.rs"],
  [("ConstFst accessors", "fst_impls/const_fst/fst.rs"), ("From<VectorFst>", "fst_impls/const_fst/converters.rs"), ("TrsConst, TrsVec", "trs.rs"), ("fst_convert", "algorithms/fst_convert.rs")],
  ["every accessor and iterator of the two representations"],
  "Proof that every ConstFst accessor reports the abstract machine of its arrays and that the conversion from VectorFst produces exactly the machine converted; the iterators and fst_convert are covered by the bounded stand-in.")

P("C06", "Trimming, sorting and condensing states keep the machine",
  "connect keeps exactly the states that lie on a successful path (in their order, with every transition between them), so the weight of every string is unchanged. state_sort renames states by the given permutation and changes nothing else. top_sort of an acyclic machine is such a renaming after which every transition leads to a higher numbered state, and leaves a cyclic machine as it is. condense groups states by strongly connected component, numbered in topological order, keeping the transitions between components and the sum of the final weights. The depth-first visit behind them visits every state exactly once and reports a back transition exactly on a cycle.",
  ["inputs"], "all machines of any size and shape: cyclic, disconnected, with unreachable states, without a start state; all permutations",
  "results depend on the shape of the graph and the order of the visit; tests compare a few machines and check only that flags are set",
  ["algorithms/connect.rs", "algorithms/state_sort.rs", "algorithms/top_sort.rs", "algorithms/condense.rs", "algorithms/dfs_visit.rs", "algorithms/visitors"],
  [("dfs_visit", "algorithms/dfs_visit.rs"), ("state_sort", "algorithms/state_sort.rs"), ("TopOrderVisitor", "algorithms/top_sort.rs"), ("ConnectVisitor", "algorithms/connect.rs"), ("SccVisitor", "algorithms/visitors/scc_visitor.rs")],
  ["the machine after the call: start, final weights, transitions in order"],
  "Proof, for every machine, that dfs_visit finishes every state exactly once, orders it after the targets of its transitions unless a cycle exists and reports a back transition only on a cycle; that state_sort renames exactly; that top_sort yields a renaming in which every transition goes up exactly when the machine is acyclic; and that the flags kept stay true. connect and condense (their visitors) are covered by the bounded stand-in.")

P("C07", "Sorting, uniquing and summing transitions touch nothing else",
  "tr_sort leaves every state with exactly the same transitions, in the order of the chosen label, and keeps only flags that stay true. tr_unique leaves one of each group of identical transitions (labels, target and weight), losing no distinct transition and inventing none. tr_sum leaves one transition per labels and target with the semiring sum of the weights of the group. States, start state, final weights and epsilon counts stay right.",
  ["inputs"], "all machines of any size, any number of parallel transitions in any order, any semiring",
  "the in-place compaction depends on how equal transitions are interleaved; tests use one machine each",
  ["algorithms/tr_sort.rs", "algorithms/tr_unique.rs", "algorithms/tr_sum.rs", "fst_impls/vector_fst/mutable_fst.rs"],
  [("tr_sort", "algorithms/tr_sort.rs"), ("unique_trs_unchecked, sum_trs_unchecked", "fst_impls/vector_fst/mutable_fst.rs"), ("tr_compare", "algorithms/tr_unique.rs")],
  ["the transitions of every state after the call, epsilon counts, properties()"],
  "Proof of all of it for VectorFst, for every machine; the flags kept by tr_unique and tr_sum are covered by the bounded stand-in. slice::sort_by is assumed to permute and to order.")

P("C12", "A symbol table is a one-to-one correspondence",
  "After any history of additions (single symbols, several at once, whole tables) the labels of a symbol table are exactly 0..n in order of first addition, each symbol has exactly one label, adding a symbol that is present changes nothing and returns its label, and looking up the label of a symbol and the symbol of a label are inverse to each other; an absent label or symbol is reported as absent. Two tables are equal exactly when they give the same labels to the same symbols. Reading a table in text or binary form gives every label exactly the symbol stated, or an error, and a table written in either form and read back is equal to the original.",
  ["histories", "inputs"], "every history of operations on tables of any size, all symbols (spaces excluded in the text form)",
  "two redundant structures (a hash map and a vector) must agree after every history; tests add a handful of symbols",
  ["symbol_table.rs", "parsers/text_symt", "parsers/bin_symt"],
  [("BiHashMapString", "symbol_table.rs"), ("SymbolTable", "symbol_table.rs"), ("from_parsed_symt_text", "symbol_table.rs")],
  ["get_label, get_symbol, contains_*, len, iterators, write and read"],
  "Proof of the correspondence for every history of operations and for tables built from parsed text pairs; of the binary writer and parser, for every table, with the lemma that a table written is read back equal, and that whatever the parser accepts gives every label the symbol of its row. The iterators, the text form and equality are covered by the bounded stand-in. std::collections::HashMap (a map), the combinators of nom, io::Write and UTF-8 carry assumed contracts; a file is below 4 GB.")

P("C18", "Linear machines and the enumeration of paths",
  "acceptor, transducer and epsilon_machine build the machine that accepts exactly the given labels with the given weight, with true property flags. paths_iter yields exactly the successful paths of a machine, each once, with its non-epsilon input and output labels and the product of its weights, paths of fewer transitions first (so on a machine with cycles every path comes out eventually); string_paths_iter yields the same with the symbols. decode_linear_fst returns the one path of a machine with one path (the empty path if there is none) and an error if there are more, so it undoes acceptor and transducer. check_path_in_fst answers whether a machine with a start state has a path with these labels and this weight.",
  ["inputs"], "all machines of any size over any semiring, all label sequences, all paths",
  "tests decode a few linear machines; input and output positions advance separately and only transducers with epsilons on one side tell them apart",
  ["fst_traits/paths_iterator.rs", "fst_traits/string_paths_iterator.rs", "fst_path.rs", "string_path.rs", "utils"],
  [("PathsIterator::next", "fst_traits/paths_iterator.rs"), ("check_path_in_fst", "fst_path.rs"), ("acceptor, transducer", "utils/labels_to_fst.rs"), ("decode_linear_fst", "utils/fst_to_labels.rs")],
  ["the machine built; the paths yielded, in order; the answer of check_path_in_fst"],
  "Proof of the exact machines built and of their flags, that PathsIterator follows the breadth first enumeration with lemmas that this enumeration reaches every path and only paths, of decode_linear_fst over it, and that check_path_in_fst answers exactly (both directions, when it returns; it may not return on cyclic machines, as documented). String paths and final_states_iter are covered by the bounded stand-in.")

P("C03", "The weights are the semirings they say they are",
  "For every weight type (Boolean, Integer, Tropical, Log, Probability, Product, the three String weights, the five Gallic weights, Union): plus is associative and commutative with zero as neutral element, times is associative with one as neutral element, zero annihilates, and every flag the type asserts (left and right distributivity, commutativity, idempotence, path property) holds. plus and plus_assign, times and times_assign, divide and divide_assign agree. reverse_back undoes reverse and reverse exchanges the order of products and keeps sums. Division by a nonzero weight undoes the product on its side and a sum can be divided out of each of its terms. The closure satisfies a* = 1 + a a*. Restricted strings and the weights built on them have no sum (an error) for two different strings; Tropical, Log and Probability compare within KDELTA and their laws hold up to rounding of the floats; Integer as long as nothing overflows.",
  ["inputs"], "all weights of each type (floats: exact reals with infinity in the proof)",
  "an algebraic law quantifies over all triples of weights; tests evaluate a few hand picked pairs and every algorithm of the crate silently depends on the laws",
  ["semirings"],
  [("plus_assign, times_assign, properties", "semirings/string_weight.rs"), ("plus_common_prefix, plus_common_suffix", "semirings/string_weight.rs"), ("ProductWeight", "semirings/product_weight.rs"), ("GallicWeightLeft, GallicWeightRight", "semirings/gallic_weight.rs"), ("TropicalWeight", "semirings/tropical_weight.rs"), ("UnionWeight", "semirings/union_weight.rs")],
  ["the values returned by the operations of the weight types"],
  "Proof, for all weights, of the definitions of the operations, of the monoid laws and of every asserted flag for Boolean, StringWeightLeft, StringWeightRight, Product, GallicWeightLeft, GallicWeightRight and Tropical (floats taken as exact reals with infinity), of division and reversal of strings, and of the definitions for Integer short of overflow. Log, Probability, StringWeightRestrict, GallicWeightRestrict, GallicWeightMin, Union and GallicWeight are covered by the bounded stand-in.")

P("C14", "Mapping, encoding, relabelling and converting touch what they say",
  "tr_map and weight_convert on a machine with a start state keep its states and start state, replace every transition by what the mapper makes of it, in place and in order, and turn every final weight into what the mapper makes of it: a final weight, or, as the mapper's final action allows or requires, a transition to one added superfinal state of final weight one; an unallowed labelled final weight is an error. Each mapper of the crate does what it documents (labels to epsilon, weights removed, inverted where not zero, summed, multiplied, quantized). encode gives every distinct tuple (labels, weight, or both) its own label and equal tuples the same label, and decode restores a machine with the same weighted language. relabel_pairs replaces exactly the labels that have a pair and reports an ambiguous list as an error without changing anything. A conversion to a Gallic semiring and back is the identity. factor_weight keeps the paths, their labels and the product of their weights (a weight that factors in several ways becomes several paths with that sum), what it is asked to factor (transitions, final weights) has no further factor, and the transitions it adds for final weights carry the labels asked for. The flags kept are true.",
  ["inputs"], "all machines with any final weights, every mapper and final action, every encoding type, all lists of pairs",
  "which final weight needs a superfinal state depends on the mapped labels and weight of each state; tests compare a few machines",
  ["algorithms/tr_map.rs", "algorithms/tr_mappers", "algorithms/weight_convert.rs", "algorithms/weight_converters", "algorithms/encode", "algorithms/relabel_pairs.rs"],
  [("tr_map", "algorithms/tr_map.rs"), ("weight_convert", "algorithms/weight_convert.rs"), ("EncodeTableMut", "algorithms/encode/table.rs"), ("relabel_pairs", "algorithms/relabel_pairs.rs")],
  ["the machine after the call: start, final weights, transitions in order, properties()"],
  "Proof, for every machine and every mapper (a relation between what it is given and what it returns), of the exact result of tr_map and weight_convert for the three final actions, of six mappers (identity, epsilon input and output, plus, times, weight removal), of the one-to-one correspondence kept by the encoding table, and of the exact result of relabel_pairs. InvertWeightMapper, QuantizeMapper, the Gallic converters, the mappers of encode and decode (behind a RefCell) and the flags are covered by the bounded stand-in. HashMap carries an assumed contract.")

P("C08", "Epsilon removal keeps every weight",
  "rm_epsilon (in place and lazy) gives a machine with the same weight for every pair of strings and no transition with epsilon on both sides; every state keeps its non-epsilon transitions, gains those of the states it reaches by epsilons multiplied by the distance, and its final weight is the sum over those states. rm_final_epsilon and add_super_final_state (used by the pushing of labels and by minimization) keep the weight of every string; after add_super_final_state the only final state has weight one and no transitions.",
  ["inputs"], "all machines over the semirings that allow the closure: epsilon cycles, parallel epsilons, zero weights, no start state, no final state",
  "the epsilon closure of a state depends on every epsilon path, and a state met twice or a weight multiplied on the wrong side shows only on particular machines; tests compare a few machines with OpenFst",
  ["algorithms/rm_epsilon", "algorithms/rm_final_epsilon.rs", "algorithms/add_super_final_state.rs", "algorithms/tr_filters.rs"],
  [("RmEpsilonState::expand", "algorithms/rm_epsilon/rm_epsilon_state.rs"), ("rm_epsilon_with_internal_config", "algorithms/rm_epsilon/rm_epsilon_static.rs"), ("rm_final_epsilon", "algorithms/rm_final_epsilon.rs"), ("add_super_final_state", "algorithms/add_super_final_state.rs")],
  ["the machine after the call: start, final weights, transitions, the weight of every string"],
  "Proof, for every machine, that RmEpsilonState::expand visits exactly the epsilon-reachable states, each once, and returns exactly the grouped sums of distance times transition and of distance times final weight; of the exact result of add_super_final_state and of rm_final_epsilon before its final connect. The epsilon distance (shortest_distance), connect and the driver of rm_epsilon are assumed there and covered by the bounded stand-in.")

P("C15", "Lazy machines, their caches and state tables",
  "A state table is a one-to-one correspondence between the tuples met so far and the numbers 0, 1, 2, ... in order of first use; numbers never change. A cache returns for a state exactly what was last stored for it, whatever its implementation (vector, hash map, with a first-entry cache in front), and knows every state named so far. A lazy machine answers start, final_weight, get_trs, num_trs, num_input_epsilons and num_output_epsilons with what its operation computes, the same answer whatever the order of the questions, whichever cache is used, on first and later calls, and from several threads; compute() gives exactly the part of the operation's machine that is reachable from its start state, with the same state numbers, transitions in order, final weights and properties; a saved cache or state table reads back as it was.",
  ["inputs", "histories", "schedules"], "every operation, every cache, every order of questions; for compute every operation with finitely many states",
  "whether an answer comes from the cache or is computed depends on the history of questions; tests compute a lazy machine once, in one order",
  ["algorithms/lazy"],
  [("BiHashMap::get_id_or_insert", "algorithms/lazy/state_table.rs"), ("SimpleVecCache", "algorithms/lazy/cache/simple_vec_cache.rs"), ("SimpleHashMapCache", "algorithms/lazy/cache/simple_hash_map_cache.rs"), ("FirstCache", "algorithms/lazy/cache/first_cache.rs"), ("LazyFst::compute, get_trs, num_trs", "algorithms/lazy/lazy_fst.rs"), ("LazyFst2", "algorithms/lazy/lazy_fst_2.rs")],
  ["the answers of the lazy machine, the numbers of the state table, the content of the cache"],
  "Proof, for every operation, cache and history of questions, of the state table's correspondence, of the three caches against one contract, of the accessors of LazyFst and LazyFst2 and of compute (exactly the reachable part). A Mutex is taken as exclusive access (the methods hold the lock while they read and write), HashMap and HashSet carry an assumed contract, an operation is assumed to compute the same machine each time. Interleavings of threads, iterators and saving to disk are covered by the bounded stand-in.")

P("C19", "Replacement expands every call",
  "replace (static and lazy) gives the machine whose states are configurations (stack of calls, machine, state): a transition whose output label is a nonterminal with a non-empty machine becomes a call to the start state of that machine with the return state pushed on the stack, a final state under a call returns, with its final weight, to the state on top of the stack, every other transition is kept; a configuration is final exactly when the stack is empty and the state is final, with its weight. The labels of calls and returns are as the options ask. So every string has the weight of the infinite grammar expansion. A root label without a machine is an error.",
  ["inputs"], "every list of labelled machines (recursive ones as long as the expansion is finite), every root, every label option",
  "the result depends on the whole stack of calls; tests compare a few networks with OpenFst",
  ["algorithms/replace"],
  [("ReplaceFstOp::compute_tr, compute_final_tr, compute_trs", "algorithms/replace/replace_fst_op.rs"), ("ReplaceStackPrefix", "algorithms/replace/state_table.rs"), ("epsilon_on_input, epsilon_on_output", "algorithms/replace/utils.rs")],
  ["the machine computed: start, transitions of every reachable configuration, final weights"],
  "Proof, for every list of machines and every configuration, that compute_start, compute_trs and compute_final_weight give exactly the start, the transitions (in order) and the final weight of the configuration, and that configurations keep their numbers. The flags and the constructor are covered by the bounded stand-in.")

P("C09", "Composition relates exactly the strings both machines relate",
  "The composition of two machines (one of them sorted on the matched side) gives a pair of strings the sum, over all middle strings, of the weight of the left machine times the weight of the right one; with the default, sequence, alternating-sequence and match filters every pair of successful paths that agree on the middle string becomes exactly one path, whichever side is matched, and other pairs become none, so the weights are right in non-idempotent semirings too. Matching a label at a state yields exactly its transitions with that label (for epsilon also the implicit self-loop), and a state of the result is final when both its parts are, with the product of their weights. The filters that keep redundant paths give the same result in idempotent semirings, the filter without epsilons composes the machines with epsilon as an ordinary label, lazy and lookahead composition agree with the static one, and machines that are not sorted are an error.",
  ["inputs"], "all pairs of machines over any commutative semiring, every filter and matcher, whichever side is sorted",
  "which epsilon interleaving survives depends on the epsilons and the finality of both states at every step; tests compare a few machines with OpenFst, mostly in the tropical semiring where a doubled path goes unnoticed",
  ["algorithms/compose"],
  [("ComposeFstOp::compute_trs, ordered_expand, match_tr_selected, add_tr, compute_final_weight", "algorithms/compose/compose_fst_op.rs"), ("SequenceComposeFilter", "algorithms/compose/compose_filters/sequence_compose_filter.rs"), ("AltSequenceComposeFilter", "algorithms/compose/compose_filters/alt_sequence_compose_filter.rs"), ("MatchComposeFilter", "algorithms/compose/compose_filters/match_compose_filter.rs"), ("IteratorSortedMatcher", "algorithms/compose/matchers/sorted_matcher.rs")],
  ["the machine computed: start, transitions of every reachable state, final weights, the weight of every pair of strings"],
  "Proof, for all machines, that the sorted matcher yields exactly the matching transitions, that the sequence, alternating and match filters follow three step functions, that the operator's start, transitions (exactly the moves the filter lets through, whichever side is matched) and final weights are those of the product, and that under the three step functions every pair of successful paths that agree is walked in exactly one way. Lookahead, sigma and multi-epsilon matchers, the trivial, null and no-match filters, the constructor and the flags are covered by the bounded stand-in. Borrow is dropped, a Mutex is taken as exclusive access, superslice's lower_bound_by and derived equality carry assumed contracts.")
P("C10", "Determinization and minimization keep the weight of every string",
  "Determinizing an acceptor gives a machine in which no state has two transitions with the same label and in which every label sequence has the weight it had in the input, summed over all its paths; there is one state per distinct weighted subset, so equal subsets are never duplicated. For transducers the functional mode keeps the relation, the non-functional mode keeps it up to epsilon transitions that emit what is left over, and the disambiguating mode keeps one best output per input. Minimization keeps the weight of every string (also of nondeterministic acceptors and of transducers when allowed to) and leaves a deterministic acceptor with the least possible number of states; the optimization that combines these with epsilon removal and label encoding keeps the relation too.",
  ["inputs"], "all machines on which the construction terminates (acyclic or unweighted ones always), every mode",
  "the subsets met and their residual weights depend on the whole machine, and a wrong residual only shows on a continuation several labels later; tests compare a few machines with OpenFst",
  ["algorithms/determinize", "algorithms/minimize.rs", "algorithms/partition.rs", "algorithms/optimize.rs"],
  [("DeterminizeFsaOp::compute_start, compute_trs, norm_tr, compute_final_weight, find_state", "algorithms/determinize/determinize_fsa_op.rs"), ("DeterminizeStateTable::find_id_from_ref, find_tuple", "algorithms/determinize/state_table.rs"), ("DefaultCommonDivisor::common_divisor", "algorithms/determinize/divisors.rs")],
  ["the machine computed: labels leaving each state, number of states, the weight of every string"],
  "Proof, for all machines, that the subset construction computes exactly one transition per label that leaves the subset, with the common divisor as weight and the grouped residuals as destination, that equal subsets share one state, that final weights are the weighted sums, and, over the semiring laws and exact division, that every run has the summed weight of its label sequence. The gallic modes, minimization and the flags are covered by the bounded stand-in. Borrow is dropped, a Mutex is taken as exclusive access; BTreeMap, sort_by, bimap's BiHashMap carry assumed contracts.")

P("C13", "A machine read back from its binary or text form is the machine that was written",
  "What store (write) produces for a vector or constant machine, load (read) turns back into a machine with the same start state, the same states, the same transitions in the same order, the same final weights (a zero final weight and none are the same), the same symbol tables and the same properties, whatever bytes follow; the epsilon counts kept with a state are right in what is read. A machine whose start state is the first row of its text form reads back from the text with the same start state and every state's transitions and final weight; in a text each row that names a state makes it exist, a missing weight is one, rows may come in any order but the first, and a text with a row that is none of these is an error.",
  ["inputs"], "every vector and constant machine, every weight type with a binary or text form, with and without symbol tables, every list of rows; sizes the format's 32-bit fields can hold",
  "each field has to be read where and how it was written, for every number of states, transitions and symbol tables; tests store and load a few machines",
  ["fst_impls/vector_fst/serializable_fst.rs", "fst_impls/const_fst/serializable_fst.rs", "parsers", "fst_traits/serializable_fst.rs"],
  [("VectorFst::store, load, parse_vector_fst_state, from_parsed_fst_text", "fst_impls/vector_fst/serializable_fst.rs"), ("ConstFst::store, load, parse_const_fst", "fst_impls/const_fst/serializable_fst.rs"), ("FstHeader::write, parse", "parsers/bin_fst/fst_header.rs"), ("write_bin_fst_tr", "parsers/bin_fst/utils_serialization.rs"), ("parse_bin_fst_tr", "parsers/bin_fst/utils_parsing.rs"), ("ParsedTextFst::from_vec_rows_parsed, num_states", "parsers/text_fst/parsed_text_fst.rs")],
  ["the machine read back: start, states, transitions in order, final weights, symbol tables, properties"],
  "Proof, for every machine, that the bytes store writes (header, states, transitions) are read back by load as the same machine, for VectorFst and ConstFst, and of the machine built from every list of text rows. The bytes of one number, string, symbol table and weight are assumed to read back (nom, to_le_bytes, UTF-8); nom's count, verify and take are taken as the loop, test and split they are. The grammar of text rows, printing, files, symbol tables and the weight types' own forms are covered by the bounded stand-in.")
