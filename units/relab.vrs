//@use label
//@use hmap
verus! {
// ---- C14: relabelling by pairs
pub type HashMapL = HMap<StateId, StateId>;
pub open spec fn keys_once(p: Seq<(StateId, StateId)>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).0 != (#[trigger] p[j]).0 }
// the map given by the pairs
pub open spec fn is_map(m: Map<StateId, StateId>, p: Seq<(StateId, StateId)>) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> m.dom().contains((#[trigger] p[i]).0) && m[p[i].0] == p[i].1
    &&& forall|k: StateId| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k
}
//@fn algorithms/relabel_pairs.rs :: iterator_to_hashmap
    ensures r is Ok <==> keys_once(pairs@), r is Ok ==> is_map(r->Ok_0.m(), pairs@),
@sub `< I >` => ``
@sub `pairs : I` => `pairs : Vec < ( StateId , StateId ) >`
@sub `Result < HashMap < StateId , StateId > >` => `Result < HashMapL >`
@sub `where I : IntoIterator < Item = ( StateId , StateId ) > ,` => ``
@sub `HashMap :: new ( )` => `HashMapL :: new ( )`
@sub `Entry ::` => `HEntry ::` #all
@sub `for ( s1 , s2 ) in pairs` => `for p12 in pairs`
@loop 0 it=kt
    invariant kt.seq() == pairs@, keys_once(pairs@.take(kt.index@)), is_map(map_labels.m(), pairs@.take(kt.index@)),
@loop_start 0
let ghost m0 = map_labels.m(); let ghost k = kt.index@; let (s1, s2) = p12; proof { assert(pairs@[k] == p12); assert(pairs@.take(k + 1) =~= pairs@.take(k).push(p12)); assert(pairs@.take(k + 1)[k] == p12); assert forall|i: int| 0 <= i < k implies #[trigger] pairs@.take(k)[i] == pairs@[i] by { }
 if keys_once(pairs@) && m0.dom().contains(s1) { let i = choose|i: int| 0 <= i < k && (#[trigger] pairs@.take(k)[i]).0 == s1; assert(pairs@[i].0 == s1); assert(false); }
 if m0.dom().contains(s1) { assert(!keys_once(pairs@)); } }
@loop_end 0
proof {
    let t = pairs@.take(k + 1); assert(t =~= pairs@.take(k).push((s1, s2))); let m = map_labels.m(); assert(m == m0.insert(s1, s2));
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(t[i] == pairs@.take(k)[i]); assert(m0.dom().contains(t[i].0)); if j < k { assert(t[j] == pairs@.take(k)[j]); } }
    assert forall|i: int| 0 <= i < t.len() implies m.dom().contains((#[trigger] t[i]).0) && m[t[i].0] == t[i].1 by { if i < k { assert(t[i] == pairs@.take(k)[i]); } }
    assert forall|x: StateId| #[trigger] m.dom().contains(x) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == x by { if x == s1 { assert(t[k].0 == x); } else { assert(m0.dom().contains(x)); let i = choose|i: int| 0 <= i < k && (#[trigger] pairs@.take(k)[i]).0 == x; assert(t[i].0 == x); } }
}
@after_loop 0
proof { assert(pairs@.take(pairs@.len() as int) =~= pairs@); }
//@end
pub open spec fn look(m: Map<StateId, StateId>, l: Label) -> Label { if m.dom().contains(l) { m[l] } else { l } }
pub open spec fn t_rel<W>(a: Map<StateId, StateId>, b: Map<StateId, StateId>, t: Tr<W>) -> Tr<W> { Tr { ilabel: look(a, t.ilabel), olabel: look(b, t.olabel), ..t } }
// Every input label with a pair becomes the pair's second component, every other label stays; the same on the
// output side with the output pairs; nothing else of the machine changes; a key given twice is an error that
// changes nothing.
//@fn algorithms/relabel_pairs.rs :: relabel_pairs rlimit=60
    requires old(fst).inv(),
    ensures final(fst).inv(), r is Ok <==> keys_once(ipairs@) && keys_once(opairs@), r is Err ==> final(fst).v() == old(fst).v(),
        r is Ok ==> exists|a: Map<StateId, StateId>, b: Map<StateId, StateId>| #[trigger] is_map(a, ipairs@) && #[trigger] is_map(b, opairs@) && final(fst).v() == v_map(old(fst).v(), |t: Tr<W>| t_rel(a, b, t)),
@sub `< W , F , I , J >` => `< W , F >`
@sub `I : IntoIterator < Item = ( StateId , StateId ) > ,` => ``
@sub `J : IntoIterator < Item = ( StateId , StateId ) > ,` => ``
@sub `ipairs : I` => `ipairs : Vec < ( StateId , StateId ) >`
@sub `opairs : J` => `opairs : Vec < ( StateId , StateId ) >`
@start
proof { fst.inv_len(); }
@before_loop 0
let ghost a = map_ilabels.m(); let ghost b = map_olabels.m();
@loop 0
    invariant fst.inv(), a == map_ilabels.m(), b == map_olabels.m(), is_map(a, ipairs@), is_map(b, opairs@), part_map(old(fst).v(), fst.v(), |t: Tr<W>| t_rel(a, b, t), state_id as int), state_id <= old(fst).v().n(), old(fst).v().n() == old(fst).v().trs.len(), fst.v().n() == old(fst).v().n(),
@loop_start 0
let ghost v1 = fst.v();
@before_loop 1
let ghost it0 = it_tr;
@loop 1 it=jt
    invariant a == map_ilabels.m(), b == map_olabels.m(), jt.snapshot@.end == v1.trs[state_id as int].len(), it_tr.ok(), part_seq(v1.trs[state_id as int], it_tr.tv(), |t: Tr<W>| t_rel(a, b, t), idx_tr as int), same_target(it0, it_tr),
@loop_start 1
let ghost tv1 = it_tr.tv();
@loop_end 1
proof { assert(it_tr.tv() =~= tv1.update(idx_tr as int, t_rel(a, b, tv1[idx_tr as int]))); }
@loop_end 0
proof { assert(fst.v().trs[state_id as int] =~= v_map(old(fst).v(), |t: Tr<W>| t_rel(a, b, t)).trs[state_id as int]); }
@after_loop 0
proof { part_done(old(fst).v(), fst.v(), |t: Tr<W>| t_rel(a, b, t)); }
//@end
}
