//@use vector
verus! {
// ---- C07: sorting, uniquing and summing transitions
// le is the order that the comparison f computes
pub open spec fn ord_of<W, F: Fn(&Tr<W>, &Tr<W>) -> Ordering>(f: F, le: spec_fn(Tr<W>, Tr<W>) -> bool) -> bool {
    &&& forall|a: &Tr<W>, b: &Tr<W>, o: Ordering| #[trigger] call_ensures(f, (a, b), o) ==> (o != Ordering::Greater <==> le(*a, *b))
    &&& total(le)
}
pub open spec fn total<W>(le: spec_fn(Tr<W>, Tr<W>) -> bool) -> bool {
    &&& forall|a: Tr<W>, b: Tr<W>| #[trigger] le(a, b) || le(b, a)
    &&& forall|a: Tr<W>, b: Tr<W>, c: Tr<W>| #[trigger] le(a, b) && #[trigger] le(b, c) ==> le(a, c)
}
pub open spec fn sorted<W>(t: Seq<Tr<W>>, le: spec_fn(Tr<W>, Tr<W>) -> bool) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> le(#[trigger] t[i], #[trigger] t[j]) }
pub open spec fn same_elems<W>(a: Seq<Tr<W>>, b: Seq<Tr<W>>) -> bool { a.to_multiset() == b.to_multiset() }
// slice::sort_by: a permutation, in order when the comparison is an order
pub trait VSort<W> { spec fn oseq(&self) -> Seq<Tr<W>>; fn vsort_by<F: Fn(&Tr<W>, &Tr<W>) -> Ordering>(&mut self, f: F) requires forall|a: &Tr<W>, b: &Tr<W>| #[trigger] call_requires(f, (a, b)) ensures same_elems(final(self).oseq(), old(self).oseq()), forall|le: spec_fn(Tr<W>, Tr<W>) -> bool| #[trigger] ord_of(f, le) ==> sorted(final(self).oseq(), le); }
impl<W> VSort<W> for Vec<Tr<W>> { open spec fn oseq(&self) -> Seq<Tr<W>> { self@ } #[verifier::external_body] fn vsort_by<F: Fn(&Tr<W>, &Tr<W>) -> Ordering>(&mut self, f: F) { self.sort_by(f) } }
pub trait VSwap<T> { spec fn wseq(&self) -> Seq<T>; fn vswap(&mut self, a: usize, b: usize) requires a < old(self).wseq().len(), b < old(self).wseq().len() ensures final(self).wseq() == old(self).wseq().update(a as int, old(self).wseq()[b as int]).update(b as int, old(self).wseq()[a as int]); }
impl<T> VSwap<T> for Vec<T> { open spec fn wseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vswap(&mut self, a: usize, b: usize) { self.swap(a, b) } }
// the order of tr_compare: input label, output label, target
pub open spec fn key_le<W>(a: Tr<W>, b: Tr<W>) -> bool { a.ilabel < b.ilabel || (a.ilabel == b.ilabel && (a.olabel < b.olabel || (a.olabel == b.olabel && a.nextstate <= b.nextstate))) }
pub open spec fn same_key<W>(a: Tr<W>, b: Tr<W>) -> bool { a.ilabel == b.ilabel && a.olabel == b.olabel && a.nextstate == b.nextstate }
//@fn algorithms/tr_unique.rs :: tr_compare
    ensures r != Ordering::Greater <==> key_le(*tr_1, *tr_2), r == Ordering::Equal <==> same_key(*tr_1, *tr_2),
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: equal_tr
    ensures r == same_key(*tr_1, *tr_2),
//@end
pub trait TrCompare: Sized {
    spec fn le<W>(a: Tr<W>, b: Tr<W>) -> bool;
    // it is the order of one label: the side it sorts
    spec fn is_label_order() -> bool;
    proof fn le_is<W>() requires Self::is_label_order() ensures forall|a: Tr<W>, b: Tr<W>| #[trigger] Self::le(a, b) <==> (if Self::input() { a.ilabel <= b.ilabel } else { a.olabel <= b.olabel });
    spec fn input() -> bool;
    fn compare<W: Semiring>(a: &Tr<W>, b: &Tr<W>) -> (r: Ordering) ensures r != Ordering::Greater <==> Self::le(*a, *b);
    fn properties(inprops: FstProperties) -> (r: FstProperties) ensures r_sort(inprops, r, Self::input());
}
pub open spec fn r_sort(a: FstProperties, b: FstProperties, input: bool) -> bool {
    forall|i: int| #[trigger] b.has(i) ==> (a.has(i) && ok_arcsort(i)) || (i == B_I_LABEL_SORTED && (input || a.has(B_ACCEPTOR))) || (i == B_O_LABEL_SORTED && (!input || a.has(B_ACCEPTOR)))
}
//@type algorithms/tr_sort.rs :: struct ILabelCompare
impl TrCompare for ILabelCompare {
    open spec fn le<W>(a: Tr<W>, b: Tr<W>) -> bool { a.ilabel <= b.ilabel }
    open spec fn input() -> bool { true }
    open spec fn is_label_order() -> bool { true }
    proof fn le_is<W>() { }
//@fn algorithms/tr_sort.rs :: TrCompare for ILabelCompare :: compare
//@end
//@fn algorithms/tr_sort.rs :: TrCompare for ILabelCompare :: properties
@start
broadcast use group_bits;
//@end
}
//@type algorithms/tr_sort.rs :: struct OLabelCompare
impl TrCompare for OLabelCompare {
    open spec fn le<W>(a: Tr<W>, b: Tr<W>) -> bool { a.olabel <= b.olabel }
    open spec fn input() -> bool { false }
    open spec fn is_label_order() -> bool { true }
    proof fn le_is<W>() { }
//@fn algorithms/tr_sort.rs :: TrCompare for OLabelCompare :: compare
//@end
//@fn algorithms/tr_sort.rs :: TrCompare for OLabelCompare :: properties
@start
broadcast use group_bits;
//@end
}
// ---- counts depend on the elements only
pub proof fn cnt_perm<W>(a: Seq<Tr<W>>, b: Seq<Tr<W>>) requires same_elems(a, b) ensures a.len() == b.len(), cnt_i(a) == cnt_i(b), cnt_o(a) == cnt_o(b) decreases a.len()
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    if a.len() > 0 {
        let x = a.last();
        assert(a.to_multiset().count(x) > 0) by { assert(a.contains(a[a.len() - 1])); }
        assert(b.contains(x));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        assert(a.drop_last() =~= a.remove(a.len() - 1));
        assert(same_elems(a.drop_last(), b.remove(j)));
        cnt_perm(a.drop_last(), b.remove(j)); cnt_remove(b, j);
    }
}
pub trait SortFst<W: Semiring>: MutableFst<W> {
    fn sort_trs_unchecked<F: Fn(&Tr<W>, &Tr<W>) -> Ordering>(&mut self, state: StateId, f: F)
        requires old(self).inv(), state < old(self).v().n(), forall|a: &Tr<W>, b: &Tr<W>| #[trigger] call_requires(f, (a, b)),
        ensures final(self).inv(), final(self).p() == old(self).p(), final(self).v() == v_set_trs(old(self).v(), state, final(self).v().trs[state as int]), same_elems(final(self).v().trs[state as int], old(self).v().trs[state as int]),
            forall|le: spec_fn(Tr<W>, Tr<W>) -> bool| #[trigger] ord_of(f, le) ==> sorted(final(self).v().trs[state as int], le);
    fn unique_trs_unchecked(&mut self, state: StateId)
        requires old(self).inv(), state < old(self).v().n(),
        ensures final(self).inv(), final(self).p() == old(self).p(), final(self).v() == v_set_trs(old(self).v(), state, final(self).v().trs[state as int]), is_uniq(old(self).v().trs[state as int], final(self).v().trs[state as int]);
    fn sum_trs_unchecked(&mut self, state: StateId)
        requires old(self).inv(), state < old(self).v().n(),
        ensures final(self).inv(), final(self).p() == old(self).p(), final(self).v() == v_set_trs(old(self).v(), state, final(self).v().trs[state as int]), is_sum(old(self).v().trs[state as int], final(self).v().trs[state as int]);
}
// the transitions of a list in key order with neighbours of the same key added up, in order
pub open spec fn merge<W: Semiring>(t: Seq<Tr<W>>) -> Seq<Tr<W>> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else {
        let m = merge(t.drop_last()); let x = t.last();
        if m.len() > 0 && same_key(x, m.last()) { m.update(m.len() - 1, Tr { weight: m.last().weight.splus(x.weight), ..m.last() }) } else { m.push(x) }
    }
}
pub open spec fn is_sum<W: Semiring>(t: Seq<Tr<W>>, u: Seq<Tr<W>>) -> bool { exists|ts: Seq<Tr<W>>| same_elems(ts, t) && sorted(ts, key_ord::<W>()) && u == #[trigger] merge(ts) }
// no two transitions of a merged list have the same key; every key comes from the list, and every key of the list is there
pub proof fn merge_keys<W: Semiring>(t: Seq<Tr<W>>) requires sorted(t, key_ord::<W>())
    ensures merge(t).len() <= t.len(), t.len() > 0 ==> merge(t).len() > 0 && same_key(merge(t).last(), t.last()),
        forall|j: int, k: int| 0 <= j < k < merge(t).len() ==> key_le(#[trigger] merge(t)[j], #[trigger] merge(t)[k]) && !same_key(merge(t)[j], merge(t)[k]),
        cnt_i(merge(t)) <= cnt_i(t), cnt_o(merge(t)) <= cnt_o(t),
    decreases t.len()
{
    if t.len() > 0 {
        let b = t.drop_last(); let x = t.last(); let m = merge(b); let u = merge(t);
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies key_ord::<W>()(#[trigger] b[i], #[trigger] b[j]) by { assert(key_ord::<W>()(t[i], t[j])); }
        merge_keys(b);
        if b.len() > 0 { assert(key_ord::<W>()(t[t.len() - 2], t[t.len() - 1])); assert(key_le(b.last(), x)); assert(key_le(m.last(), x)); }
        if m.len() > 0 && same_key(x, m.last()) { cnt_upd(m, u); } else { cnt_push(m, x);
            assert forall|j: int, k: int| 0 <= j < k < u.len() implies key_le(#[trigger] u[j], #[trigger] u[k]) && !same_key(u[j], u[k]) by { if k < m.len() { assert(key_le(m[j], m[k])); } else if j < m.len() - 1 { assert(key_le(m[j], m[m.len() - 1])); } } }
    }
}
pub proof fn cnt_upd<W>(m: Seq<Tr<W>>, u: Seq<Tr<W>>) requires m.len() == u.len(), m.len() > 0, u.drop_last() == m.drop_last() || u.drop_last() =~= m.drop_last(), same_key(u.last(), m.last()) ensures cnt_i(u) == cnt_i(m), cnt_o(u) == cnt_o(m) { assert(u.drop_last() =~= m.drop_last()); }
pub proof fn cnt_take<W>(t: Seq<Tr<W>>, i: int) requires 0 <= i <= t.len() ensures cnt_i(t.take(i)) <= cnt_i(t), cnt_o(t.take(i)) <= cnt_o(t) decreases t.len() { if i == t.len() { assert(t.take(i) =~= t); } else { cnt_take(t.drop_last(), i); assert(t.drop_last().take(i) =~= t.take(i)); } }
// trs[i].weight is added to trs[k].weight
#[verifier::external_body]
pub fn plus_at<W: Semiring>(v: &mut Vec<Tr<W>>, k: usize, i: usize) requires k < i < old(v)@.len() ensures final(v)@ == old(v)@.update(k as int, Tr { weight: old(v)@[k as int].weight.splus(old(v)@[i as int].weight), ..old(v)@[k as int] }) { unimplemented!() }
#[verifier::external_body]
pub fn weq<W: Semiring>(a: &W, b: &W) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub open spec fn key_ord<W>() -> spec_fn(Tr<W>, Tr<W>) -> bool { |a: Tr<W>, b: Tr<W>| key_le(a, b) }
pub proof fn key_total<W>() ensures total(key_ord::<W>()) { let le = key_ord::<W>(); assert forall|a: Tr<W>, b: Tr<W>| #[trigger] le(a, b) || le(b, a) by { } assert forall|a: Tr<W>, b: Tr<W>, c: Tr<W>| #[trigger] le(a, b) && #[trigger] le(b, c) implies le(a, c) by { } }
pub proof fn cnt_none<W>(a: Seq<Tr<W>>) ensures cnt_i(a) == 0 <==> (forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).ilabel != EPS_LABEL), cnt_o(a) == 0 <==> (forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).olabel != EPS_LABEL) decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last(); cnt_none(b); let z = a.last();
        assert(forall|k: int| 0 <= k < b.len() ==> b[k] == a[k]);
        if cnt_i(a) == 0 { assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).ilabel != EPS_LABEL by { if k < b.len() { assert(b[k].ilabel != EPS_LABEL); } } }
        if cnt_o(a) == 0 { assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]).olabel != EPS_LABEL by { if k < b.len() { assert(b[k].olabel != EPS_LABEL); } } }
        if forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).ilabel != EPS_LABEL { assert(a[a.len() - 1].ilabel != EPS_LABEL); assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).ilabel != EPS_LABEL by { assert(a[k].ilabel != EPS_LABEL); } }
        if forall|k: int| 0 <= k < a.len() ==> (#[trigger] a[k]).olabel != EPS_LABEL { assert(a[a.len() - 1].olabel != EPS_LABEL); assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).olabel != EPS_LABEL by { assert(a[k].olabel != EPS_LABEL); } }
    }
}
// u holds the elements of t, each once, by key
pub open spec fn is_uniq<W>(t: Seq<Tr<W>>, u: Seq<Tr<W>>) -> bool { u.no_duplicates() && sorted(u, key_ord::<W>()) && (forall|k: int| 0 <= k < u.len() ==> t.contains(#[trigger] u[k])) && forall|k: int| 0 <= k < t.len() ==> u.contains(#[trigger] t[k]) }
pub proof fn uniq_step<W>(ts: Seq<Tr<W>>, u: Seq<Tr<W>>, i: int)
    requires 0 <= i < ts.len(), sorted(ts, key_ord::<W>()), is_uniq(ts.take(i), u), forall|k: int| 0 <= k < u.len() ==> key_le(#[trigger] u[k], ts[i])
    ensures u.contains(ts[i]) ==> is_uniq(ts.take(i).push(ts[i]), u), !u.contains(ts[i]) ==> is_uniq(ts.take(i).push(ts[i]), u.push(ts[i]))
{
    let t = ts.take(i); let x = ts[i]; let t1 = t.push(x); let u1 = u.push(x); let le = key_ord::<W>();
    assert forall|k: int| 0 <= k < u.len() implies t1.contains(#[trigger] u[k]) by { assert(t.contains(u[k])); let m = choose|m: int| 0 <= m < t.len() && t[m] == u[k]; assert(t1[m] == u[k]); }
    assert forall|k: int| 0 <= k < t.len() implies u.contains(#[trigger] t1[k]) by { assert(u.contains(t[k])); }
    assert(t1[t.len() as int] == x);
    if u.contains(x) { assert forall|k: int| 0 <= k < t1.len() implies u.contains(#[trigger] t1[k]) by { } }
    else {
        assert forall|k: int| 0 <= k < u1.len() implies t1.contains(#[trigger] u1[k]) by { if k < u.len() { assert(t1.contains(u[k])); } else { assert(t1[t.len() as int] == x); } }
        assert forall|k: int| 0 <= k < t1.len() implies u1.contains(#[trigger] t1[k]) by { if k < t.len() { let m = choose|m: int| 0 <= m < u.len() && u[m] == t1[k]; assert(u1[m] == t1[k]); } else { assert(u1[u.len() as int] == x); } }
        assert forall|a: int, b: int| 0 <= a < b < u1.len() implies le(#[trigger] u1[a], #[trigger] u1[b]) by { if b < u.len() { assert(le(u[a], u[b])); } else { assert(key_le(u[a], x)); } }
        assert(u1.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < b < u1.len() implies u1[a] != u1[b] by { if b == u.len() { assert(u[a] != x) by { if u[a] == x { assert(u.contains(x)); } } } } }
    }
}
pub proof fn uniq_same<W>(a: Seq<Tr<W>>, b: Seq<Tr<W>>, u: Seq<Tr<W>>) requires same_elems(b, a), is_uniq(b, u) ensures is_uniq(a, u)
{
    assert forall|k: int| 0 <= k < u.len() implies a.contains(#[trigger] u[k]) by { assert(b.contains(u[k])); let m = choose|m: int| 0 <= m < b.len() && b[m] == u[k]; let j = same_get(b, a, m); assert(a[j] == u[k]); }
    assert forall|k: int| 0 <= k < a.len() implies u.contains(#[trigger] a[k]) by { let j = same_get(a, b, k); assert(u.contains(b[j])); }
}
pub proof fn uniq_none<W>(t: Seq<Tr<W>>, u: Seq<Tr<W>>) requires is_uniq(t, u) ensures cnt_i(t) == 0 ==> cnt_i(u) == 0, cnt_o(t) == 0 ==> cnt_o(u) == 0
{
    cnt_none(t); cnt_none(u);
    assert forall|k: int| 0 <= k < u.len() implies (cnt_i(t) == 0 ==> (#[trigger] u[k]).ilabel != EPS_LABEL) && (cnt_o(t) == 0 ==> u[k].olabel != EPS_LABEL) by { assert(t.contains(u[k])); let m = choose|m: int| 0 <= m < t.len() && t[m] == u[k]; assert(t[m] == u[k]); }
}
impl<W: Semiring> SortFst<W> for VectorFst<W> {
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: unique_trs_unchecked
@sub `trs_vec . sort_by ( tr_compare )` => `trs_vec . vsort_by ( tr_compare :: < W > )`
@sub `trs_vec . drain ( .. )` => `trs_vec . drain_all ( )`
@sub `let duplicate = uniques . iter ( ) . rev ( ) . take_while ( | t | equal_tr ( t , & tr ) ) . any ( | t | t . weight == tr . weight ) ;` => `let mut duplicate = false ; let mut rk = uniques . len ( ) ; while rk > 0 { let t = & uniques [ rk - 1 ] ; if ! equal_tr ( t , & tr ) { break ; } if weq ( & t . weight , & tr . weight ) { duplicate = true ; break ; } rk = rk - 1 ; }`
@start
let ghost s0 = state; let ghost v0 = self.v(); let ghost t0 = self.v().trs[state as int]; proof { self.inv_len(); key_total::<W>(); }
@after `trs_vec . vsort_by ( tr_compare :: < W > )`
let ghost ts = trs_vec@;
proof { assert(ord_of(tr_compare::<W>, key_ord::<W>())); assert(sorted(ts, key_ord::<W>())); assert(ts.take(0) =~= Seq::<Tr<W>>::empty()); }
@loop 0 it=jt
    invariant jt.seq() == ts, sorted(ts, key_ord::<W>()), is_uniq(ts.take(jt.index@ as int), uniques@),
@loop_start 0
let ghost ii = jt.index@ as int; let ghost uu = uniques@; let ghost x = ts[ii];
proof { assert(tr == x); assert forall|k: int| 0 <= k < uu.len() implies key_le(#[trigger] uu[k], x) by { assert(ts.take(ii).contains(uu[k])); let m = choose|m: int| 0 <= m < ii && ts.take(ii)[m] == uu[k]; assert(key_ord::<W>()(ts[m], ts[ii])); } }
@loop 1
    invariant_except_break !duplicate, forall|k: int| rk <= k < uu.len() ==> #[trigger] uu[k] != x,
    invariant uniques@ == uu, tr == x, 0 <= rk <= uu.len(), !duplicate || uu.contains(x), forall|k: int| 0 <= k < uu.len() ==> key_le(#[trigger] uu[k], x), sorted(uu, key_ord::<W>()),
    ensures duplicate <==> uu.contains(x),
    decreases rk,
@loop_start 1
proof { assert(key_le(uu[rk - 1], x)); if !same_key(uu[rk - 1], x) { assert forall|k: int| 0 <= k < rk implies #[trigger] uu[k] != x by { if k < rk - 1 { assert(key_ord::<W>()(uu[k], uu[rk - 1])); } } } else if uu[rk - 1].weight == x.weight { assert(uu[rk - 1] == x); } }
@loop_end 0
proof { uniq_step(ts, uu, ii); assert(ts.take(ii + 1) =~= ts.take(ii).push(x)); }
@after_loop 0
proof { assert(ts.take(ts.len() as int) =~= ts); uniq_same(t0, ts, uniques@); uniq_none(t0, uniques@); cnt_le(uniques@); }
@before_loop 2
let ghost u2 = state.trs.tv();
proof { assert(u2.take(0) =~= Seq::<Tr<W>>::empty()); cnt_le(u2); assert(uniques.len() <= usize::MAX); }
@loop 2 it=kt
    invariant kt.seq().len() == u2.len(), u2.len() <= usize::MAX, forall|k: int| 0 <= k < u2.len() ==> *(#[trigger] kt.seq()[k]) == u2[k], state.niepsilons == cnt_i(u2.take(kt.index@ as int)), state.noepsilons == cnt_o(u2.take(kt.index@ as int)), state.trs.tv() == u2,
@loop_start 2
let ghost kk = kt.index@ as int;
proof { assert(*t == u2[kk]); assert(u2.take(kk + 1) =~= u2.take(kk).push(u2[kk])); cnt_push(u2.take(kk), u2[kk]); cnt_le(u2.take(kk + 1)); }
@after_loop 2
proof { assert(u2.take(u2.len() as int) =~= u2); }
@tail
proof { assert(self.v().trs =~= v_set_trs(v0, s0, self.v().trs[s0 as int]).trs); assert(self.v().fin =~= v0.fin); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: sum_trs_unchecked
@sub `trs_vec . sort_by ( tr_compare )` => `trs_vec . vsort_by ( tr_compare :: < W > )`
@sub `let ( left , right ) = trs_vec . split_at_mut ( i ) ; left [ n_trs - 1 ] . weight . plus_assign ( & right [ 0 ] . weight ) . unwrap ( ) ;` => `plus_at ( trs_vec , n_trs - 1 , i ) ;`
@sub `trs_vec . swap ( n_trs , i )` => `trs_vec . vswap ( n_trs , i )`
@start
let ghost s0 = state; let ghost v0 = self.v(); let ghost t0 = self.v().trs[state as int]; proof { self.inv_len(); key_total::<W>(); }
@after `trs_vec . vsort_by ( tr_compare :: < W > )`
let ghost ts = trs_vec@;
proof { assert(ord_of(tr_compare::<W>, key_ord::<W>())); assert(sorted(ts, key_ord::<W>())); assert(ts.take(0) =~= Seq::<Tr<W>>::empty()); cnt_perm(ts, t0); assert(trs_vec@.take(0) =~= Seq::<Tr<W>>::empty()); }
@loop 0 it=jt
    invariant jt.snapshot@.end == ts.len(), trs_vec@.len() == ts.len(), sorted(ts, key_ord::<W>()), n_trs <= i, trs_vec@.take(n_trs as int) == merge(ts.take(i as int)), forall|k: int| i <= k < ts.len() ==> #[trigger] trs_vec@[k] == ts[k],
        state.niepsilons + cnt_i(ts.take(i as int)) == cnt_i(merge(ts.take(i as int))) + cnt_i(ts), state.noepsilons + cnt_o(ts.take(i as int)) == cnt_o(merge(ts.take(i as int))) + cnt_o(ts),
@loop_start 0
let ghost x = ts[i as int]; let ghost m = merge(ts.take(i as int)); let ghost n0 = n_trs as int; let ghost tv = trs_vec@;
proof { assert(tv[i as int] == x); assert(m.len() == n0); if n0 > 0 { assert(m.last() == tv[n0 - 1]); }
    assert(ts.take(i + 1).drop_last() =~= ts.take(i as int)); assert(ts.take(i + 1).last() == x); assert(ts.take(i + 1) =~= ts.take(i as int).push(x)); cnt_push(ts.take(i as int), x); cnt_take(ts, i + 1); cnt_push(m, x); }
@loop_end 0
proof {
    if n0 > 0 && same_key(x, m.last()) { let m1 = merge(ts.take(i + 1)); assert(trs_vec@.take(n0) =~= m1); cnt_upd(m, m1); } else { assert(trs_vec@.take(n0 + 1) =~= m.push(x)); }
}
@after_loop 0
proof { assert(ts.take(ts.len() as int) =~= ts); merge_keys(ts); }
@tail
proof { assert(self.v().trs[s0 as int] == merge(ts)); assert(self.v().trs =~= v_set_trs(v0, s0, self.v().trs[s0 as int]).trs); assert(self.v().fin =~= v0.fin); }
//@end
//@fn fst_impls/vector_fst/mutable_fst.rs :: MutableFst for VectorFst :: sort_trs_unchecked
@sub `. sort_by ( f )` => `. vsort_by ( f )`
@tail
proof { let s = state as int; cnt_perm(self.states@[s].trs.tv(), old(self).states@[s].trs.tv()); assert(self.v().trs =~= v_set_trs(old(self).v(), state, self.v().trs[s]).trs); assert(self.v().fin =~= old(self).v().fin); }
//@end
}

// ---- the whole machine
pub open spec fn all_same<W>(t: Seq<Seq<Tr<W>>>, u: Seq<Seq<Tr<W>>>) -> bool { t.len() == u.len() && forall|s: int| 0 <= s < t.len() ==> same_elems(#[trigger] t[s], u[s]) }
pub open spec fn all_sorted<W>(t: Seq<Seq<Tr<W>>>, le: spec_fn(Tr<W>, Tr<W>) -> bool, n: int) -> bool { forall|s: int| 0 <= s < n && s < t.len() ==> sorted(#[trigger] t[s], le) }
pub proof fn same_get<W>(a: Seq<Tr<W>>, b: Seq<Tr<W>>, k: int) -> (j: int) requires same_elems(a, b), 0 <= k < a.len() ensures 0 <= j < b.len(), b[j] == a[k]
{ a.to_multiset_ensures(); b.to_multiset_ensures(); assert(a.contains(a[k])); assert(a.to_multiset().count(a[k]) > 0); assert(b.contains(a[k])); choose|j: int| 0 <= j < b.len() && b[j] == a[k] }
// two positions of a come from two positions of b
pub proof fn same_get2<W>(a: Seq<Tr<W>>, b: Seq<Tr<W>>, k: int, l: int) -> (r: (int, int)) requires same_elems(a, b), 0 <= k < l < a.len() ensures 0 <= r.0 < b.len(), 0 <= r.1 < b.len(), r.0 != r.1, b[r.0] == a[k], b[r.1] == a[l]
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    let j = same_get(a, b, l);
    let a1 = a.remove(l); let b1 = b.remove(j);
    assert(same_elems(a1, b1));
    let m = same_get(a1, b1, k);
    let m1 = if m < j { m } else { m + 1 };
    assert(b[m1] == b1[m]); assert(a1[k] == a[k]);
    (m1, j)
}
pub proof fn l_arcsort1<W: Semiring>(t: Seq<Seq<Tr<W>>>, u: Seq<Seq<Tr<W>>>) requires all_same(t, u) ensures subt(t, u), idet(u) ==> idet(t), odet(u) ==> odet(t)
{
    assert forall|s: int, k: int| 0 <= s < t.len() && 0 <= k < t[s].len() implies tin(u, s, #[trigger] t[s][k]) by { let j = same_get(t[s], u[s], k); assert(u[s][j] == t[s][k]); }
    assert forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() implies { &&& idet(u) ==> (#[trigger] t[s][j]).ilabel != (#[trigger] t[s][k]).ilabel &&& odet(u) ==> t[s][j].olabel != t[s][k].olabel } by {
        let r = same_get2(t[s], u[s], j, k);
        let x = u[s][r.0]; let y = u[s][r.1];
        if r.0 < r.1 { } else { }
    }
}
pub proof fn l_str<W: Semiring>(v: FstV<W>, u: FstV<W>)
    requires u.start == v.start, u.fin == v.fin, u.trs.len() == v.trs.len(), v.fin.len() == v.trs.len(), forall|s: int| 0 <= s < u.trs.len() ==> (#[trigger] u.trs[s]).len() == v.trs[s].len() && (v.trs[s].len() == 1 ==> u.trs[s][0] == v.trs[s][0])
    ensures string(v) ==> string(u)
{
    if string(v) && v.n() > 0 {
        assert forall|s: int| 0 <= s < u.n() - 1 implies !isfin(u.fin[s]) && (#[trigger] u.trs[s]).len() == 1 && u.trs[s][0].nextstate == s + 1 by { assert(v.trs[s].len() == 1); }
        assert(u.trs[u.n() - 1].len() == v.trs[v.n() - 1].len());
        assert forall|s: int| 0 <= s < u.n() - 1 implies !isfin(#[trigger] u.fin[s]) by { let x = v.trs[s]; assert(x.len() == 1); }
        assert(string(u));
    }
}
pub proof fn l_arcsort<W: Semiring>(v: FstV<W>, u: FstV<W>)
    requires all_same(v.trs, u.trs), u.start == v.start, u.fin == v.fin, v.fin.len() == v.trs.len()
    ensures forall|i: int| ok_arcsort(i) && holds(v, i) ==> #[trigger] holds(u, i)
{
    assert forall|s: int| 0 <= s < u.trs.len() implies same_elems(#[trigger] u.trs[s], v.trs[s]) by { assert(same_elems(v.trs[s], u.trs[s])); }
    l_arcsort1(v.trs, u.trs); l_arcsort1(u.trs, v.trs);
    sub_mono(v.trs, u.trs); sub_mono(u.trs, v.trs);
    assert forall|s: int| 0 <= s < u.trs.len() implies (#[trigger] u.trs[s]).len() == v.trs[s].len() && (v.trs[s].len() == 1 ==> u.trs[s][0] == v.trs[s][0]) by { cnt_perm(v.trs[s], u.trs[s]); if v.trs[s].len() == 1 { let j = same_get(v.trs[s], u.trs[s], 0); } }
    assert forall|s: int| acc(v.start, v.trs, s) == #[trigger] acc(u.start, u.trs, s) by { if v.start is Some { let a = v.start->0 as int; assert(reach(v.trs, a, s) == reach(u.trs, a, s)); } }
    assert forall|s: int| coacc(v.trs, v.fin, s) == #[trigger] coacc(u.trs, u.fin, s) by {
        if coacc(v.trs, v.fin, s) { let z = choose|z: int| 0 <= z < v.fin.len() && (#[trigger] v.fin[z]) is Some && v.fin[z]->0 != W::szero() && reach(v.trs, s, z); assert(reach(u.trs, s, z)); assert(u.fin[z] == v.fin[z]); }
        if coacc(u.trs, u.fin, s) { let z = choose|z: int| 0 <= z < u.fin.len() && (#[trigger] u.fin[z]) is Some && u.fin[z]->0 != W::szero() && reach(u.trs, s, z); assert(reach(v.trs, s, z)); assert(u.fin[z] == v.fin[z]); }
    }
    l_str(v, u); l_str(u, v);
    assert(accessible(v.start, v.trs) == accessible(u.start, u.trs)) by { if accessible(v.start, v.trs) { assert forall|s: int| 0 <= s < u.trs.len() implies #[trigger] acc(u.start, u.trs, s) by { assert(acc(v.start, v.trs, s)); } } if accessible(u.start, u.trs) { assert forall|s: int| 0 <= s < v.trs.len() implies #[trigger] acc(v.start, v.trs, s) by { assert(acc(u.start, u.trs, s)); } } }
    assert(coaccessible(v.trs, v.fin) == coaccessible(u.trs, u.fin)) by { if coaccessible(v.trs, v.fin) { assert forall|s: int| 0 <= s < u.trs.len() implies #[trigger] coacc(u.trs, u.fin, s) by { assert(coacc(v.trs, v.fin, s)); } } if coaccessible(u.trs, u.fin) { assert forall|s: int| 0 <= s < v.trs.len() implies #[trigger] coacc(v.trs, v.fin, s) by { assert(coacc(u.trs, u.fin, s)); } } }
}
pub open spec fn cle<W, C: TrCompare>() -> spec_fn(Tr<W>, Tr<W>) -> bool { |a: Tr<W>, b: Tr<W>| C::le(a, b) }
//@fn algorithms/tr_sort.rs :: tr_sort
    requires old(fst).inv(), total(cle::<W, C>()), C::is_label_order(),
    ensures final(fst).inv(), final(fst).v().start == old(fst).v().start, final(fst).v().fin == old(fst).v().fin, all_same(old(fst).v().trs, final(fst).v().trs), all_sorted(final(fst).v().trs, cle::<W, C>(), old(fst).v().n() as int),
        /*C02*/ sound(old(fst).p(), old(fst).v()) ==> sound(final(fst).p(), final(fst).v()),
@sub `F : MutableFst < W >` => `F : SortFst < W >`
@sub `C :: compare` => `C :: compare :: < W >`
@start
let ghost v = fst.v(); proof { fst.inv_len(); }
@loop 0 it=jt
    invariant fst.inv(), jt.snapshot@.end == v.n(), v.n() <= u32::MAX, v.fin.len() == v.trs.len(), fst.v().start == v.start, fst.v().fin == v.fin, all_same(v.trs, fst.v().trs), total(cle::<W, C>()), all_sorted(fst.v().trs, cle::<W, C>(), state as int),
@loop_start 0
let ghost v1 = fst.v(); proof { assert(ord_of(C::compare::<W>, cle::<W, C>())); }
@loop_end 0
proof { assert forall|s: int| 0 <= s < v.trs.len() implies same_elems(#[trigger] v.trs[s], fst.v().trs[s]) by { assert(same_elems(v.trs[s], v1.trs[s])); } assert forall|s: int| 0 <= s < state + 1 && s < fst.v().trs.len() implies sorted(#[trigger] fst.v().trs[s], cle::<W, C>()) by { if s < state { assert(sorted(v1.trs[s], cle::<W, C>())); } } }
@tail
proof { l_arcsort(v, fst.v()); broadcast use group_bits; l_sorted::<W, C>(v, fst.v()); reveal(sound); }
//@end
pub proof fn l_sorted<W: Semiring, C: TrCompare>(v: FstV<W>, u: FstV<W>)
    requires all_sorted(u.trs, cle::<W, C>(), u.trs.len() as int), C::is_label_order(), all_same(v.trs, u.trs)
    ensures C::input() ==> isorted(u.trs), !C::input() ==> osorted(u.trs), acceptor(v.trs) ==> isorted(u.trs) && osorted(u.trs)
{
    let t = u.trs; let c = cle::<W, C>();
    assert forall|s: int, j: int, k: int| 0 <= s < t.len() && 0 <= j < k < t[s].len() implies C::le(#[trigger] t[s][j], #[trigger] t[s][k]) by { assert(sorted(t[s], c)); assert(c(t[s][j], t[s][k])); }
    C::le_is::<W>();
    if acceptor(v.trs) { l_arcsort1(u.trs, v.trs) ; sub_mono(u.trs, v.trs); }
}
//@fn algorithms/tr_unique.rs :: tr_unique
    requires old(ifst).inv(),
    ensures final(ifst).inv(), final(ifst).v().start == old(ifst).v().start, final(ifst).v().fin == old(ifst).v().fin, final(ifst).v().n() == old(ifst).v().n(),
        forall|s: int| 0 <= s < old(ifst).v().n() ==> is_uniq(old(ifst).v().trs[s], #[trigger] final(ifst).v().trs[s]),
@sub `F : MutableFst < W >` => `F : SortFst < W >`
@start
let ghost v = ifst.v(); proof { ifst.inv_len(); }
@loop 0 it=jt
    invariant ifst.inv(), jt.snapshot@.end == v.n(), v.n() <= u32::MAX, ifst.v().start == v.start, ifst.v().fin == v.fin, ifst.v().trs.len() == v.trs.len(),
        forall|q: int| 0 <= q < s && q < v.n() ==> is_uniq(v.trs[q], #[trigger] ifst.v().trs[q]), forall|q: int| s <= q < v.n() ==> #[trigger] ifst.v().trs[q] == v.trs[q],
@loop_start 0
let ghost v1 = ifst.v();
@loop_end 0
proof { assert forall|q: int| 0 <= q < s + 1 && q < v.n() implies is_uniq(v.trs[q], #[trigger] ifst.v().trs[q]) by { if q < s { assert(ifst.v().trs[q] == v1.trs[q]); } } assert forall|q: int| s + 1 <= q < v.n() implies #[trigger] ifst.v().trs[q] == v.trs[q] by { assert(ifst.v().trs[q] == v1.trs[q]); } }
//@end
//@fn algorithms/tr_sum.rs :: tr_sum
    requires old(ifst).inv(),
    ensures final(ifst).inv(), final(ifst).v().start == old(ifst).v().start, final(ifst).v().fin == old(ifst).v().fin, final(ifst).v().n() == old(ifst).v().n(),
        forall|s: int| 0 <= s < old(ifst).v().n() ==> is_sum(old(ifst).v().trs[s], #[trigger] final(ifst).v().trs[s]),
@sub `F : MutableFst < W >` => `F : SortFst < W >`
@start
let ghost v = ifst.v(); proof { ifst.inv_len(); }
@loop 0 it=jt
    invariant ifst.inv(), jt.snapshot@.end == v.n(), v.n() <= u32::MAX, ifst.v().start == v.start, ifst.v().fin == v.fin, ifst.v().trs.len() == v.trs.len(),
        forall|q: int| 0 <= q < s && q < v.n() ==> is_sum(v.trs[q], #[trigger] ifst.v().trs[q]), forall|q: int| s <= q < v.n() ==> #[trigger] ifst.v().trs[q] == v.trs[q],
@loop_start 0
let ghost v1 = ifst.v();
@loop_end 0
proof { assert forall|q: int| 0 <= q < s + 1 && q < v.n() implies is_sum(v.trs[q], #[trigger] ifst.v().trs[q]) by { if q < s { assert(ifst.v().trs[q] == v1.trs[q]); } } assert forall|q: int| s + 1 <= q < v.n() implies #[trigger] ifst.v().trs[q] == v.trs[q] by { assert(ifst.v().trs[q] == v1.trs[q]); } }
//@end
}
