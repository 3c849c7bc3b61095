//@use lazy
verus! {
// ---- C09: composition. Borrow and the smart pointers around machines are dropped; matchers, filters and the operator keep their own code.
pub const NO_LABEL: Label = u32::MAX;
pub const NO_STATE_ID: StateId = u32::MAX;
pub const REQUIRE_PRIORITY: usize = usize::MAX;
pub trait IsFinal<W: Semiring>: CoreFst<W> {
//@fn fst_traits/fst.rs :: trait CoreFst :: is_final nopub
    requires self.inv(),
    ensures r is Ok <==> state_id < self.v().n(), r is Ok ==> r->Ok_0 == isfin(self.v().fin[state_id as int]),
@sub `| final_weight | final_weight != W :: zero ( )` => `| final_weight : W | -> ( r : bool ) ensures r == ( final_weight != W :: szero ( ) ) { ! final_weight . is_zero ( ) }`
//@end
    // properties_check: the flags of the machine when both answers about the mask are not open
    fn properties_check(&self, props_known: FstProperties) -> (r: Result<FstProperties>) requires self.inv() ensures r is Ok ==> r->Ok_0 == self.p();
}
// -- matchers
//@type algorithms/compose/matchers/mod.rs :: enum MatchType
impl Copy for MatchType { }
impl Clone for MatchType { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for MatchType { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for MatchType { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
//@type algorithms/compose/matchers/mod.rs :: enum IterItemMatcher
//@tsub `< W : Semiring >` => `< W >`
pub open spec fn loop_tr<W: Semiring>(s: StateId, t: MatchType) -> Tr<W> { if t is MatchInput { Tr { ilabel: NO_LABEL, olabel: EPS_LABEL, weight: W::sone(), nextstate: s } } else { Tr { ilabel: EPS_LABEL, olabel: NO_LABEL, weight: W::sone(), nextstate: s } } }
pub open spec fn item_tr<W: Semiring>(x: IterItemMatcher<W>, s: StateId, t: MatchType) -> Tr<W> { match x { IterItemMatcher::Tr(t) => t, IterItemMatcher::EpsLoop => loop_tr(s, t) } }
//@fn algorithms/compose/matchers/mod.rs :: eps_loop
    ensures r is Ok <==> (match_type is MatchInput || match_type is MatchOutput), r is Ok ==> r->Ok_0 == loop_tr::<W>(state, match_type),
//@end
impl<W: Semiring> IterItemMatcher<W> {
//@fn algorithms/compose/matchers/mod.rs :: IterItemMatcher :: into_tr
    requires match_type is MatchInput || match_type is MatchOutput,
    ensures r is Ok, r->Ok_0 == item_tr(self, state, match_type),
//@end
}
// an iterator of a matcher hands out a fixed sequence of items
pub trait MIter<W: Semiring>: Sized {
    spec fn ok(&self) -> bool;
    spec fn rest(&self) -> Seq<IterItemMatcher<W>>;
    fn next(&mut self) -> (r: Option<IterItemMatcher<W>>) requires old(self).ok()
        ensures final(self).ok(), r is None <==> old(self).rest().len() == 0, r is None ==> final(self).rest() == old(self).rest(),
            r is Some ==> r->0 == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1);
}
pub open spec fn lab<W>(t: MatchType, x: Tr<W>) -> Label { if t is MatchInput { x.ilabel } else { x.olabel } }
pub open spec fn lsorted<W>(t: MatchType, s: Seq<Tr<W>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> lab(t, #[trigger] s[i]) <= lab(t, #[trigger] s[j]) }
// the transitions that carry the label, in order
pub open spec fn sel<W>(t: MatchType, s: Seq<Tr<W>>, l: Label) -> Seq<IterItemMatcher<W>> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if lab(t, s[0]) == l { seq![IterItemMatcher::Tr(s[0])] + sel(t, s.skip(1), l) } else { sel(t, s.skip(1), l) }
}
// what matching label l at a state with transitions s must yield: no label matches the epsilon transitions, epsilon also stays put
pub open spec fn items<W>(t: MatchType, s: Seq<Tr<W>>, l: Label) -> Seq<IterItemMatcher<W>> {
    if l == EPS_LABEL { seq![IterItemMatcher::EpsLoop] + sel(t, s, EPS_LABEL) } else if l == NO_LABEL { sel(t, s, EPS_LABEL) } else { sel(t, s, l) }
}
// superslice's lower_bound_by (assumed): the first element that is not Less, when Less elements come first
#[verifier::external_body]
pub fn trs_lower_bound_by<W: Semiring, T: Trs<W>, F: Fn(&Tr<W>) -> core::cmp::Ordering>(trs: &T, f: F, Ghost(less): Ghost<spec_fn(Tr<W>) -> bool>) -> (r: usize)
    requires forall|x: &Tr<W>| #[trigger] call_requires(f, (x,)), forall|x: &Tr<W>, o: core::cmp::Ordering| #[trigger] call_ensures(f, (x,), o) ==> (o is Less <==> less(*x)),
        forall|i: int, j: int| 0 <= i < j < trs.tv().len() && less(#[trigger] trs.tv()[j]) ==> less(#[trigger] trs.tv()[i]),
    ensures r <= trs.tv().len(), forall|k: int| 0 <= k < trs.tv().len() ==> (k < r <==> less(#[trigger] trs.tv()[k])),
{ unimplemented!() }
#[verifier::external_body]
pub fn trs_get<W: Semiring, T: Trs<W>>(trs: &T, i: usize) -> (r: Option<&Tr<W>>) ensures trs.tv().len() <= usize::MAX, r is Some <==> i < trs.tv().len(), r is Some ==> *r->0 == trs.tv()[i as int] { unimplemented!() }
// skipping transitions without the label changes nothing; after the last one nothing is left
pub proof fn sel_skip<W>(t: MatchType, s: Seq<Tr<W>>, l: Label, n: int) requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> lab(t, #[trigger] s[k]) != l ensures sel(t, s, l) == sel(t, s.skip(n), l) decreases n {
    if n > 0 { assert(lab(t, s[0]) != l); let q = s.skip(1); assert forall|k: int| 0 <= k < n - 1 implies lab(t, #[trigger] q[k]) != l by { assert(q[k] == s[k + 1]); } sel_skip(t, q, l, n - 1); assert(q.skip(n - 1) =~= s.skip(n)); } else { assert(s.skip(0) =~= s); }
}
pub proof fn sel_none<W>(t: MatchType, s: Seq<Tr<W>>, l: Label) requires forall|k: int| 0 <= k < s.len() ==> lab(t, #[trigger] s[k]) != l ensures sel(t, s, l).len() == 0 { sel_skip(t, s, l, s.len() as int); assert(s.skip(s.len() as int).len() == 0); }
// sel holds exactly the transitions with the label
pub proof fn sel_mem<W>(t: MatchType, s: Seq<Tr<W>>, l: Label) ensures forall|x: IterItemMatcher<W>| #[trigger] sel(t, s, l).contains(x) <==> (x is Tr && s.contains(x->Tr_0) && lab(t, x->Tr_0) == l) decreases s.len() {
    if s.len() > 0 { let q = s.skip(1); sel_mem(t, q, l);
        assert forall|x: IterItemMatcher<W>| #[trigger] sel(t, s, l).contains(x) <==> (x is Tr && s.contains(x->Tr_0) && lab(t, x->Tr_0) == l) by {
            let a = sel(t, s, l); let b = sel(t, q, l);
            if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; if lab(t, s[0]) == l { if i == 0 { assert(s.contains(s[0])); } else { assert(b[i - 1] == x); assert(b.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x->Tr_0; assert(s[j + 1] == x->Tr_0); } } else { assert(b.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x->Tr_0; assert(s[j + 1] == x->Tr_0); } }
            if x is Tr && s.contains(x->Tr_0) && lab(t, x->Tr_0) == l { let j = choose|j: int| 0 <= j < s.len() && s[j] == x->Tr_0; if j == 0 { assert(a[0] == x); } else { assert(q[j - 1] == x->Tr_0); assert(q.contains(x->Tr_0)); assert(b.contains(x)); let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if lab(t, s[0]) == l { assert(a[i + 1] == x); } else { assert(a[i] == x); } } }
        }
    }
}
#[verifier::reject_recursive_types(W)]
//@type algorithms/compose/matchers/sorted_matcher.rs :: struct IteratorSortedMatcher
impl<W: Semiring, T: Trs<W>> IteratorSortedMatcher<W, T> {
    pub open spec fn from(&self) -> Seq<Tr<W>> { self.trs.tv().skip(self.pos as int) }
//@fn algorithms/compose/matchers/sorted_matcher.rs :: IteratorSortedMatcher :: new
    requires match_type is MatchInput || match_type is MatchOutput, lsorted(match_type, trs.tv()),
    ensures r.ok(), r.rest() == items(match_type, trs.tv(), match_label),
@sub `trs . lower_bound_by ( | x | x . ilabel . cmp ( & match_label ) )` => `trs_lower_bound_by ( & trs , | x : & Tr < W > | -> ( r : core :: cmp :: Ordering ) ensures ( r is Less ) == ( x . ilabel < match_label ) { x . ilabel . cmp ( & match_label ) } , Ghost ( | x : Tr < W > | x . ilabel < match_label ) )`
@sub `trs . lower_bound_by ( | x | x . olabel . cmp ( & match_label ) )` => `trs_lower_bound_by ( & trs , | x : & Tr < W > | -> ( r : core :: cmp :: Ordering ) ensures ( r is Less ) == ( x . olabel < match_label ) { x . olabel . cmp ( & match_label ) } , Ghost ( | x : Tr < W > | x . olabel < match_label ) )`
@sub `_ => panic ! ( "Shouldn't happen : {:?}" , match_type )` => `_ => { proof { assert ( false ) ; } 0usize }`
@start
let ghost ol = match_label;
@tail
proof {
    let s = trs.tv();
    if ol != EPS_LABEL { assert forall|k: int| 0 <= k < pos implies lab(match_type, #[trigger] s[k]) != match_label by { assert(lab(match_type, s[k]) < match_label); } sel_skip(match_type, s, match_label, pos as int); } else { assert(s.skip(0) =~= s); }
    assert forall|k: int| pos <= k < s.len() implies lab(match_type, #[trigger] s[k]) >= match_label by { };
}
//@end
//@fn algorithms/compose/matchers/sorted_matcher.rs :: IteratorSortedMatcher :: get_label
    requires self.match_type is MatchInput || self.match_type is MatchOutput,
    ensures r == lab(self.match_type, *tr),
@sub `_ => panic ! ( "Shouldn't happen : {:?}" , self . match_type )` => `_ => { proof { assert ( false ) ; } 0u32 }`
//@end
}
impl<W: Semiring, T: Trs<W>> MIter<W> for IteratorSortedMatcher<W, T> {
    open spec fn ok(&self) -> bool {
        &&& (self.match_type is MatchInput || self.match_type is MatchOutput) && lsorted(self.match_type, self.trs.tv())
        &&& self.pos <= self.trs.tv().len() && forall|k: int| self.pos <= k < self.trs.tv().len() ==> lab(self.match_type, #[trigger] self.trs.tv()[k]) >= self.match_label
    }
    open spec fn rest(&self) -> Seq<IterItemMatcher<W>> { if self.current_loop { seq![IterItemMatcher::EpsLoop] + sel(self.match_type, self.from(), self.match_label) } else { sel(self.match_type, self.from(), self.match_label) } }
//@fn algorithms/compose/matchers/sorted_matcher.rs :: Iterator for IteratorSortedMatcher :: next nopub
@sub `Option < Self :: Item >` => `Option < IterItemMatcher < W > >`
@sub `self . trs . get ( self . pos )` => `trs_get ( & self . trs , self . pos )`
@start
let ghost s = self.trs.tv(); let ghost f0 = self.from(); let ghost p0 = self.pos;
proof { if p0 < s.len() { assert(f0[0] == s[p0 as int]); assert(f0.skip(1) =~= s.skip(p0 + 1)); 
    if lab(self.match_type, s[p0 as int]) != self.match_label { assert forall|k: int| 0 <= k < f0.len() implies lab(self.match_type, #[trigger] f0[k]) != self.match_label by { assert(f0[k] == s[p0 + k]); if k > 0 { assert(lab(self.match_type, s[p0 as int]) <= lab(self.match_type, s[p0 + k])); } } sel_none(self.match_type, f0, self.match_label); } }
  else { assert(f0.len() == 0); } }
@tail
proof { if r__ is Some { assert(self.rest() =~= old(self).rest().skip(1)); } }
//@end
}

// the flags of the trait are not used here: no matcher of this unit requires matching
pub trait Matcher<W: Semiring, F: IsFinal<W>>: Sized {
    type Iter: MIter<W>;
    spec fn f(&self) -> F;
    spec fn mt(&self) -> MatchType;
    fn iter(&self, state: StateId, label: Label) -> (r: Result<Self::Iter>) requires self.f().inv(), state < self.f().v().n(), self.mt() is MatchInput || self.mt() is MatchOutput, lsorted(self.mt(), self.f().v().trs[state as int])
        ensures r is Ok, r->Ok_0.ok(), r->Ok_0.rest() == items(self.mt(), self.f().v().trs[state as int], label);
    fn final_weight(&self, state: StateId) -> (r: Result<Option<W>>) requires self.f().inv(), state < self.f().v().n() ensures r is Ok, r->Ok_0 == self.f().v().fin[state as int];
    fn match_type(&self, test: bool) -> (r: Result<MatchType>) requires self.f().inv(), sound(self.f().p(), self.f().v()), self.mt() is MatchInput || self.mt() is MatchOutput
        ensures r is Ok && r->Ok_0 is MatchInput ==> self.mt() is MatchInput && isorted(self.f().v().trs), r is Ok && r->Ok_0 is MatchOutput ==> self.mt() is MatchOutput && osorted(self.f().v().trs);
    fn require_match(&self) -> (r: bool);
    fn priority(&self, state: StateId) -> (r: Result<usize>) requires self.f().inv(), state < self.f().v().n();
    fn fst(&self) -> (r: &F) ensures *r == self.f();
}
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F)]
//@type algorithms/compose/matchers/sorted_matcher.rs :: struct SortedMatcher
//@tsub `< W , F , B > where W : Semiring , F : Fst < W > , B : Borrow < F > ,` => `< W , F >`
//@tsub `fst : B` => `fst : F`
impl<W: Semiring, F: IsFinal<W>> Matcher<W, F> for SortedMatcher<W, F> {
    type Iter = IteratorSortedMatcher<W, F::TRS>;
    open spec fn f(&self) -> F { self.fst }
    open spec fn mt(&self) -> MatchType { self.match_type }
//@fn algorithms/compose/matchers/sorted_matcher.rs :: Matcher for SortedMatcher :: iter nopub
@sub `. borrow ( )` => ``
//@end
//@fn algorithms/compose/matchers/sorted_matcher.rs :: Matcher for SortedMatcher :: final_weight nopub
@sub `. borrow ( )` => ``
//@end
//@fn algorithms/compose/matchers/sorted_matcher.rs :: Matcher for SortedMatcher :: match_type nopub
@sub `. borrow ( )` => ``
@start
broadcast use group_bits; reveal(sound);
//@end
    fn require_match(&self) -> (r: bool) { false }
//@fn algorithms/compose/matchers/sorted_matcher.rs :: Matcher for SortedMatcher :: priority nopub
@sub `. borrow ( )` => ``
//@end
//@fn algorithms/compose/matchers/sorted_matcher.rs :: Matcher for SortedMatcher :: fst nopub
@sub `& B` => `& F`
//@end
}
// -- filters. A move of the composition is a match of two transitions, or an epsilon transition of one side while the other stays
pub enum Mv { M1, M2, B, M }
pub open spec fn kind<W>(x1: Tr<W>, x2: Tr<W>) -> Mv { if x1.olabel == NO_LABEL { Mv::M2 } else if x2.ilabel == NO_LABEL { Mv::M1 } else if x1.olabel == EPS_LABEL { Mv::B } else { Mv::M } }
// what a filter looks at in a state: whether all or none of its transitions are epsilons (on the matched side)
pub struct Info { pub all: bool, pub none: bool }
pub open spec fn oinfo<W: Semiring>(v: FstV<W>, s: int) -> Info { Info { all: !isfin(v.fin[s]) && forall|k: int| 0 <= k < v.trs[s].len() ==> (#[trigger] v.trs[s][k]).olabel == EPS_LABEL, none: forall|k: int| 0 <= k < v.trs[s].len() ==> (#[trigger] v.trs[s][k]).olabel != EPS_LABEL } }
pub open spec fn iinfo<W: Semiring>(v: FstV<W>, s: int) -> Info { Info { all: !isfin(v.fin[s]) && forall|k: int| 0 <= k < v.trs[s].len() ==> (#[trigger] v.trs[s][k]).ilabel == EPS_LABEL, none: forall|k: int| 0 <= k < v.trs[s].len() ==> (#[trigger] v.trs[s][k]).ilabel != EPS_LABEL } }
pub proof fn cnt_all<W>(t: Seq<Tr<W>>)
    ensures cnt_o(t) <= t.len(), cnt_i(t) <= t.len(), (cnt_o(t) == t.len()) == (forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).olabel == EPS_LABEL), (cnt_o(t) == 0) == (forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).olabel != EPS_LABEL),
        (cnt_i(t) == t.len()) == (forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).ilabel == EPS_LABEL), (cnt_i(t) == 0) == (forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).ilabel != EPS_LABEL),
    decreases t.len()
{
    if t.len() > 0 { let d = t.drop_last(); cnt_all(d); assert forall|k: int| 0 <= k < d.len() implies #[trigger] d[k] == t[k] by { };
        if forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).olabel == EPS_LABEL { assert(t[t.len() - 1].olabel == EPS_LABEL); assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).olabel == EPS_LABEL by { assert(t[k].olabel == EPS_LABEL); } }
        if forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).olabel != EPS_LABEL { assert(t[t.len() - 1].olabel != EPS_LABEL); assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).olabel != EPS_LABEL by { assert(t[k].olabel != EPS_LABEL); } }
        if forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).ilabel == EPS_LABEL { assert(t[t.len() - 1].ilabel == EPS_LABEL); assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).ilabel == EPS_LABEL by { assert(t[k].ilabel == EPS_LABEL); } }
        if forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).ilabel != EPS_LABEL { assert(t[t.len() - 1].ilabel != EPS_LABEL); assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).ilabel != EPS_LABEL by { assert(t[k].ilabel != EPS_LABEL); } }
        assert forall|k: int| 0 <= k < t.len() implies (cnt_o(t) == t.len() ==> (#[trigger] t[k]).olabel == EPS_LABEL) && (cnt_o(t) == 0 ==> t[k].olabel != EPS_LABEL) && (cnt_i(t) == t.len() ==> t[k].ilabel == EPS_LABEL) && (cnt_i(t) == 0 ==> t[k].ilabel != EPS_LABEL) by { if k < d.len() { assert(d[k] == t[k]); } }
    }
}
pub open spec fn seq_step(f: u32, a: Info, b: Info, m: Mv) -> u32 { match m { Mv::M2 => if a.all { NO_STATE_ID } else if a.none { 0 } else { 1 }, Mv::M1 => if f != 0 { NO_STATE_ID } else { 0 }, Mv::B => NO_STATE_ID, Mv::M => 0 } }
pub open spec fn alt_step(f: u32, a: Info, b: Info, m: Mv) -> u32 { match m { Mv::M1 => if b.all { NO_STATE_ID } else if b.none { 0 } else { 1 }, Mv::M2 => if f == 1 { NO_STATE_ID } else { 0 }, Mv::B => NO_STATE_ID, Mv::M => 0 } }
pub open spec fn match_step(f: u32, a: Info, b: Info, m: Mv) -> u32 { match m {
    Mv::M1 => if f == 0 { if b.none { 0 } else if b.all { NO_STATE_ID } else { 1 } } else if f == 1 { 1 } else { NO_STATE_ID },
    Mv::M2 => if f == 0 { if a.none { 0 } else if a.all { NO_STATE_ID } else { 2 } } else if f == 2 { 2 } else { NO_STATE_ID },
    Mv::B => if f == 0 { 0 } else { NO_STATE_ID }, Mv::M => 0 } }
pub trait FilterState: Clone + Sized { spec fn sno() -> Self; fn new_no_state() -> (r: Self) ensures r == Self::sno(); }
// Eq on filter states is equality of values (assumed: derived)
#[verifier::external_body]
pub fn fs_ne<T: FilterState>(a: &T, b: T) -> (r: bool) ensures r == (*a != b) { unimplemented!() }
//@type algorithms/compose/filter_states/integer_filter_state.rs :: struct IntegerFilterState
impl Clone for IntegerFilterState { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IntegerFilterState { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for IntegerFilterState { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub open spec fn ifs(x: u32) -> IntegerFilterState { IntegerFilterState { state: x } }
impl IntegerFilterState {
//@fn algorithms/compose/filter_states/integer_filter_state.rs :: FilterState for IntegerFilterState :: new
    ensures r == ifs(value),
@sub `Self :: Type` => `StateId`
//@end
}
impl FilterState for IntegerFilterState {
    open spec fn sno() -> Self { ifs(NO_STATE_ID) }
//@fn algorithms/compose/filter_states/integer_filter_state.rs :: FilterState for IntegerFilterState :: new_no_state nopub
//@end
}
pub trait ComposeFilter<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>>: Sized {
    type FS: FilterState;
    type M1: Matcher<W, F1>;
    type M2: Matcher<W, F2>;
    spec fn inv(&self) -> bool;
    spec fn m1(&self) -> Self::M1;
    spec fn m2(&self) -> Self::M2;
    spec fn at(&self) -> (StateId, StateId, Self::FS);
    spec fn sstart() -> Self::FS;
    spec fn step(f: Self::FS, a: Info, b: Info, m: Mv) -> Self::FS;
    fn start(&self) -> (r: Self::FS) ensures r == Self::sstart();
    fn set_state(&mut self, s1: StateId, s2: StateId, filter_state: &Self::FS) -> (r: Result<()>)
        requires old(self).inv(), old(self).m1().f().inv(), old(self).m2().f().inv(), s1 < old(self).m1().f().v().n(), s2 < old(self).m2().f().v().n(), old(self).m1().f().v().n() <= u32::MAX, old(self).m2().f().v().n() <= u32::MAX
        ensures r is Ok, final(self).inv(), final(self).at() == (s1, s2, *filter_state), final(self).m1() == old(self).m1(), final(self).m2() == old(self).m2();
    fn filter_tr(&mut self, arc1: &mut Tr<W>, arc2: &mut Tr<W>) -> (r: Result<Self::FS>)
        requires old(self).inv(), old(self).at().0 != NO_STATE_ID, old(self).at().1 != NO_STATE_ID, old(arc1).olabel != NO_LABEL || old(arc2).ilabel != NO_LABEL
        ensures r is Ok, r->Ok_0 == Self::step(old(self).at().2, oinfo(old(self).m1().f().v(), old(self).at().0 as int), iinfo(old(self).m2().f().v(), old(self).at().1 as int), kind(*old(arc1), *old(arc2))),
            *final(arc1) == *old(arc1), *final(arc2) == *old(arc2), final(self).inv(), final(self).at() == old(self).at(), final(self).m1() == old(self).m1(), final(self).m2() == old(self).m2();
    fn filter_final(&self, _w1: &mut W, _w2: &mut W) -> (r: Result<()>) ensures r is Ok, *final(_w1) == *old(_w1), *final(_w2) == *old(_w2);
    fn matcher1(&self) -> (r: &Self::M1) ensures *r == self.m1();
    fn matcher2(&self) -> (r: &Self::M2) ensures *r == self.m2();
}
pub trait ComposeFilterBuilder<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>>: Sized {
    type CF: ComposeFilter<W, F1, F2>;
    spec fn m1(&self) -> <Self::CF as ComposeFilter<W, F1, F2>>::M1;
    spec fn m2(&self) -> <Self::CF as ComposeFilter<W, F1, F2>>::M2;
    fn build(&self) -> (r: Result<Self::CF>) ensures r is Ok, r->Ok_0.inv(), r->Ok_0.m1() == self.m1(), r->Ok_0.m2() == self.m2();
}
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F1)]
#[verifier::reject_recursive_types(F2)]
#[verifier::reject_recursive_types(M1)]
#[verifier::reject_recursive_types(M2)]
//@type algorithms/compose/compose_filters/sequence_compose_filter.rs :: struct SequenceComposeFilter
//@tgen < W , F1 , F2 , M1 , M2 >
//@tsub `pub ghost : PhantomData < ( W , F1 , F2 , B1 , B2 ) >` => `pub gh : PhantomData < ( W , F1 , F2 ) >`
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F1)]
#[verifier::reject_recursive_types(F2)]
#[verifier::reject_recursive_types(M1)]
#[verifier::reject_recursive_types(M2)]
//@type algorithms/compose/compose_filters/sequence_compose_filter.rs :: struct SequenceComposeFilterBuilder
//@tgen < W , F1 , F2 , M1 , M2 >
//@tsub `pub ghost : PhantomData < ( W , F1 , F2 , B1 , B2 ) >` => `pub gh : PhantomData < ( W , F1 , F2 ) >`
impl<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>, M1: Matcher<W, F1>, M2: Matcher<W, F2>> ComposeFilter<W, F1, F2> for SequenceComposeFilter<W, F1, F2, M1, M2> {
    type FS = IntegerFilterState; type M1 = M1; type M2 = M2;
    open spec fn inv(&self) -> bool { self.s1 != NO_STATE_ID && self.s2 != NO_STATE_ID ==> ((Info { all: self.alleps1, none: self.noeps1 }) == oinfo((*self.matcher1).f().v(), self.s1 as int)) }
    open spec fn m1(&self) -> M1 { *self.matcher1 }
    open spec fn m2(&self) -> M2 { *self.matcher2 }
    open spec fn at(&self) -> (StateId, StateId, IntegerFilterState) { (self.s1, self.s2, self.fs) }
    open spec fn sstart() -> IntegerFilterState { ifs(0) }
    open spec fn step(f: IntegerFilterState, a: Info, b: Info, m: Mv) -> IntegerFilterState { ifs(seq_step(f.state, a, b, m)) }
//@fn algorithms/compose/compose_filters/sequence_compose_filter.rs :: ComposeFilter for SequenceComposeFilter :: start nopub
@sub `Self :: FS :: new` => `IntegerFilterState :: new`
//@end
//@fn algorithms/compose/compose_filters/sequence_compose_filter.rs :: ComposeFilter for SequenceComposeFilter :: set_state nopub
@sub `. borrow ( )` => ``
@sub `& self . fs == filter_state` => `self . fs == * filter_state`
@start
proof { cnt_all((*self.matcher1).f().v().trs[s1 as int]); (*self.matcher1).f().inv_len(); }
//@end
//@fn algorithms/compose/compose_filters/sequence_compose_filter.rs :: ComposeFilter for SequenceComposeFilter :: filter_tr nopub
@sub `Self :: FS :: new` => `IntegerFilterState :: new`
@sub `Self :: FS :: new_no_state` => `IntegerFilterState :: new_no_state` #opt
//@end
//@fn algorithms/compose/compose_filters/sequence_compose_filter.rs :: ComposeFilter for SequenceComposeFilter :: filter_final nopub
//@end
//@fn algorithms/compose/compose_filters/sequence_compose_filter.rs :: ComposeFilter for SequenceComposeFilter :: matcher1 nopub
@sub `& self . matcher1` => `& * self . matcher1`
//@end
//@fn algorithms/compose/compose_filters/sequence_compose_filter.rs :: ComposeFilter for SequenceComposeFilter :: matcher2 nopub
@sub `& self . matcher2` => `& * self . matcher2`
//@end
}
impl<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>, M1: Matcher<W, F1>, M2: Matcher<W, F2>> ComposeFilterBuilder<W, F1, F2> for SequenceComposeFilterBuilder<W, F1, F2, M1, M2> {
    type CF = SequenceComposeFilter<W, F1, F2, M1, M2>;
    open spec fn m1(&self) -> M1 { *self.matcher1 }
    open spec fn m2(&self) -> M2 { *self.matcher2 }
//@fn algorithms/compose/compose_filters/sequence_compose_filter.rs :: ComposeFilterBuilder for SequenceComposeFilterBuilder :: build nopub
@sub `:: < W , F1 , F2 , B1 , B2 , M1 , M2 >` => ``
@sub `ghost :` => `gh :`
@sub `< Self :: CF as ComposeFilter < W , F1 , F2 , B1 , B2 , M1 , M2 >> :: FS :: new` => `IntegerFilterState :: new`
//@end
}
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F1)]
#[verifier::reject_recursive_types(F2)]
#[verifier::reject_recursive_types(M1)]
#[verifier::reject_recursive_types(M2)]
//@type algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: struct AltSequenceComposeFilter
//@tgen < W , F1 , F2 , M1 , M2 >
//@tsub `pub ghost : PhantomData < ( W , F1 , F2 , B1 , B2 ) >` => `pub gh : PhantomData < ( W , F1 , F2 ) >`
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F1)]
#[verifier::reject_recursive_types(F2)]
#[verifier::reject_recursive_types(M1)]
#[verifier::reject_recursive_types(M2)]
//@type algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: struct AltSequenceComposeFilterBuilder
//@tgen < W , F1 , F2 , M1 , M2 >
//@tsub `pub ghost : PhantomData < ( W , F1 , F2 , B1 , B2 ) >` => `pub gh : PhantomData < ( W , F1 , F2 ) >`
impl<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>, M1: Matcher<W, F1>, M2: Matcher<W, F2>> ComposeFilter<W, F1, F2> for AltSequenceComposeFilter<W, F1, F2, M1, M2> {
    type FS = IntegerFilterState; type M1 = M1; type M2 = M2;
    open spec fn inv(&self) -> bool { self.s1 != NO_STATE_ID && self.s2 != NO_STATE_ID ==> ((Info { all: self.alleps2, none: self.noeps2 }) == iinfo((*self.matcher2).f().v(), self.s2 as int)) }
    open spec fn m1(&self) -> M1 { *self.matcher1 }
    open spec fn m2(&self) -> M2 { *self.matcher2 }
    open spec fn at(&self) -> (StateId, StateId, IntegerFilterState) { (self.s1, self.s2, self.fs) }
    open spec fn sstart() -> IntegerFilterState { ifs(0) }
    open spec fn step(f: IntegerFilterState, a: Info, b: Info, m: Mv) -> IntegerFilterState { ifs(alt_step(f.state, a, b, m)) }
//@fn algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: ComposeFilter for AltSequenceComposeFilter :: start nopub
@sub `Self :: FS :: new` => `IntegerFilterState :: new`
//@end
//@fn algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: ComposeFilter for AltSequenceComposeFilter :: set_state nopub
@sub `. borrow ( )` => ``
@sub `& self . fs == filter_state` => `self . fs == * filter_state`
@start
proof { cnt_all((*self.matcher2).f().v().trs[s2 as int]); (*self.matcher2).f().inv_len(); }
//@end
//@fn algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: ComposeFilter for AltSequenceComposeFilter :: filter_tr nopub
@sub `Self :: FS :: new` => `IntegerFilterState :: new`
@sub `Self :: FS :: new_no_state` => `IntegerFilterState :: new_no_state` #opt
//@end
//@fn algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: ComposeFilter for AltSequenceComposeFilter :: filter_final nopub
//@end
//@fn algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: ComposeFilter for AltSequenceComposeFilter :: matcher1 nopub
@sub `& self . matcher1` => `& * self . matcher1`
//@end
//@fn algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: ComposeFilter for AltSequenceComposeFilter :: matcher2 nopub
@sub `& self . matcher2` => `& * self . matcher2`
//@end
}
impl<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>, M1: Matcher<W, F1>, M2: Matcher<W, F2>> ComposeFilterBuilder<W, F1, F2> for AltSequenceComposeFilterBuilder<W, F1, F2, M1, M2> {
    type CF = AltSequenceComposeFilter<W, F1, F2, M1, M2>;
    open spec fn m1(&self) -> M1 { *self.matcher1 }
    open spec fn m2(&self) -> M2 { *self.matcher2 }
//@fn algorithms/compose/compose_filters/alt_sequence_compose_filter.rs :: ComposeFilterBuilder for AltSequenceComposeFilterBuilder :: build nopub
@sub `:: < W , F1 , F2 , B1 , B2 , M1 , M2 >` => ``
@sub `ghost :` => `gh :`
@sub `< AltSequenceComposeFilter < W , F1 , F2 , B1 , B2 , M1 , M2 > as ComposeFilter < W , F1 , F2 , B1 , B2 , M1 , M2 , >> :: FS :: new` => `IntegerFilterState :: new`
//@end
}
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F1)]
#[verifier::reject_recursive_types(F2)]
#[verifier::reject_recursive_types(M1)]
#[verifier::reject_recursive_types(M2)]
//@type algorithms/compose/compose_filters/match_compose_filter.rs :: struct MatchComposeFilter
//@tgen < W , F1 , F2 , M1 , M2 >
//@tsub `pub ghost : PhantomData < ( W , F1 , F2 , B1 , B2 ) >` => `pub gh : PhantomData < ( W , F1 , F2 ) >`
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F1)]
#[verifier::reject_recursive_types(F2)]
#[verifier::reject_recursive_types(M1)]
#[verifier::reject_recursive_types(M2)]
//@type algorithms/compose/compose_filters/match_compose_filter.rs :: struct MatchComposeFilterBuilder
//@tgen < W , F1 , F2 , M1 , M2 >
//@tsub `pub ghost : PhantomData < ( W , F1 , F2 , M1 , M2 , B1 , B2 ) >` => `pub gh : PhantomData < ( W , F1 , F2 ) >`
impl<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>, M1: Matcher<W, F1>, M2: Matcher<W, F2>> ComposeFilter<W, F1, F2> for MatchComposeFilter<W, F1, F2, M1, M2> {
    type FS = IntegerFilterState; type M1 = M1; type M2 = M2;
    open spec fn inv(&self) -> bool { self.s1 != NO_STATE_ID && self.s2 != NO_STATE_ID ==> ((Info { all: self.alleps1, none: self.noeps1 }) == oinfo((*self.matcher1).f().v(), self.s1 as int) && (Info { all: self.alleps2, none: self.noeps2 }) == iinfo((*self.matcher2).f().v(), self.s2 as int)) }
    open spec fn m1(&self) -> M1 { *self.matcher1 }
    open spec fn m2(&self) -> M2 { *self.matcher2 }
    open spec fn at(&self) -> (StateId, StateId, IntegerFilterState) { (self.s1, self.s2, self.fs) }
    open spec fn sstart() -> IntegerFilterState { ifs(0) }
    open spec fn step(f: IntegerFilterState, a: Info, b: Info, m: Mv) -> IntegerFilterState { ifs(match_step(f.state, a, b, m)) }
//@fn algorithms/compose/compose_filters/match_compose_filter.rs :: ComposeFilter for MatchComposeFilter :: start nopub
@sub `Self :: FS :: new` => `IntegerFilterState :: new`
//@end
//@fn algorithms/compose/compose_filters/match_compose_filter.rs :: ComposeFilter for MatchComposeFilter :: set_state nopub
@sub `. borrow ( )` => ``
@sub `& self . fs == filter_state` => `self . fs == * filter_state`
@start
proof { cnt_all((*self.matcher1).f().v().trs[s1 as int]); (*self.matcher1).f().inv_len(); cnt_all((*self.matcher2).f().v().trs[s2 as int]); (*self.matcher2).f().inv_len(); }
//@end
//@fn algorithms/compose/compose_filters/match_compose_filter.rs :: ComposeFilter for MatchComposeFilter :: filter_tr nopub
@sub `Self :: FS :: new` => `IntegerFilterState :: new`
@sub `Self :: FS :: new_no_state` => `IntegerFilterState :: new_no_state` #opt
//@end
//@fn algorithms/compose/compose_filters/match_compose_filter.rs :: ComposeFilter for MatchComposeFilter :: filter_final nopub
//@end
//@fn algorithms/compose/compose_filters/match_compose_filter.rs :: ComposeFilter for MatchComposeFilter :: matcher1 nopub
@sub `& self . matcher1` => `& * self . matcher1`
//@end
//@fn algorithms/compose/compose_filters/match_compose_filter.rs :: ComposeFilter for MatchComposeFilter :: matcher2 nopub
@sub `& self . matcher2` => `& * self . matcher2`
//@end
}
impl<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>, M1: Matcher<W, F1>, M2: Matcher<W, F2>> ComposeFilterBuilder<W, F1, F2> for MatchComposeFilterBuilder<W, F1, F2, M1, M2> {
    type CF = MatchComposeFilter<W, F1, F2, M1, M2>;
    open spec fn m1(&self) -> M1 { *self.matcher1 }
    open spec fn m2(&self) -> M2 { *self.matcher2 }
//@fn algorithms/compose/compose_filters/match_compose_filter.rs :: ComposeFilterBuilder for MatchComposeFilterBuilder :: build nopub
@sub `:: < W , F1 , F2 , B1 , B2 , M1 , M2 >` => ``
@sub `ghost :` => `gh :`
@sub `< Self :: CF as ComposeFilter < W , F1 , F2 , B1 , B2 , M1 , M2 >> :: FS :: new` => `IntegerFilterState :: new`
//@end
}

// -- each pair of paths that agree on the middle string is walked in exactly one way.
// A path as the filter sees it: the labels on the matched side and, at each state, what set_state records about it
pub struct PathV { pub l: Seq<Label>, pub i: Seq<Info> }
impl PathV {
    pub open spec fn ok(self) -> bool { self.i.len() == self.l.len() + 1 && !self.i[self.l.len() as int].all && forall|k: int| 0 <= k < self.l.len() ==> if #[trigger] self.l[k] == EPS_LABEL { !self.i[k].none } else { !self.i[k].all } }
    pub open spec fn eps(self, k: int) -> bool { k < self.l.len() && self.l[k] == EPS_LABEL }
}
// successful paths of machines are such paths
pub open spec fn is_path<W: Semiring>(v: FstV<W>, q: Seq<int>, e: Seq<int>) -> bool { q.len() == e.len() + 1 && isfin(v.fin[q.last()]) && forall|k: int| 0 <= k < e.len() ==> 0 <= (#[trigger] e[k]) < v.trs[q[k]].len() && v.trs[q[k]][e[k]].nextstate == q[k + 1] }
pub open spec fn opath<W: Semiring>(v: FstV<W>, q: Seq<int>, e: Seq<int>) -> PathV { PathV { l: Seq::new(e.len(), |k: int| v.trs[q[k]][e[k]].olabel), i: Seq::new(q.len(), |k: int| oinfo(v, q[k])) } }
pub open spec fn ipath<W: Semiring>(v: FstV<W>, q: Seq<int>, e: Seq<int>) -> PathV { PathV { l: Seq::new(e.len(), |k: int| v.trs[q[k]][e[k]].ilabel), i: Seq::new(q.len(), |k: int| iinfo(v, q[k])) } }
pub proof fn path_ok<W: Semiring>(v: FstV<W>, q: Seq<int>, e: Seq<int>) requires is_path(v, q, e) ensures opath(v, q, e).ok(), ipath(v, q, e).ok() {
    let a = opath(v, q, e); let b = ipath(v, q, e); let n = e.len() as int;
    assert(q[n] == q.last());
    assert forall|k: int| 0 <= k < a.l.len() implies if #[trigger] a.l[k] == EPS_LABEL { !a.i[k].none } else { !a.i[k].all } by { let x = e[k]; assert(v.trs[q[k]][x].olabel == a.l[k]); }
    assert forall|k: int| 0 <= k < b.l.len() implies if #[trigger] b.l[k] == EPS_LABEL { !b.i[k].none } else { !b.i[k].all } by { let x = e[k]; assert(v.trs[q[k]][x].ilabel == b.l[k]); }
}
pub enum Filt { Seq, Alt, Match }
pub open spec fn stp(w: Filt, f: u32, a: Info, b: Info, m: Mv) -> u32 { match w { Filt::Seq => seq_step(f, a, b, m), Filt::Alt => alt_step(f, a, b, m), Filt::Match => match_step(f, a, b, m) } }
// in how many ways the filter lets the rests of the two paths be walked together
pub open spec fn ways(w: Filt, p: PathV, r: PathV, i: int, j: int, f: u32) -> nat decreases (p.l.len() - i) + (r.l.len() - j) {
    if i < 0 || j < 0 || i > p.l.len() || j > r.l.len() { 0 } else if i == p.l.len() && j == r.l.len() { 1 } else {
        let m1 = stp(w, f, p.i[i], r.i[j], Mv::M1); let m2 = stp(w, f, p.i[i], r.i[j], Mv::M2); let b = stp(w, f, p.i[i], r.i[j], Mv::B); let m = stp(w, f, p.i[i], r.i[j], Mv::M);
        (if p.eps(i) && m1 != NO_STATE_ID { ways(w, p, r, i + 1, j, m1) } else { 0 })
        + (if r.eps(j) && m2 != NO_STATE_ID { ways(w, p, r, i, j + 1, m2) } else { 0 })
        + (if p.eps(i) && r.eps(j) && b != NO_STATE_ID { ways(w, p, r, i + 1, j + 1, b) } else { 0 })
        + (if i < p.l.len() && j < r.l.len() && p.l[i] == r.l[j] && p.l[i] != EPS_LABEL && m != NO_STATE_ID { ways(w, p, r, i + 1, j + 1, m) } else { 0 })
    }
}
// the strings without epsilons agree
pub open spec fn agree(p: PathV, r: PathV, i: int, j: int) -> bool decreases (p.l.len() - i) + (r.l.len() - j) {
    if i > p.l.len() || j > r.l.len() { false } else if p.eps(i) { agree(p, r, i + 1, j) } else if r.eps(j) { agree(p, r, i, j + 1) }
    else if i == p.l.len() && j == r.l.len() { true } else { i < p.l.len() && j < r.l.len() && p.l[i] == r.l[j] && agree(p, r, i + 1, j + 1) }
}
pub proof fn agree2(p: PathV, r: PathV, i: int, j: int) requires 0 <= i <= p.l.len(), 0 <= j <= r.l.len(), r.eps(j) ensures agree(p, r, i, j) == agree(p, r, i, j + 1) decreases p.l.len() - i { if p.eps(i) { agree2(p, r, i + 1, j); } }
pub open spec fn want(w: Filt, p: PathV, r: PathV, i: int, j: int, f: u32) -> bool {
    agree(p, r, i, j) && match w { Filt::Seq => f == 0 || !p.eps(i), Filt::Alt => f == 0 || !r.eps(j), Filt::Match => f == 0 || (f == 1 && !r.eps(j)) || (f == 2 && !p.eps(i)) }
}
pub proof fn one_way(w: Filt, p: PathV, r: PathV, i: int, j: int, f: u32)
    requires p.ok(), r.ok(), 0 <= i <= p.l.len(), 0 <= j <= r.l.len(), f <= (if w is Match { 2u32 } else { 1u32 })
    ensures ways(w, p, r, i, j, f) == (if want(w, p, r, i, j, f) { 1nat } else { 0nat })
    decreases (p.l.len() - i) + (r.l.len() - j)
{
    if i == p.l.len() && j == r.l.len() { } else {
        if r.eps(j) { agree2(p, r, i, j); }
        if i < p.l.len() { let x = p.l[i]; }
        if j < r.l.len() { let x = r.l[j]; }
        let m1 = stp(w, f, p.i[i], r.i[j], Mv::M1); let m2 = stp(w, f, p.i[i], r.i[j], Mv::M2);
        if p.eps(i) && m1 != NO_STATE_ID { one_way(w, p, r, i + 1, j, m1); }
        if r.eps(j) && m2 != NO_STATE_ID { one_way(w, p, r, i, j + 1, m2); }
        if p.eps(i) && r.eps(j) { agree2(p, r, i + 1, j); one_way(w, p, r, i + 1, j + 1, 0); }
        if i < p.l.len() && j < r.l.len() && p.l[i] == r.l[j] && p.l[i] != EPS_LABEL { one_way(w, p, r, i + 1, j + 1, 0); }
    }
}
// C09: from the start of the composition, two successful paths are walked together in one way if their strings agree and in none otherwise
pub proof fn compose_once<W: Semiring>(w: Filt, a: FstV<W>, qa: Seq<int>, ea: Seq<int>, b: FstV<W>, qb: Seq<int>, eb: Seq<int>)
    requires is_path(a, qa, ea), is_path(b, qb, eb)
    ensures ways(w, opath(a, qa, ea), ipath(b, qb, eb), 0, 0, 0) == (if agree(opath(a, qa, ea), ipath(b, qb, eb), 0, 0) { 1nat } else { 0nat })
{ path_ok(a, qa, ea); path_ok(b, qb, eb); one_way(w, opath(a, qa, ea), ipath(b, qb, eb), 0, 0, 0); }

// -- the operator
pub open spec fn nolab<W>(v: FstV<W>) -> bool { forall|s: int, k: int| 0 <= s < v.trs.len() && 0 <= k < v.trs[s].len() ==> (#[trigger] v.trs[s][k]).ilabel != NO_LABEL && v.trs[s][k].olabel != NO_LABEL }
#[verifier::reject_recursive_types(FS)]
//@type algorithms/compose/compose_state_tuple.rs :: struct ComposeStateTuple
//@tgen < FS >
impl<FS: Clone> Clone for ComposeStateTuple<FS> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::reject_recursive_types(T)]
//@type algorithms/compose/compose_fst_op.rs :: struct ComposeFstOpState
//@tgen < T >
//@type algorithms/compose/lookahead_filters/lookahead_selector.rs :: enum Selector
impl Copy for Selector { }
impl Clone for Selector { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
#[verifier::reject_recursive_types(FS)]
pub struct CTr<W, FS> { pub i: Label, pub o: Label, pub w: W, pub to: ComposeStateTuple<FS> }
#[verifier::reject_recursive_types(W)]
#[verifier::reject_recursive_types(F1)]
#[verifier::reject_recursive_types(F2)]
#[verifier::reject_recursive_types(CFB)]
//@type algorithms/compose/compose_fst_op.rs :: struct ComposeFstOp
//@tgen < W : Semiring , F1 : IsFinal < W > , F2 : IsFinal < W > , CFB : ComposeFilterBuilder < W , F1 , F2 > >
//@tsub `< CFB :: CF as ComposeFilter < W , F1 , F2 , B1 , B2 , CFB :: IM1 , CFB :: IM2 >> :: FS` => `FsOf < W , F1 , F2 , CFB >`
//@tsub `fst1 : B1` => `fst1 : F1`
//@tsub `fst2 : B2` => `fst2 : F2`
pub type FsOf<W, F1, F2, CFB> = <<CFB as ComposeFilterBuilder<W, F1, F2>>::CF as ComposeFilter<W, F1, F2>>::FS;
pub type M1Of<W, F1, F2, CFB> = <<CFB as ComposeFilterBuilder<W, F1, F2>>::CF as ComposeFilter<W, F1, F2>>::M1;
pub type M2Of<W, F1, F2, CFB> = <<CFB as ComposeFilterBuilder<W, F1, F2>>::CF as ComposeFilter<W, F1, F2>>::M2;
impl<W: Semiring, F1: IsFinal<W>, F2: IsFinal<W>, CFB: ComposeFilterBuilder<W, F1, F2>> ComposeFstOp<W, F1, F2, CFB> {
    pub open spec fn tt(&self) -> Seq<ComposeStateTuple<FsOf<W, F1, F2, CFB>>> { self.compose_state.state_table.t() }
    pub open spec fn v1(&self) -> FstV<W> { self.fst1.v() }
    pub open spec fn v2(&self) -> FstV<W> { self.fst2.v() }
    pub open spec fn in_range(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>) -> bool { t.s1 < self.v1().n() && t.s2 < self.v2().n() }
    // the machines are well formed, the flags they carry are true (C02), no transition carries the reserved label, and the matched side is sorted
    pub open spec fn inv(&self) -> bool {
        &&& self.fst1.inv() && self.fst2.inv() && self.v1().wf() && self.v2().wf() && nolab(self.v1()) && nolab(self.v2()) && self.v1().n() <= u32::MAX && self.v2().n() <= u32::MAX
        &&& self.compose_filter_builder.m1().f() == self.fst1 && self.compose_filter_builder.m2().f() == self.fst2
        &&& self.compose_filter_builder.m1().mt() is MatchOutput && self.compose_filter_builder.m2().mt() is MatchInput
        &&& self.match_type is MatchInput || self.match_type is MatchOutput || self.match_type is MatchBoth
        &&& self.match_type is MatchInput || self.match_type is MatchBoth ==> isorted(self.v2().trs)
        &&& self.match_type is MatchOutput || self.match_type is MatchBoth ==> osorted(self.v1().trs)
        &&& self.compose_state.state_table.inv()
        &&& forall|i: int| 0 <= i < self.tt().len() ==> self.in_range(#[trigger] self.tt()[i])
    }
    pub open spec fn ext(&self, o: &Self) -> bool {
        &&& self.compose_filter_builder == o.compose_filter_builder && self.match_type == o.match_type && self.properties == o.properties && self.fst1 == o.fst1 && self.fst2 == o.fst2
        &&& self.tt().len() >= o.tt().len() && forall|i: int| 0 <= i < o.tt().len() ==> (#[trigger] self.tt()[i]) == o.tt()[i]
    }
    // the move made of x1 and x2 at state (s1, s2, fs), if the filter lets it through
    pub open spec fn pair(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, x1: Tr<W>, x2: Tr<W>) -> Option<CTr<W, FsOf<W, F1, F2, CFB>>> {
        let g = <CFB::CF as ComposeFilter<W, F1, F2>>::step(t.fs, oinfo(self.v1(), t.s1 as int), iinfo(self.v2(), t.s2 as int), kind(x1, x2));
        if g == FsOf::<W, F1, F2, CFB>::sno() { None } else { Some(CTr { i: x1.ilabel, o: x2.olabel, w: x1.weight.stimes(x2.weight), to: ComposeStateTuple { fs: g, s1: x1.nextstate, s2: x2.nextstate } }) }
    }
    // transition b of the walked side with the items the matcher of the other side gives for it
    pub open spec fn pr(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>, x: IterItemMatcher<W>) -> Option<CTr<W, FsOf<W, F1, F2, CFB>>> {
        if mi { self.pair(t, b, item_tr(x, t.s2, MatchType::MatchInput)) } else { self.pair(t, item_tr(x, t.s1, MatchType::MatchOutput), b) }
    }
    pub open spec fn row(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>, s: Seq<IterItemMatcher<W>>, k: int) -> Seq<CTr<W, FsOf<W, F1, F2, CFB>>> decreases k {
        if k <= 0 { Seq::empty() } else { let p = self.row(t, mi, b, s, k - 1); let x = self.pr(t, mi, b, s[k - 1]); if x is Some { p.push(x->0) } else { p } }
    }
    pub open spec fn its(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>) -> Seq<IterItemMatcher<W>> {
        if mi { items(MatchType::MatchInput, self.v2().trs[t.s2 as int], b.olabel) } else { items(MatchType::MatchOutput, self.v1().trs[t.s1 as int], b.ilabel) }
    }
    pub open spec fn full(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>) -> Seq<CTr<W, FsOf<W, F1, F2, CFB>>> { self.row(t, mi, b, self.its(t, mi, b), self.its(t, mi, b).len() as int) }
    pub open spec fn stay(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool) -> Tr<W> { if mi { loop_tr(t.s1, MatchType::MatchOutput) } else { loop_tr(t.s2, MatchType::MatchInput) } }
    pub open spec fn side(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool) -> Seq<Tr<W>> { if mi { self.v1().trs[t.s1 as int] } else { self.v2().trs[t.s2 as int] } }
    // all moves: first with the walked side staying, then with each of its transitions
    pub open spec fn outs(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, n: int) -> Seq<CTr<W, FsOf<W, F1, F2, CFB>>> decreases n {
        if n <= 0 { self.full(t, mi, self.stay(t, mi)) } else { self.outs(t, mi, n - 1) + self.full(t, mi, self.side(t, mi)[n - 1]) }
    }
    pub open spec fn is_tr(&self, x: Tr<W>, c: CTr<W, FsOf<W, F1, F2, CFB>>) -> bool { x.ilabel == c.i && x.olabel == c.o && x.weight == c.w && x.nextstate < self.tt().len() && self.tt()[x.nextstate as int] == c.to }
    pub proof fn row_mono(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>, s: Seq<IterItemMatcher<W>>, j: int, k: int) requires 0 <= j <= k ensures self.row(t, mi, b, s, j).len() <= self.row(t, mi, b, s, k).len() decreases k { if j < k { self.row_mono(t, mi, b, s, j, k - 1); } }
    pub proof fn outs_mono(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, j: int, k: int) requires 0 <= j <= k ensures self.outs(t, mi, j).len() <= self.outs(t, mi, k).len() decreases k { if j < k { self.outs_mono(t, mi, j, k - 1); } }
    // specs depend only on the machines and the builder
    pub proof fn row_same(&self, o: &Self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>, s: Seq<IterItemMatcher<W>>, k: int) requires self.ext(o) ensures self.row(t, mi, b, s, k) == o.row(t, mi, b, s, k) decreases k { if k > 0 { self.row_same(o, t, mi, b, s, k - 1); } }
    pub open spec fn cf_ok(&self, c: CFB::CF, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>) -> bool { c.inv() && c.m1() == self.compose_filter_builder.m1() && c.m2() == self.compose_filter_builder.m2() && c.at() == (t.s1, t.s2, t.fs) }

//@fn algorithms/compose/compose_fst_op.rs :: ComposeFstOp :: match_type
    requires matcher1.f().inv(), matcher2.f().inv(), sound(matcher1.f().p(), matcher1.f().v()), sound(matcher2.f().p(), matcher2.f().v()), matcher1.mt() is MatchOutput, matcher2.mt() is MatchInput,
    ensures r is Ok ==> r->Ok_0 is MatchInput || r->Ok_0 is MatchOutput || r->Ok_0 is MatchBoth,
        r is Ok && (r->Ok_0 is MatchInput || r->Ok_0 is MatchBoth) ==> isorted(matcher2.f().v().trs), r is Ok && (r->Ok_0 is MatchOutput || r->Ok_0 is MatchBoth) ==> osorted(matcher1.f().v().trs),
@sub `& CFB :: IM1` => `& M1Of < W , F1 , F2 , CFB >`
@sub `& CFB :: IM2` => `& M2Of < W , F1 , F2 , CFB >`
@sub `. flags ( ) . contains ( MatcherFlags :: REQUIRE_MATCH )` => `. require_match ( )`
//@end
//@fn algorithms/compose/compose_fst_op.rs :: ComposeFstOp :: match_input
    requires self.inv(), compose_filter.m1() == self.compose_filter_builder.m1(), compose_filter.m2() == self.compose_filter_builder.m2(), s1 < self.v1().n(), s2 < self.v2().n(),
    ensures r is Ok && r->Ok_0 ==> isorted(self.v2().trs), r is Ok && !r->Ok_0 ==> osorted(self.v1().trs), r is Err ==> self.match_type is MatchBoth,
//@end
//@fn algorithms/compose/compose_fst_op.rs :: ComposeFstOp :: add_tr
    requires old(self).inv(), old(self).tt().len() + 1 < u32::MAX, arc1.nextstate < old(self).v1().n(), arc2.nextstate < old(self).v2().n(),
    ensures final(self).inv(), final(self).ext(old(self)), final(self).tt().len() <= old(self).tt().len() + 1, r is Ok,
        final(self).is_tr(r->Ok_0, CTr { i: arc1.ilabel, o: arc2.olabel, w: arc1.weight.stimes(arc2.weight), to: ComposeStateTuple { fs, s1: arc1.nextstate, s2: arc2.nextstate } }),
@sub `( & self , mut arc1` => `( & mut self , arc1`
@sub `< CFB :: CF as ComposeFilter < W , F1 , F2 , B1 , B2 , CFB :: IM1 , CFB :: IM2 >> :: FS` => `FsOf < W , F1 , F2 , CFB >`
@sub `times_assign ( arc2 . weight )` => `times_assign ( & arc2 . weight )`
@start
let mut arc1 = arc1;
@tail
proof { assert forall|i: int| 0 <= i < self.tt().len() implies self.in_range(#[trigger] self.tt()[i]) by { if i < old(self).tt().len() { assert(old(self).in_range(old(self).tt()[i])); } } }
//@end
    pub open spec fn tup(c: CFB::CF) -> ComposeStateTuple<FsOf<W, F1, F2, CFB>> { ComposeStateTuple { fs: c.at().2, s1: c.at().0, s2: c.at().1 } }
    pub open spec fn cf_in(&self, c: CFB::CF) -> bool { c.inv() && c.m1() == self.compose_filter_builder.m1() && c.m2() == self.compose_filter_builder.m2() && self.in_range(Self::tup(c)) }
    // the transition b belongs to the walked side, or is its staying loop
    pub open spec fn b_ok(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>) -> bool { if mi { b.nextstate < self.v1().n() } else { b.nextstate < self.v2().n() } }
    pub open spec fn got(&self, out: Seq<Tr<W>>, pre: Seq<Tr<W>>, x: Seq<CTr<W, FsOf<W, F1, F2, CFB>>>) -> bool { out.len() == pre.len() + x.len() && (forall|k: int| 0 <= k < pre.len() ==> #[trigger] out[k] == pre[k]) && forall|k: int| 0 <= k < x.len() ==> self.is_tr(#[trigger] out[pre.len() + k], x[k]) }
    pub proof fn got_ext(&self, o: &Self, out: Seq<Tr<W>>, pre: Seq<Tr<W>>, x: Seq<CTr<W, FsOf<W, F1, F2, CFB>>>) requires self.ext(o), o.got(out, pre, x) ensures self.got(out, pre, x) {
        assert forall|k: int| 0 <= k < x.len() implies self.is_tr(#[trigger] out[pre.len() + k], x[k]) by { assert(o.is_tr(out[pre.len() + k], x[k])); let id = out[pre.len() + k].nextstate as int; assert(self.tt()[id] == o.tt()[id]); }
    }
    pub proof fn item_ok(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>, k: int) requires self.inv(), self.in_range(t), 0 <= k < self.its(t, mi, b).len()
        ensures ({ let x = self.its(t, mi, b)[k]; let l = if mi { b.olabel } else { b.ilabel };
            (x is EpsLoop ==> l == EPS_LABEL) && (x is Tr ==> if mi { x->Tr_0.ilabel != NO_LABEL && x->Tr_0.nextstate < self.v2().n() } else { x->Tr_0.olabel != NO_LABEL && x->Tr_0.nextstate < self.v1().n() }) })
    {
        let l = if mi { b.olabel } else { b.ilabel }; let mt = if mi { MatchType::MatchInput } else { MatchType::MatchOutput }; let s = if mi { self.v2().trs[t.s2 as int] } else { self.v1().trs[t.s1 as int] };
        let l2 = if l == NO_LABEL { EPS_LABEL } else { l }; sel_mem(mt, s, l2); let q = sel(mt, s, l2);
        let x = self.its(t, mi, b)[k];
        if x is Tr { if l == EPS_LABEL { assert(q[k - 1] == x); } else { assert(q[k] == x); } assert(q.contains(x)); assert(s.contains(x->Tr_0)); let j = choose|j: int| 0 <= j < s.len() && s[j] == x->Tr_0; if mi { assert(self.v2().trs[t.s2 as int][j].nextstate < self.v2().n()); } else { assert(self.v1().trs[t.s1 as int][j].nextstate < self.v1().n()); } }
        else { if l != EPS_LABEL { assert(q.contains(x)); } }
    }
//@fn algorithms/compose/compose_fst_op.rs :: ComposeFstOp :: match_tr_selected
    requires old(self).inv(), old(self).cf_in(*old(compose_filter)), ({ let t = Self::tup(*old(compose_filter)); sa == (if match_input { t.s2 } else { t.s1 }) && it.ok() && it.rest() == old(self).its(t, match_input, *tr) && old(self).b_ok(t, match_input, *tr)
        && old(self).tt().len() + old(self).full(t, match_input, *tr).len() + 1 < u32::MAX }),
    ensures final(self).inv(), final(self).ext(old(self)), final(self).cf_in(*final(compose_filter)), final(compose_filter).at() == old(compose_filter).at(), r is Ok,
        ({ let t = Self::tup(*old(compose_filter)); let x = old(self).full(t, match_input, *tr); final(self).got(final(trs)@, old(trs)@, x) && final(self).tt().len() <= old(self).tt().len() + x.len() }),
@sub `( & self` => `( & mut self`
@sub `it : impl Iterator < Item = IterItemMatcher < W > >` => `it : impl MIter < W >`
@sub `& mut CFB :: CF` => `& mut < CFB as ComposeFilterBuilder < W , F1 , F2 > > :: CF`
@sub `for arca in it` => `while let Some ( arca ) = it . next ( )`
@sub `fs != < CFB :: CF as ComposeFilter < W , F1 , F2 , B1 , B2 , CFB :: IM1 , CFB :: IM2 >> :: FS :: new_no_state ( )` => `fs_ne ( & fs , < FsOf < W , F1 , F2 , CFB > as FilterState > :: new_no_state ( ) )`
@start
let mut it = it; let ghost t = Self::tup(*compose_filter); let ghost its = self.its(t, match_input, *tr); let ghost mut k: int = 0; let ghost n = its.len() as int; let ghost mi = match_input; let ghost pre = trs@;
proof { assert(its.skip(0) =~= its); }
@loop 0
    invariant self.inv(), self.ext(old(self)), self.cf_in(*compose_filter), compose_filter.at() == old(compose_filter).at(), t == Self::tup(*compose_filter), mi == match_input, t == Self::tup(*old(compose_filter)), old(self).inv(), pre == old(trs)@,
        sa == (if match_input { t.s2 } else { t.s1 }), match_type == (if match_input { MatchType::MatchInput } else { MatchType::MatchOutput }), it.ok(), 0 <= k <= n, n == its.len(), its == old(self).its(t, mi, *tr), it.rest() == its.skip(k), old(self).b_ok(t, mi, *tr),
        self.got(trs@, pre, old(self).row(t, mi, *tr, its, k)), self.tt().len() <= old(self).tt().len() + old(self).row(t, mi, *tr, its, k).len(),
        old(self).tt().len() + old(self).row(t, mi, *tr, its, n).len() + 1 < u32::MAX,
    ensures k == n,
    decreases n - k,
@loop_start 0
let ghost s1 = *self; let ghost t1 = trs@;
proof { assert(its.skip(k).skip(1) =~= its.skip(k + 1)); assert(arca == its[k]); old(self).item_ok(t, mi, *tr, k); old(self).row_mono(t, mi, *tr, its, k + 1, n); assert(self.v1() == old(self).v1() && self.v2() == old(self).v2()); assert(t.s1 < self.v1().n() && t.s2 < self.v2().n()); }
@loop_end 0
proof {
    let x = old(self).row(t, mi, *tr, its, k); let y = old(self).row(t, mi, *tr, its, k + 1); s1.got_ext(old(self), Seq::empty(), Seq::empty(), Seq::empty());
    self.got_ext(&s1, t1, pre, x);
    assert(self.got(trs@, pre, y)) by { assert forall|j: int| 0 <= j < y.len() implies self.is_tr(#[trigger] trs@[pre.len() + j], y[j]) by { if j < x.len() { assert(trs@[pre.len() + j] == t1[pre.len() + j]); assert(self.is_tr(t1[pre.len() + j], x[j])); } } }
    k = k + 1;
}
//@end
//@fn algorithms/compose/compose_fst_op.rs :: ComposeFstOp :: match_tr
    requires old(self).inv(), old(self).cf_in(*old(compose_filter)), match_input == (selector is Fst1Matcher2), ({ let t = Self::tup(*old(compose_filter)); sa == (if match_input { t.s2 } else { t.s1 }) && old(self).b_ok(t, match_input, *tr)
        && old(self).tt().len() + old(self).full(t, match_input, *tr).len() + 1 < u32::MAX }), if match_input { isorted(old(self).v2().trs) } else { osorted(old(self).v1().trs) },
    ensures final(self).inv(), final(self).ext(old(self)), final(self).cf_in(*final(compose_filter)), final(compose_filter).at() == old(compose_filter).at(), r is Ok,
        ({ let t = Self::tup(*old(compose_filter)); let x = old(self).full(t, match_input, *tr); final(self).got(final(trs)@, old(trs)@, x) && final(self).tt().len() <= old(self).tt().len() + x.len() }),
@sub `( & self` => `( & mut self`
@sub `& mut CFB :: CF` => `& mut < CFB as ComposeFilterBuilder < W , F1 , F2 > > :: CF`
@sub `Selector :: Fst2Matcher1 => self . match_tr_selected ( sa , tr , match_input , compose_filter , compose_filter . matcher1 ( ) . iter ( sa , label ) ? , trs , )` => `Selector :: Fst2Matcher1 => { let it = compose_filter . matcher1 ( ) . iter ( sa , label ) ? ; self . match_tr_selected ( sa , tr , match_input , compose_filter , it , trs ) }`
@sub `Selector :: Fst1Matcher2 => self . match_tr_selected ( sa , tr , match_input , compose_filter , compose_filter . matcher2 ( ) . iter ( sa , label ) ? , trs , )` => `Selector :: Fst1Matcher2 => { let it = compose_filter . matcher2 ( ) . iter ( sa , label ) ? ; self . match_tr_selected ( sa , tr , match_input , compose_filter , it , trs ) }`
//@end
    pub proof fn outs_same(&self, o: &Self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>) requires self.ext(o) ensures self.full(t, mi, b) == o.full(t, mi, b) { self.row_same(o, t, mi, b, o.its(t, mi, b), o.its(t, mi, b).len() as int); }
//@fn algorithms/compose/compose_fst_op.rs :: ComposeFstOp :: ordered_expand
    requires old(self).inv(), old(self).cf_in(compose_filter), match_input == (selector is Fst1Matcher2), ({ let t = Self::tup(compose_filter); sa == (if match_input { t.s2 } else { t.s1 }) && sb == (if match_input { t.s1 } else { t.s2 })
        && old(self).tt().len() + old(self).outs(t, match_input, old(self).side(t, match_input).len() as int).len() + 1 < u32::MAX }), if match_input { isorted(old(self).v2().trs) } else { osorted(old(self).v1().trs) },
    ensures final(self).inv(), final(self).ext(old(self)), r is Ok,
        ({ let t = Self::tup(compose_filter); final(self).got(r->Ok_0.tv(), Seq::empty(), old(self).outs(t, match_input, old(self).side(t, match_input).len() as int)) }),
@sub `( & self` => `( & mut self`
@sub `mut compose_filter : CFB :: CF` => `compose_filter : < CFB as ComposeFilterBuilder < W , F1 , F2 > > :: CF`
@sub `. borrow ( )` => ``
@start
let mut compose_filter = compose_filter; let ghost t = Self::tup(compose_filter); let ghost mi = match_input; let ghost n = self.side(t, mi).len() as int; let ghost sd = self.side(t, mi);
proof { self.outs_mono(t, mi, 0, n); }
@loop 0 it=jt
    invariant old(self).inv(), self.inv(), self.ext(old(self)), self.cf_in(compose_filter), t == Self::tup(compose_filter), match_input, selector is Fst1Matcher2, sa == t.s2, isorted(old(self).v2().trs), t.s1 < old(self).v1().n(),
        n == sd.len(), sd == old(self).v1().trs[t.s1 as int], jt.seq().len() == n, forall|k: int| 0 <= k < n ==> *(#[trigger] jt.seq()[k]) == sd[k],
        self.got(trs@, Seq::empty(), old(self).outs(t, true, jt.index@)), self.tt().len() <= old(self).tt().len() + old(self).outs(t, true, jt.index@).len(), old(self).tt().len() + old(self).outs(t, true, n).len() + 1 < u32::MAX,
@loop_start 0
let ghost s1 = *self; let ghost t1 = trs@; let ghost k = jt.index@;
proof { assert(*tr == sd[k]); assert(old(self).v1().trs[t.s1 as int][k].nextstate < old(self).v1().n()); old(self).outs_mono(t, true, k + 1, n); self.outs_same(old(self), t, true, *tr); }
@loop_end 0
proof {
    let x = old(self).outs(t, true, k); let y = old(self).full(t, true, *tr); self.got_ext(&s1, t1, Seq::empty(), x); let z = old(self).outs(t, true, k + 1); assert(z == x + y);
    assert forall|j: int| 0 <= j < z.len() implies self.is_tr(#[trigger] trs@[Seq::<Tr<W>>::empty().len() + j], z[j]) by { if j < x.len() { assert(trs@[j] == t1[j]); assert(self.is_tr(t1[Seq::<Tr<W>>::empty().len() + j], x[j])); } else { let d = j - x.len(); assert(self.is_tr(trs@[t1.len() + d], y[d])); } }
}
@loop 1 it=jt
    invariant old(self).inv(), self.inv(), self.ext(old(self)), self.cf_in(compose_filter), t == Self::tup(compose_filter), !match_input, selector is Fst2Matcher1, sa == t.s1, osorted(old(self).v1().trs), t.s2 < old(self).v2().n(),
        n == sd.len(), sd == old(self).v2().trs[t.s2 as int], jt.seq().len() == n, forall|k: int| 0 <= k < n ==> *(#[trigger] jt.seq()[k]) == sd[k],
        self.got(trs@, Seq::empty(), old(self).outs(t, false, jt.index@)), self.tt().len() <= old(self).tt().len() + old(self).outs(t, false, jt.index@).len(), old(self).tt().len() + old(self).outs(t, false, n).len() + 1 < u32::MAX,
@loop_start 1
let ghost s1 = *self; let ghost t1 = trs@; let ghost k = jt.index@;
proof { assert(*tr == sd[k]); assert(old(self).v2().trs[t.s2 as int][k].nextstate < old(self).v2().n()); old(self).outs_mono(t, false, k + 1, n); self.outs_same(old(self), t, false, *tr); }
@loop_end 1
proof {
    let x = old(self).outs(t, false, k); let y = old(self).full(t, false, *tr); self.got_ext(&s1, t1, Seq::empty(), x); let z = old(self).outs(t, false, k + 1); assert(z == x + y);
    assert forall|j: int| 0 <= j < z.len() implies self.is_tr(#[trigger] trs@[Seq::<Tr<W>>::empty().len() + j], z[j]) by { if j < x.len() { assert(trs@[j] == t1[j]); assert(self.is_tr(t1[Seq::<Tr<W>>::empty().len() + j], x[j])); } else { let d = j - x.len(); assert(self.is_tr(trs@[t1.len() + d], y[d])); } }
}
//@end
//@fn algorithms/compose/compose_fst_op.rs :: FstOp for ComposeFstOp :: compute_start
    requires old(self).inv(), old(self).tt().len() + 1 < u32::MAX,
    ensures final(self).inv(), final(self).ext(old(self)), r is Ok, r->Ok_0 is Some <==> old(self).v1().start is Some && old(self).v2().start is Some,
        r->Ok_0 is Some ==> r->Ok_0->0 < final(self).tt().len() && final(self).tt()[r->Ok_0->0 as int] == (ComposeStateTuple { fs: <CFB::CF as ComposeFilter<W, F1, F2>>::sstart(), s1: old(self).v1().start->0, s2: old(self).v2().start->0 }),
@sub `( & self` => `( & mut self`
@sub `. borrow ( )` => ``
@tail
proof { assert forall|i: int| 0 <= i < self.tt().len() implies self.in_range(#[trigger] self.tt()[i]) by { if i < old(self).tt().len() { assert(old(self).in_range(old(self).tt()[i])); } } }
//@end
//@fn algorithms/compose/compose_fst_op.rs :: FstOp for ComposeFstOp :: compute_trs
    requires old(self).inv(), state < old(self).tt().len(), ({ let t = old(self).tt()[state as int]; forall|mi: bool| old(self).tt().len() + (#[trigger] old(self).outs(t, mi, old(self).side(t, mi).len() as int)).len() + 1 < u32::MAX }),
    ensures final(self).inv(), final(self).ext(old(self)), r is Err ==> old(self).match_type is MatchBoth,
        r is Ok ==> exists|mi: bool| final(self).got(r->Ok_0.tv(), Seq::empty(), #[trigger] old(self).outs(old(self).tt()[state as int], mi, old(self).side(old(self).tt()[state as int], mi).len() as int)),
@sub `( & self` => `( & mut self`
@start
proof { assert(self.in_range(self.tt()[state as int])); }
//@end
//@fn algorithms/compose/compose_fst_op.rs :: FstOp for ComposeFstOp :: compute_final_weight
    requires self.inv(), state < self.tt().len(),
    ensures r is Ok, ({ let t = self.tt()[state as int]; let a = self.v1().fin[t.s1 as int]; let b = self.v2().fin[t.s2 as int]; r->Ok_0 == (if a is Some && b is Some && a->0.stimes(b->0) != W::szero() { Some(a->0.stimes(b->0)) } else { None }) }),
@start
proof { assert(self.in_range(self.tt()[state as int])); }
//@end
    // the moves offered at a state: two transitions that agree on the middle label, or an epsilon transition of one side while the other stays
    pub open spec fn cand(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, x1: Tr<W>, x2: Tr<W>) -> bool {
        let a = self.v1().trs[t.s1 as int]; let b = self.v2().trs[t.s2 as int];
        ||| a.contains(x1) && b.contains(x2) && x1.olabel == x2.ilabel
        ||| a.contains(x1) && x1.olabel == EPS_LABEL && x2 == loop_tr::<W>(t.s2, MatchType::MatchInput)
        ||| b.contains(x2) && x2.ilabel == EPS_LABEL && x1 == loop_tr::<W>(t.s1, MatchType::MatchOutput)
    }
    pub proof fn row_mem(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, b: Tr<W>, s: Seq<IterItemMatcher<W>>, k: int, c: CTr<W, FsOf<W, F1, F2, CFB>>) requires 0 <= k <= s.len()
        ensures self.row(t, mi, b, s, k).contains(c) <==> exists|j: int| 0 <= j < k && self.pr(t, mi, b, #[trigger] s[j]) == Some(c) decreases k
    {
        if k > 0 { self.row_mem(t, mi, b, s, k - 1, c); let p = self.row(t, mi, b, s, k - 1); let q = self.row(t, mi, b, s, k); let x = self.pr(t, mi, b, s[k - 1]);
            if x is Some { if x->0 == c { assert(q[p.len() as int] == c); } assert(q.contains(c) <==> p.contains(c) || x->0 == c) by { if q.contains(c) { let j = choose|j: int| 0 <= j < q.len() && q[j] == c; if j < p.len() { assert(p[j] == c); } } if p.contains(c) { let j = choose|j: int| 0 <= j < p.len() && p[j] == c; assert(q[j] == c); } } }
            if exists|j: int| 0 <= j < k - 1 && self.pr(t, mi, b, #[trigger] s[j]) == Some(c) { let j = choose|j: int| 0 <= j < k - 1 && self.pr(t, mi, b, #[trigger] s[j]) == Some(c); assert(0 <= j < k && self.pr(t, mi, b, s[j]) == Some(c)); }
        }
    }
    pub proof fn outs_mem(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, n: int, c: CTr<W, FsOf<W, F1, F2, CFB>>) requires 0 <= n <= self.side(t, mi).len()
        ensures self.outs(t, mi, n).contains(c) <==> (self.full(t, mi, self.stay(t, mi)).contains(c) || exists|i: int| 0 <= i < n && self.full(t, mi, #[trigger] self.side(t, mi)[i]).contains(c)) decreases n
    {
        if n > 0 { self.outs_mem(t, mi, n - 1, c); let p = self.outs(t, mi, n - 1); let f = self.full(t, mi, self.side(t, mi)[n - 1]); let q = self.outs(t, mi, n); assert(q == p + f);
            assert(q.contains(c) <==> p.contains(c) || f.contains(c)) by { if q.contains(c) { let j = choose|j: int| 0 <= j < q.len() && q[j] == c; if j < p.len() { assert(p[j] == c); } else { assert(f[j - p.len()] == c); } } if p.contains(c) { let j = choose|j: int| 0 <= j < p.len() && p[j] == c; assert(q[j] == c); } if f.contains(c) { let j = choose|j: int| 0 <= j < f.len() && f[j] == c; assert(q[p.len() + j] == c); } }
            if exists|i: int| 0 <= i < n - 1 && self.full(t, mi, #[trigger] self.side(t, mi)[i]).contains(c) { let i = choose|i: int| 0 <= i < n - 1 && self.full(t, mi, #[trigger] self.side(t, mi)[i]).contains(c); assert(0 <= i < n && self.full(t, mi, self.side(t, mi)[i]).contains(c)); }
            if f.contains(c) { let i = n - 1; assert(0 <= i < n && self.full(t, mi, self.side(t, mi)[i]).contains(c)); }
        }
    }
    // C09: whichever side is matched, the transitions out of a state are the moves the filter lets through, and only those
    pub proof fn moves(&self, t: ComposeStateTuple<FsOf<W, F1, F2, CFB>>, mi: bool, c: CTr<W, FsOf<W, F1, F2, CFB>>) requires self.inv(), self.in_range(t)
        ensures self.outs(t, mi, self.side(t, mi).len() as int).contains(c) <==> exists|x1: Tr<W>, x2: Tr<W>| self.cand(t, x1, x2) && #[trigger] self.pair(t, x1, x2) == Some(c)
    {
        let n = self.side(t, mi).len() as int; let sd = self.side(t, mi); let os = if mi { self.v2().trs[t.s2 as int] } else { self.v1().trs[t.s1 as int] }; let mt = if mi { MatchType::MatchInput } else { MatchType::MatchOutput }; let st = self.stay(t, mi);
        self.outs_mem(t, mi, n, c);
        if self.full(t, mi, st).contains(c) { self.row_mem(t, mi, st, self.its(t, mi, st), self.its(t, mi, st).len() as int, c); let j = choose|j: int| 0 <= j < self.its(t, mi, st).len() && self.pr(t, mi, st, #[trigger] self.its(t, mi, st)[j]) == Some(c); let x = self.its(t, mi, st)[j]; sel_mem(mt, os, EPS_LABEL); assert(sel(mt, os, EPS_LABEL).contains(x)); let y = x->Tr_0; if mi { assert(self.cand(t, st, y) && self.pair(t, st, y) == Some(c)); } else { assert(self.cand(t, y, st) && self.pair(t, y, st) == Some(c)); } }
        if exists|i: int| 0 <= i < n && self.full(t, mi, #[trigger] sd[i]).contains(c) {
            let i = choose|i: int| 0 <= i < n && self.full(t, mi, #[trigger] sd[i]).contains(c); let b = sd[i]; assert(sd.contains(b)); let l = if mi { b.olabel } else { b.ilabel }; let I = self.its(t, mi, b);
            assert(l != NO_LABEL) by { if mi { assert(self.v1().trs[t.s1 as int][i].olabel != NO_LABEL); } else { assert(self.v2().trs[t.s2 as int][i].ilabel != NO_LABEL); } }
            self.row_mem(t, mi, b, I, I.len() as int, c); let j = choose|j: int| 0 <= j < I.len() && self.pr(t, mi, b, #[trigger] I[j]) == Some(c); let x = I[j]; sel_mem(mt, os, l); let q = sel(mt, os, l);
            if x is Tr { if l == EPS_LABEL { assert(q[j - 1] == x); } else { assert(q[j] == x); } assert(q.contains(x)); } else if l != EPS_LABEL { assert(q[j] == x); assert(q.contains(x)); }
            let y = if mi { item_tr(x, t.s2, mt) } else { item_tr(x, t.s1, mt) }; if mi { assert(self.cand(t, b, y) && self.pair(t, b, y) == Some(c)); } else { assert(self.cand(t, y, b) && self.pair(t, y, b) == Some(c)); }
        }
        if exists|x1: Tr<W>, x2: Tr<W>| self.cand(t, x1, x2) && #[trigger] self.pair(t, x1, x2) == Some(c) {
            let (x1, x2) = choose|x1: Tr<W>, x2: Tr<W>| self.cand(t, x1, x2) && #[trigger] self.pair(t, x1, x2) == Some(c);
            let b = if mi { x1 } else { x2 }; let y = if mi { x2 } else { x1 }; let l = if mi { b.olabel } else { b.ilabel }; let I = self.its(t, mi, b);
            let l2 = if l == NO_LABEL { EPS_LABEL } else { l }; sel_mem(mt, os, l2); let q = sel(mt, os, l2);
            self.row_mem(t, mi, b, I, I.len() as int, c);
            let k: int;
            if os.contains(y) && !(b == st && l != NO_LABEL) && lab(mt, y) == l2 { let x = IterItemMatcher::Tr(y); assert(q.contains(x)); let j = choose|j: int| 0 <= j < q.len() && q[j] == x; k = if l == EPS_LABEL { j + 1 } else { j }; assert(I[k] == x); }
            else { k = 0; assert(I[0] == IterItemMatcher::<W>::EpsLoop); }
            assert(self.pr(t, mi, b, I[k]) == Some(c));
            assert(self.full(t, mi, b).contains(c));
            if sd.contains(b) { let i = choose|i: int| 0 <= i < sd.len() && sd[i] == b; assert(self.full(t, mi, sd[i]).contains(c)); } else { assert(b == st); }
        }
    }
}
}
