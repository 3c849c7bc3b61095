//@use core
verus! {
// ---- C03: the semiring laws, and the flags that promise them
pub struct SemiringProperties { pub bits: u32 }
impl SemiringProperties {
    pub const LEFT_SEMIRING: SemiringProperties = SemiringProperties { bits: 1 };
    pub const RIGHT_SEMIRING: SemiringProperties = SemiringProperties { bits: 2 };
    pub const COMMUTATIVE: SemiringProperties = SemiringProperties { bits: 4 };
    pub const IDEMPOTENT: SemiringProperties = SemiringProperties { bits: 8 };
    pub const PATH: SemiringProperties = SemiringProperties { bits: 16 };
}
impl BitOrSpecImpl for SemiringProperties { open spec fn obeys_bitor_spec() -> bool { true } open spec fn bitor_req(self, rhs: Self) -> bool { true } open spec fn bitor_spec(self, rhs: Self) -> Self { SemiringProperties { bits: self.bits | rhs.bits } } }
impl BitOr for SemiringProperties { type Output = Self; fn bitor(self, rhs: Self) -> Self { SemiringProperties { bits: self.bits | rhs.bits } } }
impl BitAndSpecImpl for SemiringProperties { open spec fn obeys_bitand_spec() -> bool { true } open spec fn bitand_req(self, rhs: Self) -> bool { true } open spec fn bitand_spec(self, rhs: Self) -> Self { SemiringProperties { bits: self.bits & rhs.bits } } }
impl BitAnd for SemiringProperties { type Output = Self; fn bitand(self, rhs: Self) -> Self { SemiringProperties { bits: self.bits & rhs.bits } } }
// the laws, of any weight type
pub open spec fn monoids<W: Semiring>() -> bool {
    &&& forall|a: W, b: W| #[trigger] a.splus(b) == b.splus(a)
    &&& forall|a: W, b: W, c: W| #[trigger] a.splus(b).splus(c) == a.splus(b.splus(c))
    &&& forall|a: W| #[trigger] W::szero().splus(a) == a
    &&& forall|a: W, b: W, c: W| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c))
    &&& forall|a: W| #[trigger] W::sone().stimes(a) == a
    &&& forall|a: W| #[trigger] a.stimes(W::sone()) == a
    &&& forall|a: W| #[trigger] W::szero().stimes(a) == W::szero()
    &&& forall|a: W| #[trigger] a.stimes(W::szero()) == W::szero()
}
pub open spec fn dist_l<W: Semiring>() -> bool { forall|a: W, b: W, c: W| a.stimes(#[trigger] b.splus(c)) == #[trigger] a.stimes(b).splus(a.stimes(c)) }
pub open spec fn dist_r<W: Semiring>() -> bool { forall|a: W, b: W, c: W| (#[trigger] b.splus(c)).stimes(a) == #[trigger] b.stimes(a).splus(c.stimes(a)) }
pub open spec fn commut<W: Semiring>() -> bool { forall|a: W, b: W| #[trigger] a.stimes(b) == b.stimes(a) }
pub open spec fn idemp<W: Semiring>() -> bool { forall|a: W| #[trigger] a.splus(a) == a }
pub open spec fn pathp<W: Semiring>() -> bool { forall|a: W, b: W| #[trigger] a.splus(b) == a || a.splus(b) == b }
// what a set of flags promises
pub open spec fn promises<W: Semiring>(r: SemiringProperties) -> bool {
    &&& (r.bits & 1 != 0 ==> dist_l::<W>()) && (r.bits & 2 != 0 ==> dist_r::<W>()) && (r.bits & 4 != 0 ==> commut::<W>()) && (r.bits & 8 != 0 ==> idemp::<W>()) && (r.bits & 16 != 0 ==> pathp::<W>())
}
pub trait SemiringP: Semiring { proof fn laws() ensures monoids::<Self>(); fn properties() -> (r: SemiringProperties) ensures promises::<Self>(r), r.bits < 32; }
pub broadcast proof fn sp_or(a: u32, b: u32) ensures (#[trigger] (a | b) & 1 != 0) == (a & 1 != 0 || b & 1 != 0), ((a | b) & 2 != 0) == (a & 2 != 0 || b & 2 != 0), ((a | b) & 4 != 0) == (a & 4 != 0 || b & 4 != 0), ((a | b) & 8 != 0) == (a & 8 != 0 || b & 8 != 0), ((a | b) & 16 != 0) == (a & 16 != 0 || b & 16 != 0), a < 32 && b < 32 ==> (a | b) < 32
{ assert(((a | b) & 1 != 0) == (a & 1 != 0 || b & 1 != 0) && ((a | b) & 2 != 0) == (a & 2 != 0 || b & 2 != 0) && ((a | b) & 4 != 0) == (a & 4 != 0 || b & 4 != 0) && ((a | b) & 8 != 0) == (a & 8 != 0 || b & 8 != 0) && ((a | b) & 16 != 0) == (a & 16 != 0 || b & 16 != 0) && (a < 32 && b < 32 ==> (a | b) < 32)) by (bit_vector); }
pub broadcast proof fn sp_and(a: u32, b: u32) ensures (#[trigger] (a & b) & 1 != 0) == (a & 1 != 0 && b & 1 != 0), ((a & b) & 2 != 0) == (a & 2 != 0 && b & 2 != 0), ((a & b) & 4 != 0) == (a & 4 != 0 && b & 4 != 0), ((a & b) & 8 != 0) == (a & 8 != 0 && b & 8 != 0), ((a & b) & 16 != 0) == (a & 16 != 0 && b & 16 != 0), a < 32 || b < 32 ==> (a & b) < 32
{ assert(((a & b) & 1 != 0) == (a & 1 != 0 && b & 1 != 0) && ((a & b) & 2 != 0) == (a & 2 != 0 && b & 2 != 0) && ((a & b) & 4 != 0) == (a & 4 != 0 && b & 4 != 0) && ((a & b) & 8 != 0) == (a & 8 != 0 && b & 8 != 0) && ((a & b) & 16 != 0) == (a & 16 != 0 && b & 16 != 0) && (a < 32 || b < 32 ==> (a & b) < 32)) by (bit_vector); }
pub proof fn sp_consts() ensures 1u32 & 1 != 0, 1u32 & 2 == 0, 1u32 & 4 == 0, 1u32 & 8 == 0, 1u32 & 16 == 0, 2u32 & 1 == 0, 2u32 & 2 != 0, 2u32 & 4 == 0, 2u32 & 8 == 0, 2u32 & 16 == 0, 4u32 & 1 == 0, 4u32 & 2 == 0, 4u32 & 4 != 0, 4u32 & 8 == 0, 4u32 & 16 == 0,
    8u32 & 1 == 0, 8u32 & 2 == 0, 8u32 & 4 == 0, 8u32 & 8 != 0, 8u32 & 16 == 0, 16u32 & 1 == 0, 16u32 & 2 == 0, 16u32 & 4 == 0, 16u32 & 8 == 0, 16u32 & 16 != 0
{ assert(1u32 & 1 != 0 && 1u32 & 2 == 0 && 1u32 & 4 == 0 && 1u32 & 8 == 0 && 1u32 & 16 == 0 && 2u32 & 1 == 0 && 2u32 & 2 != 0 && 2u32 & 4 == 0 && 2u32 & 8 == 0 && 2u32 & 16 == 0 && 4u32 & 1 == 0 && 4u32 & 2 == 0 && 4u32 & 4 != 0 && 4u32 & 8 == 0 && 4u32 & 16 == 0 && 8u32 & 1 == 0 && 8u32 & 2 == 0 && 8u32 & 4 == 0 && 8u32 & 8 != 0 && 8u32 & 16 == 0 && 16u32 & 1 == 0 && 16u32 & 2 == 0 && 16u32 & 4 == 0 && 16u32 & 8 == 0 && 16u32 & 16 != 0) by (bit_vector); }
// == of the derived implementations
#[verifier::external_body]
pub fn same<T: PartialEq>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { *a == *b }

// ---- booleans
#[derive(PartialEq, Clone, Copy)]
//@type semirings/boolean_weight.rs :: struct BooleanWeight
impl Semiring for BooleanWeight {
    open spec fn szero() -> Self { BooleanWeight { value: false } }
    open spec fn sone() -> Self { BooleanWeight { value: true } }
    open spec fn splus(self, b: Self) -> Self { BooleanWeight { value: self.value || b.value } }
    open spec fn stimes(self, b: Self) -> Self { BooleanWeight { value: self.value && b.value } }
//@fn semirings/boolean_weight.rs :: Semiring for BooleanWeight :: zero
//@end
//@fn semirings/boolean_weight.rs :: Semiring for BooleanWeight :: one
//@end
//@fn semirings/boolean_weight.rs :: Semiring for BooleanWeight :: plus_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `self . value |= rhs . value` => `self . value = self . value || rhs . value` #opt
//@end
//@fn semirings/boolean_weight.rs :: Semiring for BooleanWeight :: times_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `self . value &= rhs . value` => `self . value = self . value && rhs . value` #opt
//@end
//@fn semirings/semiring.rs :: trait Semiring :: plus
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: times
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_zero
@sub `* self == Self :: zero ( )` => `same ( self , & Self :: zero ( ) )`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_one
@sub `* self == Self :: one ( )` => `same ( self , & Self :: one ( ) )`
//@end
}
impl SemiringP for BooleanWeight {
    proof fn laws() { }
//@fn semirings/boolean_weight.rs :: Semiring for BooleanWeight :: properties nopub
@start
proof { broadcast use sp_or; sp_consts(); }
//@end
}
impl BooleanWeight {
//@fn semirings/boolean_weight.rs :: Semiring for BooleanWeight :: new
    ensures r.value == value,
@sub `< Self as Semiring > :: Type` => `bool`
//@end
//@fn semirings/boolean_weight.rs :: StarSemiring for BooleanWeight :: closure
    ensures r == BooleanWeight::sone().splus(self.stimes(r)),
//@end
//@fn semirings/boolean_weight.rs :: Semiring for BooleanWeight :: reverse
    ensures r is Ok, r->Ok_0 == *self,
@sub `Self :: ReverseWeight` => `Self`
//@end
}
// ---- vectors of labels are compared by their contents
pub uninterp spec fn mkv(s: Seq<Label>) -> Vec<Label>;
pub broadcast axiom fn mkv_view(s: Seq<Label>) ensures (#[trigger] mkv(s))@ == s;
pub broadcast axiom fn mkv_ext(v: Vec<Label>) ensures v == mkv(#[trigger] v@);
#[derive(PartialEq, Clone)]
//@type semirings/string_variant.rs :: enum StringWeightVariant
//@type semirings/string_weight.rs :: enum StringType
pub open spec fn sv(s: Seq<Label>) -> StringWeightVariant { StringWeightVariant::Labels(mkv(s)) }
pub open spec fn slab(v: StringWeightVariant) -> Seq<Label> { v->Labels_0@ }
pub open spec fn scat(a: StringWeightVariant, b: StringWeightVariant) -> StringWeightVariant { if a is Labels && b is Labels { sv(slab(a) + slab(b)) } else { StringWeightVariant::Infinity } }
pub open spec fn srev(a: StringWeightVariant) -> StringWeightVariant { if a is Labels { sv(slab(a).reverse()) } else { a } }
// longest common prefix and suffix
pub open spec fn lcp(a: Seq<Label>, b: Seq<Label>) -> Seq<Label> decreases a.len() { if a.len() == 0 || b.len() == 0 || a[0] != b[0] { Seq::empty() } else { seq![a[0]] + lcp(a.drop_first(), b.drop_first()) } }
pub open spec fn lcs(a: Seq<Label>, b: Seq<Label>) -> Seq<Label> { lcp(a.reverse(), b.reverse()).reverse() }
pub open spec fn spl(a: StringWeightVariant, b: StringWeightVariant) -> StringWeightVariant { if a is Infinity { b } else if b is Infinity { a } else { sv(lcp(slab(a), slab(b))) } }
pub open spec fn spr(a: StringWeightVariant, b: StringWeightVariant) -> StringWeightVariant { if a is Infinity { b } else if b is Infinity { a } else { sv(lcs(slab(a), slab(b))) } }
pub proof fn lcp_comm(a: Seq<Label>, b: Seq<Label>) ensures lcp(a, b) == lcp(b, a) decreases a.len() { if a.len() > 0 && b.len() > 0 && a[0] == b[0] { lcp_comm(a.drop_first(), b.drop_first()); } }
pub proof fn lcp_idem(a: Seq<Label>) ensures lcp(a, a) == a decreases a.len() { if a.len() > 0 { lcp_idem(a.drop_first()); assert(seq![a[0]] + a.drop_first() =~= a); } else { assert(a =~= Seq::empty()); } }
pub proof fn lcp_assoc(a: Seq<Label>, b: Seq<Label>, c: Seq<Label>) ensures lcp(lcp(a, b), c) == lcp(a, lcp(b, c)) decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lcp_assoc(a.drop_first(), b.drop_first(), c.drop_first());
        assert(lcp(a, b).drop_first() =~= lcp(a.drop_first(), b.drop_first())); assert(lcp(b, c).drop_first() =~= lcp(b.drop_first(), c.drop_first()));
    }
}
pub proof fn lcp_dist(c: Seq<Label>, a: Seq<Label>, b: Seq<Label>) ensures lcp(c + a, c + b) == c + lcp(a, b) decreases c.len()
{
    if c.len() == 0 { assert(c + a =~= a); assert(c + b =~= b); assert(c + lcp(a, b) =~= lcp(a, b)); }
    else { lcp_dist(c.drop_first(), a, b); assert((c + a).drop_first() =~= c.drop_first() + a); assert((c + b).drop_first() =~= c.drop_first() + b); assert(seq![c[0]] + (c.drop_first() + lcp(a, b)) =~= c + lcp(a, b)); }
}
pub proof fn rev_rev(a: Seq<Label>) ensures a.reverse().reverse() == a { assert(a.reverse().reverse() =~= a); }
pub proof fn rev_cat(a: Seq<Label>, b: Seq<Label>) ensures (a + b).reverse() == b.reverse() + a.reverse() { assert((a + b).reverse() =~= b.reverse() + a.reverse()); }
pub proof fn lcs_laws(a: Seq<Label>, b: Seq<Label>, c: Seq<Label>) ensures lcs(a, b) == lcs(b, a), lcs(a, a) == a, lcs(lcs(a, b), c) == lcs(a, lcs(b, c)), lcs(a + c, b + c) == lcs(a, b) + c
{
    let (x, y, z) = (a.reverse(), b.reverse(), c.reverse());
    lcp_comm(x, y); lcp_idem(x); rev_rev(a); lcp_assoc(x, y, z); rev_rev(lcp(x, y)); rev_rev(lcp(y, z)); rev_cat(a, c); rev_cat(b, c); lcp_dist(z, x, y); rev_cat(z, lcp(x, y)); rev_rev(c);
}
pub proof fn cat_assoc(a: Seq<Label>, b: Seq<Label>, c: Seq<Label>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
// l1.iter().zip(l2.iter()).take_while(|(v1, v2)| v1 == v2).map(|(v1, _)| v1).cloned().collect()
pub fn common_prefix(a: &Vec<Label>, b: &Vec<Label>) -> (r: Vec<Label>) ensures r@ == lcp(a@, b@)
{
    let mut r: Vec<Label> = Vec::new(); let mut i: usize = 0;
    proof { assert(a@.skip(0) =~= a@); assert(b@.skip(0) =~= b@); assert(r@ + lcp(a@, b@) =~= lcp(a@, b@)); }
    while i < a.len() && i < b.len() && a[i] == b[i]
        invariant i <= a@.len(), i <= b@.len(), r@ + lcp(a@.skip(i as int), b@.skip(i as int)) == lcp(a@, b@)
        ensures i <= a@.len(), i <= b@.len(), r@ + lcp(a@.skip(i as int), b@.skip(i as int)) == lcp(a@, b@), i == a@.len() || i == b@.len() || a@[i as int] != b@[i as int]
        decreases a.len() - i
    {
        let ghost r0 = r@;
        r.push(a[i]);
        proof { let x = a@.skip(i as int); let y = b@.skip(i as int); assert(x.drop_first() =~= a@.skip(i + 1)); assert(y.drop_first() =~= b@.skip(i + 1)); assert(r0 + (seq![x[0]] + lcp(x.drop_first(), y.drop_first())) =~= r@ + lcp(x.drop_first(), y.drop_first())); }
        i += 1;
    }
    proof { assert(r@ + Seq::<Label>::empty() =~= r@); }
    r
}
pub fn vreverse(v: Vec<Label>) -> (r: Vec<Label>) ensures r@ == v@.reverse()
{
    let mut r: Vec<Label> = Vec::new(); let mut i = v.len();
    while i > 0 invariant i <= v@.len(), r@ == v@.skip(i as int).reverse() decreases i { i -= 1; r.push(v[i]); proof { assert(v@.skip(i as int).reverse() =~= v@.skip(i + 1).reverse().push(v@[i as int])); } }
    proof { assert(v@.skip(0) =~= v@); }
    r
}
// the same chain with both iterators reversed
pub fn common_suffix_rev(a: &Vec<Label>, b: &Vec<Label>) -> (r: Vec<Label>) ensures r@ == lcp(a@.reverse(), b@.reverse()) { common_prefix(&vreverse(a.vclone()), &vreverse(b.vclone())) }
// Vec::reverse
#[verifier::external_body]
pub fn vec_reverse(v: &mut Vec<Label>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
// iter().skip(n).cloned().collect() and iter().rev().skip(n).rev().cloned().collect()
#[verifier::external_body]
pub fn vec_skip(v: &Vec<Label>, n: usize) -> (r: Vec<Label>) ensures r@ == (if n <= v@.len() { v@.skip(n as int) } else { Seq::empty() }) { v.iter().skip(n).cloned().collect() }
#[verifier::external_body]
pub fn vec_chop(v: &Vec<Label>, n: usize) -> (r: Vec<Label>) ensures r@ == (if n <= v@.len() { v@.take(v@.len() - n) } else { Seq::empty() }) { v.iter().rev().skip(n).rev().cloned().collect() }
pub proof fn vec_eq(a: Vec<Label>, b: Vec<Label>) requires a@ == b@ ensures a == b { broadcast use mkv_ext; assert(a == mkv(a@) && b == mkv(b@)); }
impl StringWeightVariant {
//@fn semirings/string_variant.rs :: StringWeightVariant :: is_labels
    ensures r == (*self is Labels),
//@end
//@fn semirings/string_variant.rs :: StringWeightVariant :: is_infinity
    ensures r == (*self is Infinity),
//@end
//@fn semirings/string_variant.rs :: StringWeightVariant :: unwrap_labels
    requires *self is Labels,
    ensures *r == self->Labels_0,
@sub `panic ! ( "lol" )` => `vstd :: pervasive :: unreached ( )`
//@end
//@fn semirings/string_variant.rs :: StringWeightVariant :: is_empty_list
    ensures r == (*self is Labels && slab(*self).len() == 0),
//@end
//@fn semirings/string_variant.rs :: StringWeightVariant :: reverse
    ensures r == srev(*self),
@sub `l2 . reverse ( )` => `vec_reverse ( & mut l2 )`
@start
proof { broadcast use mkv_ext; }
@before `StringWeightVariant :: Labels ( l2 )`
proof { assert(l2 == mkv(l2@)); }
//@end
}

#[derive(PartialEq, Clone)]
//@type semirings/string_weight.rs :: struct StringWeightLeft
impl Semiring for StringWeightLeft {
    open spec fn szero() -> Self { StringWeightLeft { value: StringWeightVariant::Infinity } }
    open spec fn sone() -> Self { StringWeightLeft { value: sv(Seq::empty()) } }
    open spec fn splus(self, b: Self) -> Self { StringWeightLeft { value: spl(self.value, b.value) } }
    open spec fn stimes(self, b: Self) -> Self { StringWeightLeft { value: scat(self.value, b.value) } }
//@fn semirings/string_weight.rs :: Semiring for semiring :: zero
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: one
@tail
proof { broadcast use mkv_ext; assert(slab(r__.value) =~= Seq::<Label>::empty()); }
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: plus_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `self . set_value ( rhs . value ( ) . vclone ( ) )` => `self . value = rhs . value . vclone ( )`
@sub `string_type` => `StringType :: StringLeft` #opt
@sub `$ StringType :: StringLeft` => `StringType :: StringLeft` #opt
@sub `self != rhs` => `! same ( self , rhs )`
@sub `l1 . iter ( ) . zip ( l2 . iter ( ) ) . take_while ( | ( v1 , v2 ) | v1 == v2 ) . map ( | ( v1 , _ ) | v1 ) . vcloned ( ) . collect ( )` => `common_prefix ( l1 , l2 )`
@sub `l1 . iter ( ) . rev ( ) . zip ( l2 . iter ( ) . rev ( ) ) . take_while ( | ( v1 , v2 ) | v1 == v2 ) . map ( | ( v1 , _ ) | v1 ) . vcloned ( ) . collect ( )` => `common_suffix_rev ( l1 , l2 )`
@sub `new_labels . into_iter ( ) . rev ( ) . collect ( )` => `vreverse ( new_labels )`
@start
proof { broadcast use mkv_ext; broadcast use mkv_view; }
@tail
proof { broadcast use mkv_ext; broadcast use mkv_view; if self.value is Labels { assert(self.value->Labels_0 == mkv(slab(self.value))); } }
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: times_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `StringWeightVariant :: Labels ( ref mut labels_left ) = self . value` => `StringWeightVariant :: Labels ( labels_left ) = & mut self . value`
@sub `StringWeightVariant :: Labels ( ref labels_right ) = rhs . value` => `StringWeightVariant :: Labels ( labels_right ) = & rhs . value`
@start
let ghost s0 = self.value;
@before_loop 0
let ghost a0 = labels_left@; let ghost b0 = labels_right@; proof { assert(a0 + b0.take(0) =~= a0); }
@loop 0 it=jt
    invariant jt.seq().len() == b0.len(), forall|k: int| 0 <= k < b0.len() ==> *(#[trigger] jt.seq()[k]) == b0[k], labels_left@ == a0 + b0.take(jt.index@ as int),
@loop_start 0
let ghost jj = jt.index@ as int;
@loop_end 0
proof { assert(*l == b0[jj]); assert(a0 + b0.take(jj + 1) =~= (a0 + b0.take(jj)).push(b0[jj])); }
@after_loop 0
proof { broadcast use mkv_ext; broadcast use mkv_view; assert(b0.take(b0.len() as int) =~= b0); assert(*labels_left == mkv(labels_left@)); }
@tail
proof { broadcast use mkv_ext; broadcast use mkv_view; if self.value is Labels { assert(self.value->Labels_0 == mkv(slab(self.value))); } }
//@end
//@fn semirings/semiring.rs :: trait Semiring :: plus
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: times
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_zero
@sub `* self == Self :: zero ( )` => `same ( self , & Self :: zero ( ) )`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_one
@sub `* self == Self :: one ( )` => `same ( self , & Self :: one ( ) )`
//@end
}

#[derive(PartialEq, Clone)]
//@type semirings/string_weight.rs :: struct StringWeightRight
impl Semiring for StringWeightRight {
    open spec fn szero() -> Self { StringWeightRight { value: StringWeightVariant::Infinity } }
    open spec fn sone() -> Self { StringWeightRight { value: sv(Seq::empty()) } }
    open spec fn splus(self, b: Self) -> Self { StringWeightRight { value: spr(self.value, b.value) } }
    open spec fn stimes(self, b: Self) -> Self { StringWeightRight { value: scat(self.value, b.value) } }
//@fn semirings/string_weight.rs :: Semiring for semiring :: zero
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: one
@tail
proof { broadcast use mkv_ext; assert(slab(r__.value) =~= Seq::<Label>::empty()); }
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: plus_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `self . set_value ( rhs . value ( ) . vclone ( ) )` => `self . value = rhs . value . vclone ( )`
@sub `string_type` => `StringType :: StringRight` #opt
@sub `$ StringType :: StringRight` => `StringType :: StringRight` #opt
@sub `self != rhs` => `! same ( self , rhs )`
@sub `l1 . iter ( ) . zip ( l2 . iter ( ) ) . take_while ( | ( v1 , v2 ) | v1 == v2 ) . map ( | ( v1 , _ ) | v1 ) . vcloned ( ) . collect ( )` => `common_prefix ( l1 , l2 )`
@sub `l1 . iter ( ) . rev ( ) . zip ( l2 . iter ( ) . rev ( ) ) . take_while ( | ( v1 , v2 ) | v1 == v2 ) . map ( | ( v1 , _ ) | v1 ) . vcloned ( ) . collect ( )` => `common_suffix_rev ( l1 , l2 )`
@sub `new_labels . into_iter ( ) . rev ( ) . collect ( )` => `vreverse ( new_labels )`
@start
proof { broadcast use mkv_ext; broadcast use mkv_view; }
@tail
proof { broadcast use mkv_ext; broadcast use mkv_view; if self.value is Labels { assert(self.value->Labels_0 == mkv(slab(self.value))); } }
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: times_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `StringWeightVariant :: Labels ( ref mut labels_left ) = self . value` => `StringWeightVariant :: Labels ( labels_left ) = & mut self . value`
@sub `StringWeightVariant :: Labels ( ref labels_right ) = rhs . value` => `StringWeightVariant :: Labels ( labels_right ) = & rhs . value`
@start
let ghost s0 = self.value;
@before_loop 0
let ghost a0 = labels_left@; let ghost b0 = labels_right@; proof { assert(a0 + b0.take(0) =~= a0); }
@loop 0 it=jt
    invariant jt.seq().len() == b0.len(), forall|k: int| 0 <= k < b0.len() ==> *(#[trigger] jt.seq()[k]) == b0[k], labels_left@ == a0 + b0.take(jt.index@ as int),
@loop_start 0
let ghost jj = jt.index@ as int;
@loop_end 0
proof { assert(*l == b0[jj]); assert(a0 + b0.take(jj + 1) =~= (a0 + b0.take(jj)).push(b0[jj])); }
@after_loop 0
proof { broadcast use mkv_ext; broadcast use mkv_view; assert(b0.take(b0.len() as int) =~= b0); assert(*labels_left == mkv(labels_left@)); }
@tail
proof { broadcast use mkv_ext; broadcast use mkv_view; if self.value is Labels { assert(self.value->Labels_0 == mkv(slab(self.value))); } }
//@end
//@fn semirings/semiring.rs :: trait Semiring :: plus
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: times
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_zero
@sub `* self == Self :: zero ( )` => `same ( self , & Self :: zero ( ) )`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_one
@sub `* self == Self :: one ( )` => `same ( self , & Self :: one ( ) )`
//@end
}
pub proof fn sl_dist(a: StringWeightLeft, b: StringWeightLeft, c: StringWeightLeft) ensures a.stimes(b.splus(c)) == a.stimes(b).splus(a.stimes(c)) { broadcast use mkv_ext; broadcast use mkv_view; lcp_dist(slab(a.value), slab(b.value), slab(c.value)); }
impl SemiringP for StringWeightLeft {
    proof fn laws() {
        broadcast use mkv_ext; broadcast use mkv_view;
        assert forall|a: StringWeightLeft, b: StringWeightLeft| #[trigger] a.splus(b) == b.splus(a) by { let c = a; lcp_comm(slab(a.value), slab(b.value)); lcp_assoc(slab(a.value), slab(b.value), slab(c.value)); }
        assert forall|a: StringWeightLeft, b: StringWeightLeft, c: StringWeightLeft| #[trigger] a.splus(b).splus(c) == a.splus(b.splus(c)) by { lcp_comm(slab(a.value), slab(b.value)); lcp_assoc(slab(a.value), slab(b.value), slab(c.value)); }
        assert forall|a: StringWeightLeft, b: StringWeightLeft, c: StringWeightLeft| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c)) by { cat_assoc(slab(a.value), slab(b.value), slab(c.value)); }
        assert forall|a: StringWeightLeft| #[trigger] StringWeightLeft::sone().stimes(a) == a by { assert(Seq::<Label>::empty() + slab(a.value) =~= slab(a.value)); }
        assert forall|a: StringWeightLeft| #[trigger] a.stimes(StringWeightLeft::sone()) == a by { assert(slab(a.value) + Seq::<Label>::empty() =~= slab(a.value)); }
    }
//@fn semirings/string_weight.rs :: Semiring for semiring :: properties nopub
@sub `string_type` => `StringType :: StringLeft` #opt
@sub `$ StringType :: StringLeft` => `StringType :: StringLeft` #opt
@start
proof { broadcast use sp_or; sp_consts(); assert forall|a: StringWeightLeft, b: StringWeightLeft, c: StringWeightLeft| a.stimes(#[trigger] b.splus(c)) == #[trigger] a.stimes(b).splus(a.stimes(c)) by { sl_dist(a, b, c); }
    assert forall|a: StringWeightLeft| #[trigger] a.splus(a) == a by { broadcast use mkv_ext; broadcast use mkv_view; lcp_idem(slab(a.value)); } }
//@end
}
impl StringWeightLeft {
//@fn semirings/string_weight.rs :: Semiring for semiring :: new
    ensures r.value == value,
@sub `< Self as Semiring > :: Type` => `StringWeightVariant`
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: value
    ensures *r == self.value,
@sub `< Self as Semiring > :: Type` => `StringWeightVariant`
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: set_value
    ensures final(self).value == value,
@sub `< Self as Semiring > :: Type` => `StringWeightVariant`
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: reverse
    ensures r is Ok, r->Ok_0.value == srev(self.value),
@sub `Self :: ReverseWeight` => `StringWeightRight`
@sub `self . value ( ) . reverse ( ) . into ( )` => `StringWeightRight :: new ( self . value ( ) . reverse ( ) )`
//@end
//@fn semirings/string_weight.rs :: WeaklyDivisibleSemiring for StringWeightLeft :: divide_assign
    requires rhs.value is Labels,
    ensures r is Ok <==> divide_type == DivideType::DivideLeft, r is Ok ==> final(self).value == sdivl(old(self).value, rhs.value), r is Err ==> *final(self) == *old(self),
@sub `divide_type != DivideType :: DivideLeft` => `! same_d ( divide_type , DivideType :: DivideLeft )`
//@end
}
pub proof fn sr_dist(a: StringWeightRight, b: StringWeightRight, c: StringWeightRight) ensures b.splus(c).stimes(a) == b.stimes(a).splus(c.stimes(a)) { broadcast use mkv_ext; broadcast use mkv_view; lcs_laws(slab(b.value), slab(c.value), slab(a.value)); }
impl SemiringP for StringWeightRight {
    proof fn laws() {
        broadcast use mkv_ext; broadcast use mkv_view;
        assert forall|a: StringWeightRight, b: StringWeightRight| #[trigger] a.splus(b) == b.splus(a) by { let c = a; lcs_laws(slab(a.value), slab(b.value), slab(c.value)); }
        assert forall|a: StringWeightRight, b: StringWeightRight, c: StringWeightRight| #[trigger] a.splus(b).splus(c) == a.splus(b.splus(c)) by { lcs_laws(slab(a.value), slab(b.value), slab(c.value)); }
        assert forall|a: StringWeightRight, b: StringWeightRight, c: StringWeightRight| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c)) by { cat_assoc(slab(a.value), slab(b.value), slab(c.value)); }
        assert forall|a: StringWeightRight| #[trigger] StringWeightRight::sone().stimes(a) == a by { assert(Seq::<Label>::empty() + slab(a.value) =~= slab(a.value)); }
        assert forall|a: StringWeightRight| #[trigger] a.stimes(StringWeightRight::sone()) == a by { assert(slab(a.value) + Seq::<Label>::empty() =~= slab(a.value)); }
    }
//@fn semirings/string_weight.rs :: Semiring for semiring :: properties nopub
@sub `string_type` => `StringType :: StringRight` #opt
@sub `$ StringType :: StringRight` => `StringType :: StringRight` #opt
@start
proof { broadcast use sp_or; sp_consts(); assert forall|a: StringWeightRight, b: StringWeightRight, c: StringWeightRight| (#[trigger] b.splus(c)).stimes(a) == #[trigger] b.stimes(a).splus(c.stimes(a)) by { sr_dist(a, b, c); }
    assert forall|a: StringWeightRight| #[trigger] a.splus(a) == a by { broadcast use mkv_ext; broadcast use mkv_view; lcs_laws(slab(a.value), slab(a.value), slab(a.value)); } }
//@end
}
impl StringWeightRight {
//@fn semirings/string_weight.rs :: Semiring for semiring :: new
    ensures r.value == value,
@sub `< Self as Semiring > :: Type` => `StringWeightVariant`
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: value
    ensures *r == self.value,
@sub `< Self as Semiring > :: Type` => `StringWeightVariant`
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: set_value
    ensures final(self).value == value,
@sub `< Self as Semiring > :: Type` => `StringWeightVariant`
//@end
//@fn semirings/string_weight.rs :: Semiring for semiring :: reverse
    ensures r is Ok, r->Ok_0.value == srev(self.value),
@sub `Self :: ReverseWeight` => `StringWeightLeft`
@sub `self . value ( ) . reverse ( ) . into ( )` => `StringWeightLeft :: new ( self . value ( ) . reverse ( ) )`
//@end
//@fn semirings/string_weight.rs :: WeaklyDivisibleSemiring for StringWeightRight :: divide_assign
    requires rhs.value is Labels,
    ensures r is Ok <==> divide_type == DivideType::DivideRight, r is Ok ==> final(self).value == sdivr(old(self).value, rhs.value), r is Err ==> *final(self) == *old(self),
@sub `divide_type != DivideType :: DivideRight` => `! same_d ( divide_type , DivideType :: DivideRight )`
//@end
}

#[derive(Clone, Copy, PartialEq)]
//@type semirings/semiring.rs :: enum DivideType
#[verifier::external_body]
pub fn same_d(a: DivideType, b: DivideType) -> (r: bool) ensures r == (a == b) { a == b }
// division on the left drops as many labels at the front as the divisor has; it undoes the product
pub open spec fn sdivl(a: StringWeightVariant, b: StringWeightVariant) -> StringWeightVariant { if a is Infinity { a } else { let n = slab(b).len(); sv(if n <= slab(a).len() { slab(a).skip(n as int) } else { Seq::empty() }) } }
pub open spec fn sdivr(a: StringWeightVariant, b: StringWeightVariant) -> StringWeightVariant { if a is Infinity { a } else { let n = slab(b).len(); sv(if n <= slab(a).len() { slab(a).take(slab(a).len() - n) } else { Seq::empty() }) } }
pub proof fn sdiv_undo(a: StringWeightVariant, b: StringWeightVariant) requires b is Labels ensures sdivl(scat(b, a), b) == a, sdivr(scat(a, b), b) == a
{
    broadcast use mkv_ext; broadcast use mkv_view;
    if a is Labels { assert((slab(b) + slab(a)).skip(slab(b).len() as int) =~= slab(a)); assert((slab(a) + slab(b)).take(slab(a).len() as int) =~= slab(a)); }
}
// what was divided out comes back: a = b * (b \ a) whenever b is a sum with a
pub proof fn sdiv_back(a: StringWeightVariant, c: StringWeightVariant) requires a is Labels || c is Labels ensures scat(spl(a, c), sdivl(a, spl(a, c))) == a, scat(sdivr(a, spr(a, c)), spr(a, c)) == a
{
    broadcast use mkv_ext; broadcast use mkv_view;
    if a is Labels && c is Labels { lcp_pre(slab(a), slab(c)); let p = lcp(slab(a), slab(c)); assert(p + slab(a).skip(p.len() as int) =~= slab(a)); let x = slab(a).reverse(); lcp_pre(x, slab(c).reverse()); let q = lcp(x, slab(c).reverse()); rev_rev(slab(a)); assert(slab(a).take(slab(a).len() - q.len()) + q.reverse() =~= slab(a)) by { assert(q =~= x.take(q.len() as int)); } }
    else if a is Labels { let e = slab(a); assert(e + e.skip(e.len() as int) =~= e); assert(e.take(0) + e =~= e); }
}
pub proof fn lcp_pre(a: Seq<Label>, b: Seq<Label>) ensures lcp(a, b).len() <= a.len(), lcp(a, b).len() <= b.len(), a.take(lcp(a, b).len() as int) == lcp(a, b) decreases a.len()
{
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] { assert(a.take(0) =~= lcp(a, b)); }
    else { lcp_pre(a.drop_first(), b.drop_first()); let m = lcp(a.drop_first(), b.drop_first()); assert(a.take((m.len() + 1) as int) =~= seq![a[0]] + a.drop_first().take(m.len() as int)); }
}
// reversal exchanges the two string semirings
pub proof fn srev_laws(a: StringWeightVariant, b: StringWeightVariant) ensures srev(srev(a)) == a, srev(scat(a, b)) == scat(srev(b), srev(a)), srev(spl(a, b)) == spr(srev(a), srev(b)), srev(spr(a, b)) == spl(srev(a), srev(b))
{
    broadcast use mkv_ext; broadcast use mkv_view;
    if a is Labels { rev_rev(slab(a)); } if b is Labels { rev_rev(slab(b)); }
    if a is Labels && b is Labels { rev_cat(slab(a), slab(b)); rev_rev(lcp(slab(a).reverse(), slab(b).reverse())); }
}
//@fn semirings/string_weight.rs :: divide_left
    requires *w2 is Labels,
    ensures r == sdivl(*w1, *w2),
@sub `panic ! ( "Unexpected" )` => `vstd :: pervasive :: unreached ( )` #all
@sub `l1 . iter ( ) . skip ( l2 . len ( ) ) . vcloned ( ) . collect ( )` => `vec_skip ( l1 , l2 . len ( ) )`
@tail
proof { broadcast use mkv_ext; broadcast use mkv_view; if r__ is Labels { assert(r__->Labels_0 == mkv(slab(r__))); } }
//@end
//@fn semirings/string_weight.rs :: divide_right
    requires *w2 is Labels,
    ensures r == sdivr(*w1, *w2),
@sub `panic ! ( "Unexpected" )` => `vstd :: pervasive :: unreached ( )` #all
@sub `l1 . iter ( ) . rev ( ) . skip ( l2 . len ( ) ) . rev ( ) . vcloned ( ) . collect ( )` => `vec_chop ( l1 , l2 . len ( ) )`
@tail
proof { broadcast use mkv_ext; broadcast use mkv_view; if r__ is Labels { assert(r__->Labels_0 == mkv(slab(r__))); } }
//@end

// ---- pairs of weights
//@type semirings/product_weight.rs :: struct ProductWeight
impl<W1: Semiring, W2: Semiring> Clone for ProductWeight<W1, W2> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
pub open spec fn pw<W1: Semiring, W2: Semiring>(a: W1, b: W2) -> ProductWeight<W1, W2> { ProductWeight { weight: (a, b) } }
#[verifier::external_body]
pub fn same_p<W1: Semiring, W2: Semiring>(a: &ProductWeight<W1, W2>, b: &ProductWeight<W1, W2>) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
impl<W1: Semiring, W2: Semiring> Semiring for ProductWeight<W1, W2> {
    open spec fn szero() -> Self { pw(W1::szero(), W2::szero()) }
    open spec fn sone() -> Self { pw(W1::sone(), W2::sone()) }
    open spec fn splus(self, b: Self) -> Self { pw(self.weight.0.splus(b.weight.0), self.weight.1.splus(b.weight.1)) }
    open spec fn stimes(self, b: Self) -> Self { pw(self.weight.0.stimes(b.weight.0), self.weight.1.stimes(b.weight.1)) }
//@fn semirings/product_weight.rs :: Semiring for ProductWeight :: zero
//@end
//@fn semirings/product_weight.rs :: Semiring for ProductWeight :: one
//@end
//@fn semirings/product_weight.rs :: Semiring for ProductWeight :: plus_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
//@end
//@fn semirings/product_weight.rs :: Semiring for ProductWeight :: times_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
//@end
//@fn semirings/semiring.rs :: trait Semiring :: plus
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: times
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_zero
@sub `* self == Self :: zero ( )` => `same_p ( self , & Self :: zero ( ) )`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_one
@sub `* self == Self :: one ( )` => `same_p ( self , & Self :: one ( ) )`
//@end
}
impl<W1: SemiringP, W2: SemiringP> SemiringP for ProductWeight<W1, W2> {
    proof fn laws() {
        W1::laws(); W2::laws();
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.splus(b).splus(c) == a.splus(b.splus(c)) by { assert(a.weight.0.splus(b.weight.0).splus(c.weight.0) == a.weight.0.splus(b.weight.0.splus(c.weight.0))); assert(a.weight.1.splus(b.weight.1).splus(c.weight.1) == a.weight.1.splus(b.weight.1.splus(c.weight.1))); }
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c)) by { assert(a.weight.0.stimes(b.weight.0).stimes(c.weight.0) == a.weight.0.stimes(b.weight.0.stimes(c.weight.0))); assert(a.weight.1.stimes(b.weight.1).stimes(c.weight.1) == a.weight.1.stimes(b.weight.1.stimes(c.weight.1))); }
    }
//@fn semirings/product_weight.rs :: Semiring for ProductWeight :: properties nopub
@tail
proof { broadcast use sp_or; broadcast use sp_and; sp_consts(); prod_props::<W1, W2>(); }
//@end
}
pub proof fn prod_props<W1: Semiring, W2: Semiring>() ensures dist_l::<W1>() && dist_l::<W2>() ==> dist_l::<ProductWeight<W1, W2>>(), dist_r::<W1>() && dist_r::<W2>() ==> dist_r::<ProductWeight<W1, W2>>(), commut::<W1>() && commut::<W2>() ==> commut::<ProductWeight<W1, W2>>(), idemp::<W1>() && idemp::<W2>() ==> idemp::<ProductWeight<W1, W2>>(),
{
    if dist_l::<W1>() && dist_l::<W2>() { assert forall|a: ProductWeight<W1, W2>, b: ProductWeight<W1, W2>, c: ProductWeight<W1, W2>| a.stimes(#[trigger] b.splus(c)) == #[trigger] a.stimes(b).splus(a.stimes(c)) by { assert(a.weight.0.stimes(b.weight.0.splus(c.weight.0)) == a.weight.0.stimes(b.weight.0).splus(a.weight.0.stimes(c.weight.0))); assert(a.weight.1.stimes(b.weight.1.splus(c.weight.1)) == a.weight.1.stimes(b.weight.1).splus(a.weight.1.stimes(c.weight.1))); } }
    if dist_r::<W1>() && dist_r::<W2>() { assert forall|a: ProductWeight<W1, W2>, b: ProductWeight<W1, W2>, c: ProductWeight<W1, W2>| (#[trigger] b.splus(c)).stimes(a) == #[trigger] b.stimes(a).splus(c.stimes(a)) by { assert(b.weight.0.splus(c.weight.0).stimes(a.weight.0) == b.weight.0.stimes(a.weight.0).splus(c.weight.0.stimes(a.weight.0))); assert(b.weight.1.splus(c.weight.1).stimes(a.weight.1) == b.weight.1.stimes(a.weight.1).splus(c.weight.1.stimes(a.weight.1))); } }
}
impl<W1: Semiring, W2: Semiring> ProductWeight<W1, W2> {
//@fn semirings/product_weight.rs :: Semiring for ProductWeight :: new
    ensures r.weight == weight,
@sub `< Self as Semiring > :: Type` => `( W1 , W2 )`
//@end
//@fn semirings/product_weight.rs :: ProductWeight :: value1
    ensures *r == self.weight.0,
//@end
//@fn semirings/product_weight.rs :: ProductWeight :: value2
    ensures *r == self.weight.1,
//@end
//@fn semirings/product_weight.rs :: ProductWeight :: set_value1
    ensures *final(self) == pw(new_weight, old(self).weight.1),
//@end
//@fn semirings/product_weight.rs :: ProductWeight :: set_value2
    ensures *final(self) == pw(old(self).weight.0, new_weight),
//@end
//@fn semirings/product_weight.rs :: Semiring for ProductWeight :: set_value
    ensures *final(self) == pw(value.0, value.1),
@sub `< Self as Semiring > :: Type` => `( W1 , W2 )`
//@end
//@fn semirings/product_weight.rs :: Semiring for ProductWeight :: take_value
    ensures r == self.weight,
@sub `< Self as Semiring > :: Type` => `( W1 , W2 )`
//@end
}

//@type semirings/gallic_weight.rs :: enum GallicType

//@type semirings/gallic_weight.rs :: struct GallicWeightLeft
impl<W: Semiring> Clone for GallicWeightLeft<W> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn same_GallicLeft<W: Semiring>(a: &GallicWeightLeft<W>, b: &GallicWeightLeft<W>) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
impl<W: Semiring> Semiring for GallicWeightLeft<W> {
    open spec fn szero() -> Self { GallicWeightLeft(ProductWeight::szero()) }
    open spec fn sone() -> Self { GallicWeightLeft(ProductWeight::sone()) }
    open spec fn splus(self, b: Self) -> Self { GallicWeightLeft(self.0.splus(b.0)) }
    open spec fn stimes(self, b: Self) -> Self { GallicWeightLeft(self.0.stimes(b.0)) }
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: zero
//@end
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: one
//@end
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: plus_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `gallic_type` => `GallicType :: GallicLeft` #opt
@sub `$ GallicType :: GallicLeft` => `GallicType :: GallicLeft` #opt
@sub `if ! natural_less ( self . value2 ( ) , rhs . value2 ( ) ) ? { self . set_value ( rhs . value ( ) . vclone ( ) ) ; }` => `` #opt
//@end
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: times_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
//@end
//@fn semirings/semiring.rs :: trait Semiring :: plus
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: times
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_zero
@sub `* self == Self :: zero ( )` => `same_GallicLeft ( self , & Self :: zero ( ) )`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_one
@sub `* self == Self :: one ( )` => `same_GallicLeft ( self , & Self :: one ( ) )`
//@end
}
impl<W: SemiringP> SemiringP for GallicWeightLeft<W> {
    proof fn laws() {
        ProductWeight::<StringWeightLeft, W>::laws();
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.splus(b).splus(c) == a.splus(b.splus(c)) by { assert(a.0.splus(b.0).splus(c.0) == a.0.splus(b.0.splus(c.0))); }
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c)) by { assert(a.0.stimes(b.0).stimes(c.0) == a.0.stimes(b.0.stimes(c.0))); }
    }
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: properties nopub
@sub `$ string_weight` => `StringWeightLeft` #opt
@sub `string_weight` => `StringWeightLeft` #opt
@tail
proof {
    if dist_l::<ProductWeight<StringWeightLeft, W>>() { assert forall|a: Self, b: Self, c: Self| a.stimes(#[trigger] b.splus(c)) == #[trigger] a.stimes(b).splus(a.stimes(c)) by { assert(a.0.stimes(b.0.splus(c.0)) == a.0.stimes(b.0).splus(a.0.stimes(c.0))); } }
    if dist_r::<ProductWeight<StringWeightLeft, W>>() { assert forall|a: Self, b: Self, c: Self| (#[trigger] b.splus(c)).stimes(a) == #[trigger] b.stimes(a).splus(c.stimes(a)) by { assert(b.0.splus(c.0).stimes(a.0) == b.0.stimes(a.0).splus(c.0.stimes(a.0))); } }
    if pathp::<ProductWeight<StringWeightLeft, W>>() { assert forall|a: Self, b: Self| #[trigger] a.splus(b) == a || a.splus(b) == b by { assert(a.0.splus(b.0) == a.0 || a.0.splus(b.0) == b.0); } }
}
//@end
}

//@type semirings/gallic_weight.rs :: struct GallicWeightRight
impl<W: Semiring> Clone for GallicWeightRight<W> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn same_GallicRight<W: Semiring>(a: &GallicWeightRight<W>, b: &GallicWeightRight<W>) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
impl<W: Semiring> Semiring for GallicWeightRight<W> {
    open spec fn szero() -> Self { GallicWeightRight(ProductWeight::szero()) }
    open spec fn sone() -> Self { GallicWeightRight(ProductWeight::sone()) }
    open spec fn splus(self, b: Self) -> Self { GallicWeightRight(self.0.splus(b.0)) }
    open spec fn stimes(self, b: Self) -> Self { GallicWeightRight(self.0.stimes(b.0)) }
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: zero
//@end
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: one
//@end
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: plus_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `gallic_type` => `GallicType :: GallicRight` #opt
@sub `$ GallicType :: GallicRight` => `GallicType :: GallicRight` #opt
@sub `if ! natural_less ( self . value2 ( ) , rhs . value2 ( ) ) ? { self . set_value ( rhs . value ( ) . vclone ( ) ) ; }` => `` #opt
//@end
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: times_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
//@end
//@fn semirings/semiring.rs :: trait Semiring :: plus
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: times
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_zero
@sub `* self == Self :: zero ( )` => `same_GallicRight ( self , & Self :: zero ( ) )`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_one
@sub `* self == Self :: one ( )` => `same_GallicRight ( self , & Self :: one ( ) )`
//@end
}
impl<W: SemiringP> SemiringP for GallicWeightRight<W> {
    proof fn laws() {
        ProductWeight::<StringWeightRight, W>::laws();
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.splus(b).splus(c) == a.splus(b.splus(c)) by { assert(a.0.splus(b.0).splus(c.0) == a.0.splus(b.0.splus(c.0))); }
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c)) by { assert(a.0.stimes(b.0).stimes(c.0) == a.0.stimes(b.0.stimes(c.0))); }
    }
//@fn semirings/gallic_weight.rs :: Semiring for semiring :: properties nopub
@sub `$ string_weight` => `StringWeightRight` #opt
@sub `string_weight` => `StringWeightRight` #opt
@tail
proof {
    if dist_l::<ProductWeight<StringWeightRight, W>>() { assert forall|a: Self, b: Self, c: Self| a.stimes(#[trigger] b.splus(c)) == #[trigger] a.stimes(b).splus(a.stimes(c)) by { assert(a.0.stimes(b.0.splus(c.0)) == a.0.stimes(b.0).splus(a.0.stimes(c.0))); } }
    if dist_r::<ProductWeight<StringWeightRight, W>>() { assert forall|a: Self, b: Self, c: Self| (#[trigger] b.splus(c)).stimes(a) == #[trigger] b.stimes(a).splus(c.stimes(a)) by { assert(b.0.splus(c.0).stimes(a.0) == b.0.stimes(a.0).splus(c.0.stimes(a.0))); } }
    if pathp::<ProductWeight<StringWeightRight, W>>() { assert forall|a: Self, b: Self| #[trigger] a.splus(b) == a || a.splus(b) == b by { assert(a.0.splus(b.0) == a.0 || a.0.splus(b.0) == b.0); } }
}
//@end
}

// ---- single precision floats, taken as exact reals with one infinity (no NaN, no rounding, no overflow)
pub enum ER { Fin(real), Inf }
#[verifier::external_body] #[derive(Clone, Copy)]
pub struct Fl { v: f32 }
impl Fl { pub uninterp spec fn er(self) -> ER; }
pub uninterp spec fn mkf(e: ER) -> Fl;
pub broadcast axiom fn mkf_er(e: ER) ensures (#[trigger] mkf(e)).er() == e;
pub broadcast axiom fn fl_ext(f: Fl) ensures f == mkf(#[trigger] f.er());
pub open spec fn er_add(a: ER, b: ER) -> ER { if a is Fin && b is Fin { ER::Fin(a->Fin_0 + b->Fin_0) } else { ER::Inf } }
pub open spec fn er_lt(a: ER, b: ER) -> bool { a is Fin && (b is Inf || a->Fin_0 < b->Fin_0) }
pub open spec fn er_min(a: ER, b: ER) -> ER { if er_lt(b, a) { b } else { a } }
#[verifier::external_body] pub fn fl_inf() -> (r: Fl) ensures r.er() == ER::Inf { unimplemented!() }
#[verifier::external_body] pub fn fl_zero() -> (r: Fl) ensures r.er() == ER::Fin(0real) { unimplemented!() }
#[verifier::external_body] pub fn fl_one() -> (r: Fl) ensures r.er() == ER::Fin(1real) { unimplemented!() }
#[verifier::external_body] pub fn fl_is_inf(a: &Fl) -> (r: bool) ensures r == (a.er() is Inf) { unimplemented!() }
#[verifier::external_body] pub fn fl_lt(a: &Fl, b: &Fl) -> (r: bool) ensures r == er_lt(a.er(), b.er()) { unimplemented!() }
#[verifier::external_body] pub fn fl_add(a: Fl, b: &Fl) -> (r: Fl) ensures r.er() == er_add(a.er(), b.er()) { unimplemented!() }
#[verifier::external_body] pub fn fl_sub(a: Fl, b: &Fl) -> (r: Fl) requires b.er() is Fin ensures r.er() == (if a.er() is Inf { ER::Inf } else { ER::Fin(a.er()->Fin_0 - b.er()->Fin_0) }) { unimplemented!() }
// weights of equal value are equal
#[verifier::external_body]
pub fn same_t(a: &TropicalWeight, b: &TropicalWeight) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[derive(Clone, Copy)]
pub struct OF(pub Fl);
#[derive(Clone, Copy)]
//@type semirings/tropical_weight.rs :: struct TropicalWeight
//@tsub `value : OrderedFloat < f32 >` => `value : OF`
pub open spec fn tw(e: ER) -> TropicalWeight { TropicalWeight { value: OF(mkf(e)) } }
impl TropicalWeight { pub open spec fn e(self) -> ER { self.value.0.er() } }

impl Semiring for TropicalWeight {
    open spec fn szero() -> Self { tw(ER::Inf) }
    open spec fn sone() -> Self { tw(ER::Fin(0real)) }
    open spec fn splus(self, b: Self) -> Self { tw(er_min(self.e(), b.e())) }
    open spec fn stimes(self, b: Self) -> Self { tw(er_add(self.e(), b.e())) }
//@fn semirings/tropical_weight.rs :: Semiring for TropicalWeight :: zero
@sub `OrderedFloat ( f32 :: INFINITY )` => `OF ( fl_inf ( ) )`
@tail
proof { broadcast use fl_ext; }
//@end
//@fn semirings/tropical_weight.rs :: Semiring for TropicalWeight :: one
@sub `OrderedFloat ( 0.0 )` => `OF ( fl_zero ( ) )`
@tail
proof { broadcast use fl_ext; }
//@end
//@fn semirings/tropical_weight.rs :: Semiring for TropicalWeight :: plus_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `rhs . value < self . value` => `fl_lt ( & rhs . value . 0 , & self . value . 0 )` #opt
@sub `self . value > rhs . value` => `fl_lt ( & rhs . value . 0 , & self . value . 0 )` #opt
@tail
proof { broadcast use fl_ext; assert(self.value.0 == mkf(self.e())); }
//@end
//@fn semirings/tropical_weight.rs :: Semiring for TropicalWeight :: times_assign
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
@sub `f1 . eq ( & f32 :: INFINITY )` => `fl_is_inf ( f1 )`
@sub `f2 . eq ( & f32 :: INFINITY )` => `fl_is_inf ( f2 )`
@sub `self . value ( )` => `& self . value . 0`
@sub `rhs . value ( )` => `& rhs . value . 0`
@sub `self . value . 0 += f2` => `self . value . 0 = fl_add ( self . value . 0 , f2 )`
@tail
proof { broadcast use fl_ext; assert(self.value.0 == mkf(self.e())); }
//@end
//@fn semirings/semiring.rs :: trait Semiring :: plus
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: times
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_zero
@sub `* self == Self :: zero ( )` => `same_t ( self , & Self :: zero ( ) )`
//@end
//@fn semirings/semiring.rs :: trait Semiring :: is_one
@sub `* self == Self :: one ( )` => `same_t ( self , & Self :: one ( ) )`
//@end
}
impl SemiringP for TropicalWeight {
    proof fn laws() { broadcast use fl_ext; broadcast use mkf_er;
        assert forall|a: Self| #[trigger] TropicalWeight::szero().splus(a) == a by { assert(a.value.0 == mkf(a.e())); }
        assert forall|a: Self| #[trigger] TropicalWeight::sone().stimes(a) == a by { assert(a.value.0 == mkf(a.e())); }
        assert forall|a: Self| #[trigger] a.stimes(TropicalWeight::sone()) == a by { assert(a.value.0 == mkf(a.e())); }
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.splus(b).splus(c) == a.splus(b.splus(c)) by { }
        assert forall|a: Self, b: Self, c: Self| #[trigger] a.stimes(b).stimes(c) == a.stimes(b.stimes(c)) by { }
    }
//@fn semirings/tropical_weight.rs :: Semiring for TropicalWeight :: properties nopub
@start
proof { broadcast use sp_or; sp_consts(); broadcast use fl_ext; broadcast use mkf_er;
    assert forall|a: Self, b: Self, c: Self| a.stimes(#[trigger] b.splus(c)) == #[trigger] a.stimes(b).splus(a.stimes(c)) by { }
    assert forall|a: Self, b: Self, c: Self| (#[trigger] b.splus(c)).stimes(a) == #[trigger] b.stimes(a).splus(c.stimes(a)) by { }
    assert forall|a: Self| #[trigger] a.splus(a) == a by { assert(a.value.0 == mkf(a.e())); }
    assert forall|a: Self, b: Self| #[trigger] a.splus(b) == a || a.splus(b) == b by { assert(a.value.0 == mkf(a.e())); assert(b.value.0 == mkf(b.e())); }
}
//@end
}
impl TropicalWeight {
//@fn semirings/tropical_weight.rs :: WeaklyDivisibleSemiring for TropicalWeight :: divide_assign
    requires rhs.e() is Fin,
    ensures r is Ok, rhs.stimes(*final(self)) == *old(self),
@sub `self . value . 0 -= rhs . value . 0` => `self . value . 0 = fl_sub ( self . value . 0 , & rhs . value . 0 )`
@tail
proof { broadcast use fl_ext; assert(old(self).value.0 == mkf(old(self).e())); }
//@end
//@fn semirings/tropical_weight.rs :: Semiring for TropicalWeight :: reverse
    ensures r is Ok, r->Ok_0 == *self,
@sub `Self :: ReverseWeight` => `Self`
//@end
}

// ---- integers: the laws are those of the mathematical integers, as long as nothing overflows
#[derive(PartialEq, Clone, Copy)]
//@type semirings/integer_weight.rs :: struct IntegerWeight
impl IntegerWeight {
//@fn semirings/integer_weight.rs :: Semiring for IntegerWeight :: zero
    ensures r.value == 0,
//@end
//@fn semirings/integer_weight.rs :: Semiring for IntegerWeight :: one
    ensures r.value == 1,
//@end
//@fn semirings/integer_weight.rs :: Semiring for IntegerWeight :: new
    ensures r.value == value,
@sub `< Self as Semiring > :: Type` => `i32`
//@end
//@fn semirings/integer_weight.rs :: Semiring for IntegerWeight :: plus_assign
    requires i32::MIN <= old(self).value + rhs.value <= i32::MAX,
    ensures r is Ok, final(self).value == old(self).value + rhs.value,
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
//@end
//@fn semirings/integer_weight.rs :: Semiring for IntegerWeight :: times_assign
    requires i32::MIN <= old(self).value * rhs.value <= i32::MAX,
    ensures r is Ok, final(self).value == old(self).value * rhs.value,
@sub `< P : Borrow < Self > >` => ``
@sub `rhs : P` => `rhs : & Self`
@sub `rhs . borrow ( )` => `rhs` #all
//@end
//@fn semirings/integer_weight.rs :: Semiring for IntegerWeight :: reverse
    ensures r is Ok, r->Ok_0 == *self,
@sub `Self :: ReverseWeight` => `Self`
//@end
//@fn semirings/integer_weight.rs :: Semiring for IntegerWeight :: properties
    ensures r.bits & 8 == 0, r.bits & 16 == 0,
@start
proof { broadcast use sp_or; sp_consts(); }
//@end
}
}
