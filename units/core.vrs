verus! {
global size_of usize == 8;

pub type StateId = u32;
pub type Label = u32;
pub const EPS_LABEL: Label = 0;

// ---- errors: anyhow::Error without its message
#[derive(Debug)]
pub struct Error { }
pub type Result<T> = core::result::Result<T, Error>;
pub fn mk_error() -> Error { Error { } }

// Arc::make_mut: unique mutable access to the shared value, cloning it when shared
#[verifier::external_body]
pub fn arc_make_mut<T: Clone>(this: &mut Arc<T>) -> (r: &mut T)
    ensures *r == **old(this), **final(this) == *final(r),
{ Arc::make_mut(this) }
#[verifier::external_body]
pub fn arc_clone<T>(this: &Arc<T>) -> (r: Arc<T>)
    ensures *r == **this, r == *this,
{ Arc::clone(this) }

// Clone returns an equal value (assumed of every weight, label, transition and state type)
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { self.clone() } }

pub trait VCloned<T>: Sized { spec fn cl(self) -> Option<T>; fn vcloned(self) -> (r: Option<T>) ensures r == self.cl(); }
impl<'a, T: Clone> VCloned<T> for Option<&'a T> { open spec fn cl(self) -> Option<T> { if self is Some { Some(*self->0) } else { None } } #[verifier::external_body] fn vcloned(self) -> (r: Option<T>) { self.cloned() } }
// unchecked indexing: the in-bounds requirement becomes an obligation of the caller
pub trait VIndex<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn vget_unchecked(&self, i: usize) -> (r: &T) requires i < self.vseq().len(), ensures *r == self.vseq()[i as int];
    fn vget_unchecked_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).vseq().len(),
        ensures *r == old(self).vseq()[i as int], final(self).vseq() == old(self).vseq().update(i as int, *final(r));
}
impl<T> VIndex<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vget_unchecked(&self, i: usize) -> (r: &T) { &self[i] }
    #[verifier::external_body] fn vget_unchecked_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}

// standard library functions vstd has no specification for
pub assume_specification<T, A: std::alloc::Allocator, F: std::ops::FnMut() -> T> [std::vec::Vec::<T, A>::resize_with] (v: &mut std::vec::Vec<T, A>, n: usize, f: F)
    requires call_requires(f, ())
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> final(v)@[i] == old(v)@[i],
        forall|i: int| old(v)@.len() <= i < n ==> call_ensures(f, (), #[trigger] final(v)@[i]);
// vec![x; n] and slice.to_vec()
#[verifier::external_body]
pub fn vec_rep<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { vec![x; n] }
pub trait VToVec<T> { spec fn tseq(&self) -> Seq<T>; fn vto_vec(&self) -> (r: Vec<T>) ensures r@ == self.tseq(); }
impl<T: Clone> VToVec<T> for [T] { open spec fn tseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<T>) { self.to_vec() } }
impl<T: Clone> VToVec<T> for Vec<T> { open spec fn tseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vto_vec(&self) -> (r: Vec<T>) { self.to_vec() } }
// v.drain(..).collect(): every element, in order, leaving the vector empty
pub trait VDrain<T> { spec fn dseq(&self) -> Seq<T>; fn drain_all(&mut self) -> (r: Vec<T>) ensures r@ == old(self).dseq(), final(self).dseq() == Seq::<T>::empty(); }
impl<T> VDrain<T> for Vec<T> { open spec fn dseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn drain_all(&mut self) -> (r: Vec<T>) { self.drain(..).collect() } }

// ---- semirings: a type with the operations of the Semiring trait; equality is equality of values
pub trait Semiring: Clone + Sized {
    spec fn szero() -> Self;
    spec fn sone() -> Self;
    spec fn splus(self, b: Self) -> Self;
    spec fn stimes(self, b: Self) -> Self;
    fn zero() -> (r: Self) ensures r == Self::szero();
    fn one() -> (r: Self) ensures r == Self::sone();
    fn is_zero(&self) -> (r: bool) ensures r == (*self == Self::szero());
    fn is_one(&self) -> (r: bool) ensures r == (*self == Self::sone());
    fn plus(&self, rhs: &Self) -> (r: Result<Self>) ensures r is Ok, r->Ok_0 == self.splus(*rhs);
    fn times(&self, rhs: &Self) -> (r: Result<Self>) ensures r is Ok, r->Ok_0 == self.stimes(*rhs);
    fn plus_assign(&mut self, rhs: &Self) -> (r: Result<()>) ensures r is Ok, *final(self) == old(self).splus(*rhs);
    fn times_assign(&mut self, rhs: &Self) -> (r: Result<()>) ensures r is Ok, *final(self) == old(self).stimes(*rhs);
}

// ---- transitions
//@type tr.rs :: struct Tr
impl<W> Clone for Tr<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl<W> Tr<W> {
//@fn tr.rs :: Tr :: new
    ensures r == (Tr { ilabel, olabel, weight, nextstate }),
@sub `< S : Into < W > >` => ``
@sub `weight : S` => `weight : W`
@sub `weight . into ( )` => `weight`
//@end
}

// ---- property flags: a set of bits
#[derive(Clone, Copy)]
pub struct FstProperties { pub bits: u64 }
#[verifier::opaque]
pub open spec fn hasb(p: u64, i: int) -> bool { 0 <= i < 64 && (p & (1u64 << (i as u64))) != 0 }
impl FstProperties {
    #[verifier::inline] pub open spec fn has(self, i: int) -> bool { hasb(self.bits, i) }
    pub fn empty() -> (r: Self) ensures r.bits == 0 { FstProperties { bits: 0 } }
    pub fn contains(&self, o: FstProperties) -> (r: bool) ensures r == subb(o.bits, self.bits) { proof { sub_and(o.bits, self.bits); } self.bits & o.bits == o.bits }
    pub const fn bits(&self) -> (r: u64) ensures r == self.bits { self.bits }
    pub const fn from_bits_truncate(bits: u64) -> (r: Self) ensures r.bits == bits & 0x0000_ffff_ffff_0000 { FstProperties { bits: bits & 0x0000_ffff_ffff_0000 } }
}
// every bit of o is a bit of p
#[verifier::opaque]
pub open spec fn subb(o: u64, p: u64) -> bool { forall|i: int| #![trigger hasb(o, i)] #![trigger hasb(p, i)] hasb(o, i) ==> hasb(p, i) }
pub proof fn sub_and(o: u64, p: u64) ensures subb(o, p) <==> p & o == o
{
    reveal(hasb); reveal(subb);
    if p & o == o {
        assert forall|i: int| hasb(o, i) implies #[trigger] hasb(p, i) by { let j = i as u64; assert((o & (1u64 << j)) != 0 && p & o == o ==> (p & (1u64 << j)) != 0) by (bit_vector) requires j < 64; }
    }
    if p & o != o {
        assert(exists|j: u64| j < 64 && (o & (1u64 << j)) != 0 && (p & (1u64 << j)) == 0) by { low_diff(o & !p); assert(p & o != o ==> o & !p != 0) by (bit_vector); let j = choose|j: u64| j < 64 && ((o & !p) & (1u64 << j)) != 0; assert(((o & !p) & (1u64 << j)) != 0 ==> (o & (1u64 << j)) != 0 && (p & (1u64 << j)) == 0) by (bit_vector) requires j < 64; }
        let j = choose|j: u64| j < 64 && (o & (1u64 << j)) != 0 && (p & (1u64 << j)) == 0;
        assert(hasb(o, j as int) && !hasb(p, j as int));
    }
}
pub proof fn low_diff(x: u64) ensures x != 0 ==> exists|j: u64| j < 64 && (x & (1u64 << j)) != 0
{
    if x != 0 { low_bit(x, 64); }
}
pub proof fn low_bit(x: u64, n: u64) requires x != 0, n <= 64, n < 64 ==> x >> n == 0 ensures exists|j: u64| j < 64 && (x & (1u64 << j)) != 0 decreases n
{
    if n == 0 { assert(x >> 0 == x) by (bit_vector); }
    else {
        let m = (n - 1) as u64;
        if (x & (1u64 << m)) == 0 {
            if n == 64 { assert((x & (1u64 << 63)) == 0 ==> x >> 63 == 0) by (bit_vector); }
            else { assert((x & (1u64 << m)) == 0 && x >> n == 0 ==> x >> m == 0) by (bit_vector) requires n < 64, m == sub(n, 1), n > 0; }
            low_bit(x, m);
        }
    }
}
pub broadcast proof fn sub_or(a: u64, b: u64, p: u64) ensures #[trigger] subb(a | b, p) <==> (subb(a, p) && subb(b, p))
{
    reveal(subb);
    if subb(a | b, p) { assert forall|i: int| hasb(a, i) implies #[trigger] hasb(p, i) by { has_or(a, b, i); } assert forall|i: int| hasb(b, i) implies #[trigger] hasb(p, i) by { has_or(a, b, i); } }
    if subb(a, p) && subb(b, p) { assert forall|i: int| hasb(a | b, i) implies #[trigger] hasb(p, i) by { has_or(a, b, i); } }
}
pub broadcast proof fn has_or(a: u64, b: u64, i: int) ensures #[trigger] hasb(a | b, i) == (hasb(a, i) || hasb(b, i))
{ reveal(hasb); if 0 <= i < 64 { let j = i as u64; assert(((a | b) & (1u64 << j)) != 0 <==> (a & (1u64 << j)) != 0 || (b & (1u64 << j)) != 0) by (bit_vector) requires j < 64; } }
pub broadcast proof fn has_and(a: u64, b: u64, i: int) ensures #[trigger] hasb(a & b, i) == (hasb(a, i) && hasb(b, i))
{ reveal(hasb); if 0 <= i < 64 { let j = i as u64; assert(((a & b) & (1u64 << j)) != 0 <==> (a & (1u64 << j)) != 0 && (b & (1u64 << j)) != 0) by (bit_vector) requires j < 64; } }
// complement is taken within the defined flags, as bitflags does
pub broadcast proof fn has_not(a: u64, i: int) ensures #[trigger] hasb(!a, i) == (0 <= i < 64 && !hasb(a, i))
{ reveal(hasb); if 0 <= i < 64 { let j = i as u64; assert((!a & (1u64 << j)) != 0 <==> (a & (1u64 << j)) == 0) by (bit_vector) requires j < 64; } }
pub broadcast proof fn has_empty(i: int) ensures ! #[trigger] hasb(0, i)
{ reveal(hasb); if 0 <= i < 64 { let j = i as u64; assert((0u64 & (1u64 << j)) == 0) by (bit_vector); } }
pub broadcast proof fn has_mask(i: int) ensures #[trigger] hasb(0x0000_ffff_ffff_0000u64, i) == (16 <= i < 48)
{ reveal(hasb); if 0 <= i < 64 { let j = i as u64; assert((0x0000_ffff_ffff_0000u64 & (1u64 << j)) != 0 <==> 16 <= j < 48) by (bit_vector) requires j < 64; } }
impl BitOrSpecImpl for FstProperties {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, rhs: Self) -> bool { true }
    open spec fn bitor_spec(self, rhs: Self) -> Self { FstProperties { bits: self.bits | rhs.bits } }
}
impl BitOr for FstProperties { type Output = Self; fn bitor(self, rhs: Self) -> Self { FstProperties { bits: self.bits | rhs.bits } } }
impl BitAndSpecImpl for FstProperties {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, rhs: Self) -> bool { true }
    open spec fn bitand_spec(self, rhs: Self) -> Self { FstProperties { bits: self.bits & rhs.bits } }
}
impl BitAnd for FstProperties { type Output = Self; fn bitand(self, rhs: Self) -> Self { FstProperties { bits: self.bits & rhs.bits } } }
impl NotSpecImpl for FstProperties {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> Self { FstProperties { bits: !self.bits & 0x0000_ffff_ffff_0000 } }
}
impl Not for FstProperties { type Output = Self; fn not(self) -> Self { FstProperties { bits: !self.bits & 0x0000_ffff_ffff_0000 } } }
impl BitOrAssignSpecImpl<FstProperties> for FstProperties {
    open spec fn obeys_bitor_assign_spec() -> bool { true }
    open spec fn bitor_assign_req(&self, rhs: Self) -> bool { true }
    open spec fn bitor_assign_spec(&self, rhs: Self) -> &Self { &FstProperties { bits: self.bits | rhs.bits } }
}
impl BitOrAssign for FstProperties { fn bitor_assign(&mut self, rhs: Self) { *self = *self | rhs } }
impl BitAndAssignSpecImpl<FstProperties> for FstProperties {
    open spec fn obeys_bitand_assign_spec() -> bool { true }
    open spec fn bitand_assign_req(&self, rhs: Self) -> bool { true }
    open spec fn bitand_assign_spec(&self, rhs: Self) -> &Self { &FstProperties { bits: self.bits & rhs.bits } }
}
impl BitAndAssign for FstProperties { fn bitand_assign(&mut self, rhs: Self) { *self = *self & rhs } }
//@bitflags fst_properties/properties.rs :: FstProperties
}
