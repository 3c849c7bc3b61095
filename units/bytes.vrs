//@use core
verus! {
// ---- C13: the binary form. nom's parsers are functions from bytes to a result and the rest (IResult is Result here).
pub open spec fn starts(i: Seq<u8>, e: Seq<u8>) -> bool { e.len() <= i.len() && i.take(e.len() as int) == e }
pub proof fn starts_cat(i: Seq<u8>, a: Seq<u8>, b: Seq<u8>) ensures starts(i, a + b) <==> starts(i, a) && starts(i.skip(a.len() as int), b) {
    if starts(i, a + b) { assert(i.take(a.len() as int) =~= (a + b).take(a.len() as int)); assert((a + b).take(a.len() as int) =~= a); assert(i.skip(a.len() as int).take(b.len() as int) =~= i.take((a + b).len() as int).skip(a.len() as int)); assert((a + b).skip(a.len() as int) =~= b); }
    if starts(i, a) && starts(i.skip(a.len() as int), b) { assert(i.take((a + b).len() as int) =~= i.take(a.len() as int) + i.skip(a.len() as int).take(b.len() as int)); }
}
pub type PResult<'a, T> = Result<(&'a [u8], T)>;
// what a parser must do on the bytes that were written for x
pub open spec fn rd<T>(i: Seq<u8>, e: Seq<u8>, x: T, r: PResult<T>) -> bool { starts(i, e) ==> r is Ok && (r->Ok_0).1 == x && (r->Ok_0).0@ == i.skip(e.len() as int) }
// std::io::Write: a sink that takes bytes in order
pub trait Write: Sized {
    spec fn w(&self) -> Seq<u8>;
    fn write_all(&mut self, b: &[u8]) -> (r: Result<()>) ensures r is Ok ==> final(self).w() == old(self).w() + b@;
}
// to_le_bytes and nom's le_* (assumed inverse of each other, of fixed length)
pub uninterp spec fn b4(x: i32) -> Seq<u8>;
pub uninterp spec fn b8(x: i64) -> Seq<u8>;
pub uninterp spec fn bu4(x: u32) -> Seq<u8>;
pub uninterp spec fn bu8(x: u64) -> Seq<u8>;
pub trait LeBytes: Sized { spec fn le(self) -> Seq<u8>; fn vle(&self) -> (r: Vec<u8>) ensures r@ == self.le(); }
impl LeBytes for i32 { open spec fn le(self) -> Seq<u8> { b4(self) } #[verifier::external_body] fn vle(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } }
impl LeBytes for i64 { open spec fn le(self) -> Seq<u8> { b8(self) } #[verifier::external_body] fn vle(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } }
impl LeBytes for u32 { open spec fn le(self) -> Seq<u8> { bu4(self) } #[verifier::external_body] fn vle(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } }
impl LeBytes for u64 { open spec fn le(self) -> Seq<u8> { bu8(self) } #[verifier::external_body] fn vle(&self) -> (r: Vec<u8>) { self.to_le_bytes().to_vec() } }
#[verifier::external_body]
pub fn le_i32(i: &[u8]) -> (r: PResult<i32>) ensures r is Ok ==> (r->Ok_0).0@.len() + 4 == i@.len(), forall|x: i32| rd(i@, #[trigger] b4(x), x, r) { unimplemented!() }
#[verifier::external_body]
pub fn le_i64(i: &[u8]) -> (r: PResult<i64>) ensures r is Ok ==> (r->Ok_0).0@.len() + 8 == i@.len(), forall|x: i64| rd(i@, #[trigger] b8(x), x, r) { unimplemented!() }
#[verifier::external_body]
pub fn le_u32(i: &[u8]) -> (r: PResult<u32>) ensures r is Ok ==> (r->Ok_0).0@.len() + 4 == i@.len(), forall|x: u32| rd(i@, #[trigger] bu4(x), x, r) { unimplemented!() }
#[verifier::external_body]
pub fn le_u64(i: &[u8]) -> (r: PResult<u64>) ensures r is Ok ==> (r->Ok_0).0@.len() + 8 == i@.len(), forall|x: u64| rd(i@, #[trigger] bu8(x), x, r) { unimplemented!() }
//@fn parsers/utils_parsing.rs :: parse_bin_i64
    ensures r is Ok ==> (r->Ok_0).0@.len() + 8 == i@.len(), forall|x: i64| rd(i@, #[trigger] b8(x), x, r),
@sub `IResult < & [ u8 ] , i64 , NomCustomError < & [ u8 ] > >` => `PResult < '_ , i64 >`
//@end
//@fn parsers/utils_parsing.rs :: parse_bin_u64
    ensures r is Ok ==> (r->Ok_0).0@.len() + 8 == i@.len(), forall|x: u64| rd(i@, #[trigger] bu8(x), x, r),
@sub `IResult < & [ u8 ] , u64 , NomCustomError < & [ u8 ] > >` => `PResult < '_ , u64 >`
//@end
//@fn parsers/utils_parsing.rs :: parse_bin_i32
    ensures r is Ok ==> (r->Ok_0).0@.len() + 4 == i@.len(), forall|x: i32| rd(i@, #[trigger] b4(x), x, r),
@sub `IResult < & [ u8 ] , i32 , NomCustomError < & [ u8 ] > >` => `PResult < '_ , i32 >`
//@end
//@fn parsers/utils_parsing.rs :: parse_bin_u32
    ensures r is Ok ==> (r->Ok_0).0@.len() + 4 == i@.len(), forall|x: u32| rd(i@, #[trigger] bu4(x), x, r),
@sub `IResult < & [ u8 ] , u32 , NomCustomError < & [ u8 ] > >` => `PResult < '_ , u32 >`
//@end
//@fn parsers/utils_serialization.rs :: write_bin_i32
    ensures r is Ok ==> final(file).w() == old(file).w() + b4(i),
@sub `& i . to_le_bytes ( )` => `i . vle ( ) . as_slice ( )`
@sub `. map_err ( | e | e . into ( ) )` => ``
//@end
//@fn parsers/utils_serialization.rs :: write_bin_i64
    ensures r is Ok ==> final(file).w() == old(file).w() + b8(i),
@sub `& i . to_le_bytes ( )` => `i . vle ( ) . as_slice ( )`
@sub `. map_err ( | e | e . into ( ) )` => ``
//@end
//@fn parsers/utils_serialization.rs :: write_bin_u32
    ensures r is Ok ==> final(file).w() == old(file).w() + bu4(i),
@sub `& i . to_le_bytes ( )` => `i . vle ( ) . as_slice ( )`
@sub `. map_err ( | e | e . into ( ) )` => ``
//@end
//@fn parsers/utils_serialization.rs :: write_bin_u64
    ensures r is Ok ==> final(file).w() == old(file).w() + bu8(i),
@sub `& i . to_le_bytes ( )` => `i . vle ( ) . as_slice ( )`
@sub `. map_err ( | e | e . into ( ) )` => ``
//@end
// -- sequences of things that have a binary form
pub trait Enc: Sized { spec fn e(self) -> Seq<u8>; }
pub open spec fn ecat<T: Enc>(s: Seq<T>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { ecat(s.drop_last()) + s.last().e() } }
pub proof fn ecat_take<T: Enc>(s: Seq<T>, k: int) requires 0 <= k < s.len() ensures ecat(s.take(k + 1)) == ecat(s.take(k)) + s[k].e()
{ assert(s.take(k + 1).drop_last() =~= s.take(k)); }
pub proof fn ecat_starts<T: Enc>(i: Seq<u8>, s: Seq<T>, k: int) requires starts(i, ecat(s)), 0 <= k <= s.len() ensures starts(i, ecat(s.take(k))) decreases s.len() - k
{ if k == s.len() { assert(s.take(k) =~= s); } else { ecat_starts(i, s, k + 1); ecat_take(s, k); starts_cat(i, ecat(s.take(k)), s[k].e()); } }
pub proof fn ecat_step<T: Enc>(i: Seq<u8>, s: Seq<T>, k: int) requires starts(i, ecat(s)), 0 <= k < s.len()
    ensures starts(i.skip(ecat(s.take(k)).len() as int), s[k].e()), i.skip(ecat(s.take(k)).len() as int).skip(s[k].e().len() as int) == i.skip(ecat(s.take(k + 1)).len() as int)
{ ecat_starts(i, s, k + 1); ecat_take(s, k); starts_cat(i, ecat(s.take(k)), s[k].e()); assert(i.skip(ecat(s.take(k)).len() as int).skip(s[k].e().len() as int) =~= i.skip(ecat(s.take(k + 1)).len() as int)); }
// -- strings (UTF-8 bytes, assumed to be read back), symbol tables (assumed; checked by the stand-in)
pub uninterp spec fn sb(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn str_blen(s: &String) -> (r: usize) ensures r == sb(s@).len() { s.len() }
#[verifier::external_body]
pub fn write_str<O: Write>(file: &mut O, s: &String) -> (r: Result<()>) ensures r is Ok ==> final(file).w() == old(file).w() + sb(s@) { unimplemented!() }
#[verifier::external_body]
pub fn take_n(n: usize, i: &[u8]) -> (r: PResult<&[u8]>) ensures r is Ok ==> (r->Ok_0).0@.len() <= i@.len(), n <= i@.len() ==> r is Ok && (r->Ok_0).1@ == i@.take(n as int) && (r->Ok_0).0@ == i@.skip(n as int) { unimplemented!() }
#[verifier::external_body]
pub fn utf8(v: &[u8]) -> (r: String) ensures forall|x: Seq<char>| v@ == #[trigger] sb(x) ==> r@ == x { unimplemented!() }
#[verifier::external_body]
pub fn str_same(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
//@type parsers/bin_fst/fst_header.rs :: struct OpenFstString
pub open spec fn estr(s: Seq<char>) -> Seq<u8> { b4(sb(s).len() as i32) + sb(s) }
pub open spec fn fits(s: Seq<char>) -> bool { sb(s).len() <= i32::MAX }
impl OpenFstString {
    pub open spec fn ok(&self) -> bool { self.n >= 0 && self.n == sb(self.s@).len() }
    pub open spec fn e(&self) -> Seq<u8> { b4(self.n) + sb(self.s@) }
//@fn parsers/bin_fst/fst_header.rs :: OpenFstString :: new
    ensures r.s@ == s@, sb(s@).len() <= i32::MAX ==> r.ok(),
@sub `< I : Into < String > >` => ``
@sub `s : I` => `s : String`
@sub `s . into ( )` => `s`
@sub `_s . len ( )` => `str_blen ( & _s )`
//@end
//@fn parsers/bin_fst/fst_header.rs :: OpenFstString :: write
    ensures r is Ok ==> final(file).w() == old(file).w() + self.e(),
@sub `file . write_all ( self . s . as_bytes ( ) ) . map_err ( | e | e . into ( ) )` => `write_str ( file , & self . s )`
@tail
proof { if r__ is Ok { assert(file.w() =~= old(file).w() + self.e()); } }
//@end
//@fn parsers/bin_fst/fst_header.rs :: OpenFstString :: parse
    ensures r is Ok ==> (r->Ok_0).0@.len() < i@.len(), forall|s: Seq<char>| starts(i@, #[trigger] estr(s)) && fits(s) ==> r is Ok && (r->Ok_0).1.s@ == s && (r->Ok_0).0@ == i@.skip(estr(s).len() as int),
        forall|x: OpenFstString| starts(i@, #[trigger] x.e()) && x.ok() ==> r is Ok && (r->Ok_0).1.s@ == x.s@ && (r->Ok_0).1.n == x.n && (r->Ok_0).0@ == i@.skip(x.e().len() as int),
@sub `IResult < & [ u8 ] , OpenFstString , NomCustomError < & [ u8 ] > >` => `PResult < '_ , OpenFstString >`
@sub `take ( n as usize ) ( i )` => `take_n ( n as usize , i )`
@sub `String :: from_utf8 ( s . vto_vec ( ) ) . unwrap ( )` => `utf8 ( s )`
@start
let ghost i0 = i@;
proof { assert forall|s: Seq<char>| starts(i0, #[trigger] estr(s)) && fits(s) implies starts(i0, b4(sb(s).len() as i32)) && starts(i0.skip(b4(sb(s).len() as i32).len() as int), sb(s)) && i0.skip(b4(sb(s).len() as i32).len() as int).skip(sb(s).len() as int) == i0.skip(estr(s).len() as int) by { let b = b4(sb(s).len() as i32); starts_cat(i0, b, sb(s)); assert(i0.skip(b.len() as int).skip(sb(s).len() as int) =~= i0.skip(estr(s).len() as int)); } }
proof { assert forall|x: OpenFstString| starts(i0, #[trigger] x.e()) && x.ok() implies starts(i0, b4(x.n)) && starts(i0.skip(b4(x.n).len() as int), sb(x.s@)) && i0.skip(b4(x.n).len() as int).skip(sb(x.s@).len() as int) == i0.skip(x.e().len() as int) by { starts_cat(i0, b4(x.n), sb(x.s@)); assert(i0.skip(b4(x.n).len() as int).skip(sb(x.s@).len() as int) =~= i0.skip(x.e().len() as int)); } }
//@end
}
#[verifier::external_body]
pub fn verr() -> (r: Error) { unimplemented!() }
// nom's verify: the parser, and an error when the value does not satisfy the condition
pub fn verify_eq(i: &[u8], m: i32) -> (r: PResult<i32>) ensures r is Ok ==> (r->Ok_0).0@.len() <= i@.len(), rd(i@, b4(m), m, r) {
    let (i, v) = parse_bin_i32(i)?; if v == m { Ok((i, v)) } else { Err(verr()) }
}
pub fn verify_ge(i: &[u8], m: i32) -> (r: PResult<i32>) ensures forall|x: i32| x >= m ==> rd(i@, #[trigger] b4(x), x, r) {
    let (i, v) = parse_bin_i32(i)?; if v >= m { Ok((i, v)) } else { Err(verr()) }
}
pub fn verify_str<'a>(i: &'a [u8], s: &String) -> (r: PResult<'a, OpenFstString>)
    ensures forall|x: OpenFstString| starts(i@, #[trigger] x.e()) && x.ok() && x.s@ == s@ ==> r is Ok && (r->Ok_0).1.s@ == x.s@ && (r->Ok_0).1.n == x.n && (r->Ok_0).0@ == i@.skip(x.e().len() as int) {
    let (i, v) = OpenFstString::parse(i)?; if str_same(&v.s, s) { Ok((i, v)) } else { Err(verr()) }
}
}
