//@use cst
//@use bytes
verus! {
// a weight and its binary form (assumed to read back; each weight type is checked by the stand-in)
pub trait SerializableSemiring: Semiring {
    spec fn enc(self) -> Seq<u8>;
    fn parse_binary(i: &[u8]) -> (r: PResult<Self>) ensures forall|x: Self| rd(i@, #[trigger] x.enc(), x, r);
    fn write_binary<O: Write>(&self, file: &mut O) -> (r: Result<()>) ensures r is Ok ==> final(file).w() == old(file).w() + self.enc();
}
// -- transitions
pub open spec fn etr<W: SerializableSemiring>(t: Tr<W>) -> Seq<u8> { b4(t.ilabel as i32) + (b4(t.olabel as i32) + (t.weight.enc() + b4(t.nextstate as i32))) }
pub proof fn u_i_u(x: u32) ensures (x as i32) as u32 == x { assert((x as i32) as u32 == x) by (bit_vector); }
//@fn parsers/bin_fst/utils_serialization.rs :: write_bin_fst_tr
    ensures r is Ok ==> final(file).w() == old(file).w() + etr(*tr),
@tail
proof { if r__ is Ok { assert(file.w() =~= old(file).w() + etr(*tr)); } }
//@end
//@fn parsers/bin_fst/utils_parsing.rs :: parse_bin_fst_tr
    ensures forall|t: Tr<W>| rd(i@, #[trigger] etr(t), t, r),
@sub `IResult < & [ u8 ] , Tr < W > , NomCustomError < & [ u8 ] > >` => `PResult < '_ , Tr < W > >`
@start
let ghost i0 = i@;
proof {
    assert forall|t: Tr<W>| starts(i0, #[trigger] etr(t)) implies ({ let a = b4(t.ilabel as i32); let b = b4(t.olabel as i32); let c = t.weight.enc(); let d = b4(t.nextstate as i32); let j = i0.skip(a.len() as int); let k = j.skip(b.len() as int); let l = k.skip(c.len() as int);
        starts(i0, a) && starts(j, b) && starts(k, c) && starts(l, d) && l.skip(d.len() as int) == i0.skip(etr(t).len() as int) && (t.ilabel as i32) as u32 == t.ilabel && (t.olabel as i32) as u32 == t.olabel && (t.nextstate as i32) as u32 == t.nextstate }) by
    { let a = b4(t.ilabel as i32); let b = b4(t.olabel as i32); let c = t.weight.enc(); let d = b4(t.nextstate as i32); let j = i0.skip(a.len() as int); let k = j.skip(b.len() as int); let l = k.skip(c.len() as int);
      starts_cat(i0, a, b + (c + d)); starts_cat(j, b, c + d); starts_cat(k, c, d); assert(l.skip(d.len() as int) =~= i0.skip(etr(t).len() as int)); u_i_u(t.ilabel); u_i_u(t.olabel); u_i_u(t.nextstate); }
}
//@end
//@fn parsers/bin_fst/utils_parsing.rs :: parse_start_state
    ensures s == -1 ==> r is None, 0 <= s <= u32::MAX ==> r == Some(s as StateId),
//@end
pub open spec fn nz<W: Semiring>(w: W) -> Option<W> { if w == W::szero() { None } else { Some(w) } }
pub open spec fn oz<W: Semiring>(w: Option<W>) -> W { if w is Some { w->0 } else { W::szero() } }
//@fn parsers/bin_fst/utils_parsing.rs :: parse_final_weight
    ensures r == nz(weight),
@sub `weight != zero_weight` => `! weight . is_zero ( )`
//@end

impl<W: SerializableSemiring> Enc for Tr<W> { open spec fn e(self) -> Seq<u8> { etr(self) } }
// nom's count: the parser, n times, in order
#[verifier::loop_isolation(false)]
pub fn count_tr<'a, W: SerializableSemiring>(n: usize, i: &'a [u8]) -> (r: PResult<'a, Vec<Tr<W>>>)
    ensures forall|ts: Seq<Tr<W>>| starts(i@, #[trigger] ecat(ts)) && ts.len() == n ==> r is Ok && (r->Ok_0).1@ == ts && (r->Ok_0).0@ == i@.skip(ecat(ts).len() as int),
{
    let ghost i0 = i@;
    let mut i: &'a [u8] = i;
    let mut out: Vec<Tr<W>> = Vec::new();
    let mut k: usize = 0;
    proof { assert forall|ts: Seq<Tr<W>>| starts(i0, #[trigger] ecat(ts)) && ts.len() == n implies i0 == i0.skip(ecat(ts.take(0)).len() as int) by { assert(ts.take(0) =~= Seq::<Tr<W>>::empty()); assert(i0.skip(0) =~= i0); } }
    while k < n
        invariant k <= n, out@.len() == k, forall|ts: Seq<Tr<W>>| starts(i0, #[trigger] ecat(ts)) && ts.len() == n ==> out@ == ts.take(k as int) && i@ == i0.skip(ecat(ts.take(k as int)).len() as int),
        decreases n - k,
    {
        proof { assert forall|ts: Seq<Tr<W>>| starts(i0, #[trigger] ecat(ts)) && ts.len() == n implies starts(i@, etr(ts[k as int])) && i@.skip(etr(ts[k as int]).len() as int) == i0.skip(ecat(ts.take(k + 1)).len() as int) && ts.take(k + 1) == ts.take(k as int).push(ts[k as int]) by { ecat_step(i0, ts, k as int); assert(ts.take(k + 1) =~= ts.take(k as int).push(ts[k as int])); } }
        let (j, t) = parse_bin_fst_tr::<W>(i)?;
        out.push(t);
        i = j;
        k = k + 1;
    }
    proof { assert forall|ts: Seq<Tr<W>>| starts(i0, #[trigger] ecat(ts)) && ts.len() == n implies ts.take(n as int) == ts by { assert(ts.take(n as int) =~= ts); } }
    Ok((i, out))
}
// trs.iter().filter(|t| t.ilabel == EPS_LABEL).count()
pub fn count_il<W: Semiring>(t: &Vec<Tr<W>>) -> (r: usize) ensures r == cnt_i(t@) {
    let mut k: usize = 0; let mut c: usize = 0;
    proof { assert(t@.take(0) =~= Seq::<Tr<W>>::empty()); }
    while k < t.len() invariant k <= t@.len(), c == cnt_i(t@.take(k as int)), c <= k, decreases t@.len() - k
    { proof { assert(t@.take(k + 1).drop_last() =~= t@.take(k as int)); } if t[k].ilabel == EPS_LABEL { c = c + 1; } k = k + 1; }
    proof { assert(t@.take(k as int) =~= t@); }
    c
}
pub fn count_ol<W: Semiring>(t: &Vec<Tr<W>>) -> (r: usize) ensures r == cnt_o(t@) {
    let mut k: usize = 0; let mut c: usize = 0;
    proof { assert(t@.take(0) =~= Seq::<Tr<W>>::empty()); }
    while k < t.len() invariant k <= t@.len(), c == cnt_o(t@.take(k as int)), c <= k, decreases t@.len() - k
    { proof { assert(t@.take(k + 1).drop_last() =~= t@.take(k as int)); } if t[k].olabel == EPS_LABEL { c = c + 1; } k = k + 1; }
    proof { assert(t@.take(k as int) =~= t@); }
    c
}
// -- a state: its weight (zero if not final), its number of transitions, its transitions
pub struct SX<W> { pub w: W, pub ts: Seq<Tr<W>> }
impl<W: SerializableSemiring> Enc for SX<W> { open spec fn e(self) -> Seq<u8> { self.w.enc() + (b8(self.ts.len() as i64) + ecat(self.ts)) } }
pub open spec fn stm<W: SerializableSemiring>(s: VectorFstState<W>, x: SX<W>) -> bool { s.final_weight == nz(x.w) && s.trs.tv() == x.ts && s.inv() }
//@fn fst_impls/vector_fst/serializable_fst.rs :: parse_vector_fst_state
    ensures forall|x: SX<W>| starts(i@, #[trigger] x.e()) && x.ts.len() <= usize::MAX ==> r is Ok && stm((r->Ok_0).1, x) && (r->Ok_0).0@ == i@.skip(x.e().len() as int),
@sub `IResult < & [ u8 ] , VectorFstState < W > , NomCustomError < & [ u8 ] > >` => `PResult < '_ , VectorFstState < W > >`
@sub `count ( parse_bin_fst_tr , num_trs as usize ) ( i )` => `count_tr :: < W > ( num_trs as usize , i )`
@sub `trs . iter ( ) . filter ( | t | t . ilabel == EPS_LABEL ) . count ( )` => `count_il ( & trs )`
@sub `trs . iter ( ) . filter ( | t | t . olabel == EPS_LABEL ) . count ( )` => `count_ol ( & trs )`
@start
let ghost i0 = i@;
proof {
    assert forall|x: SX<W>| starts(i0, #[trigger] x.e()) && x.ts.len() <= usize::MAX implies ({ let a = x.w.enc(); let b = b8(x.ts.len() as i64); let c = ecat(x.ts); let j = i0.skip(a.len() as int); let k = j.skip(b.len() as int);
        starts(i0, a) && starts(j, b) && starts(k, c) && k.skip(c.len() as int) == i0.skip(x.e().len() as int) && (x.ts.len() as i64) as usize == x.ts.len() }) by
    { let a = x.w.enc(); let b = b8(x.ts.len() as i64); let c = ecat(x.ts); let j = i0.skip(a.len() as int); let k = j.skip(b.len() as int);
      starts_cat(i0, a, b + c); starts_cat(j, b, c); assert(k.skip(c.len() as int) =~= i0.skip(x.e().len() as int)); let n = x.ts.len() as usize; assert((n as i64) as usize == n) by (bit_vector); assert(x.ts.len() as i64 == n as i64); }
}
//@end

pub uninterp spec fn esym(s: SymbolTable) -> Seq<u8>;
#[verifier::external_body]
pub fn parse_symbol_table_bin(i: &[u8]) -> (r: PResult<SymbolTable>) ensures forall|x: SymbolTable| rd(i@, #[trigger] esym(x), x, r) { unimplemented!() }
#[verifier::external_body]
pub fn write_bin_symt<O: Write>(file: &mut O, symt: &SymbolTable) -> (r: Result<()>) ensures r is Ok ==> final(file).w() == old(file).w() + esym(*symt) { unimplemented!() }
//@const parsers/bin_fst/fst_header.rs :: FST_MAGIC_NUMBER
// -- flags: which symbol tables follow
pub struct FstFlags { pub bits: u32 }
impl FstFlags {
    pub const HAS_ISYMBOLS: FstFlags = FstFlags { bits: 1u32 };
    pub const HAS_OSYMBOLS: FstFlags = FstFlags { bits: 2u32 };
    pub fn empty() -> (r: FstFlags) ensures r.bits == 0 { FstFlags { bits: 0 } }
    pub fn bits(&self) -> (r: u32) ensures r == self.bits { self.bits }
    pub fn contains(&self, o: FstFlags) -> (r: bool) ensures r == (self.bits & o.bits == o.bits) { self.bits & o.bits == o.bits }
    pub fn vor(self, o: FstFlags) -> (r: FstFlags) ensures r.bits == self.bits | o.bits { FstFlags { bits: self.bits | o.bits } }
}
pub open spec fn fl(i: bool, o: bool) -> u32 { if i { if o { 3u32 } else { 1u32 } } else if o { 2u32 } else { 0u32 } }
pub proof fn fl_bits() ensures forall|i: bool, o: bool| (#[trigger] fl(i, o) & 1u32 == 1u32) == i && (fl(i, o) & 2u32 == 2u32) == o, 0u32 | 1u32 == 1u32, 0u32 | 2u32 == 2u32, 1u32 | 2u32 == 3u32
{ assert(0u32 & 1u32 == 0 && 0u32 & 2u32 == 0 && 1u32 & 1u32 == 1 && 1u32 & 2u32 == 0 && 2u32 & 1u32 == 0 && 2u32 & 2u32 == 2 && 3u32 & 1u32 == 1 && 3u32 & 2u32 == 2 && 0u32 | 1u32 == 1u32 && 0u32 | 2u32 == 2u32 && 1u32 | 2u32 == 3u32) by (bit_vector); }
// nom's map_res over FstFlags::from_bits: the number is read and taken as flags when it has no other bit
#[verifier::external_body]
pub fn parse_flags(i: &[u8]) -> (r: PResult<FstFlags>) ensures forall|x: u32| x <= 7u32 ==> rd(i@, #[trigger] bu4(x), FstFlags { bits: x }, r) { unimplemented!() }
//@fn parsers/bin_fst/fst_header.rs :: optionally_parse_symt
    ensures !parse_symt ==> r is Ok && (r->Ok_0).0@ == i@ && (r->Ok_0).1 is None, parse_symt ==> (forall|x: SymbolTable| rd(i@, #[trigger] esym(x), Some(x), r)),
@sub `IResult < & [ u8 ] , Option < SymbolTable > , NomCustomError < & [ u8 ] > >` => `PResult < '_ , Option < SymbolTable > >`
//@end
pub open spec fn eos(s: Option<Arc<SymbolTable>>) -> Seq<u8> { if s is Some { esym(*s->0) } else { Seq::empty() } }
//@fn parsers/bin_fst/fst_header.rs :: optionally_write_symt
    ensures r is Ok ==> final(file).w() == old(file).w() + eos(*symt),
@tail
proof { if r__ is Ok { assert(file.w() =~= old(file).w() + eos(*symt)); } }
//@end
//@type parsers/bin_fst/fst_header.rs :: struct FstHeader
impl FstHeader {
    pub open spec fn e1(&self) -> Seq<u8> { bu4(self.flags.bits) + (bu8(self.properties) + (b8(self.start) + (b8(self.num_states) + (b8(self.num_trs) + (eos(self.isymt) + eos(self.osymt)))))) }
    pub open spec fn e(&self) -> Seq<u8> { b4(self.magic_number) + (self.fst_type.e() + (self.tr_type.e() + (b4(self.version) + self.e1()))) }
    pub open spec fn ok(&self) -> bool { self.magic_number == FST_MAGIC_NUMBER && self.fst_type.ok() && self.tr_type.ok() && self.flags.bits == fl(self.isymt is Some, self.osymt is Some) }
    pub open spec fn same(&self, o: FstHeader) -> bool { self.version == o.version && self.properties == o.properties && self.start == o.start && self.num_states == o.num_states && self.num_trs == o.num_trs && self.isymt == o.isymt && self.osymt == o.osymt }
//@fn parsers/bin_fst/fst_header.rs :: FstHeader :: write
    ensures r is Ok ==> final(file).w() == old(file).w() + self.e(),
@tail
proof { if r__ is Ok { assert(file.w() =~= old(file).w() + self.e()); } }
//@end
//@fn parsers/bin_fst/fst_header.rs :: FstHeader :: parse
    ensures forall|h: FstHeader| starts(i@, #[trigger] h.e()) && h.ok() && h.version >= min_file_version && h.fst_type.s@ == fst_loading_type@ && h.tr_type.s@ == tr_loading_type@ ==> r is Ok && (r->Ok_0).1.same(h) && (r->Ok_0).0@ == i@.skip(h.e().len() as int),
@sub `< S1 : AsRef < str > , S2 : AsRef < str > >` => ``
@sub `fst_loading_type : S1` => `fst_loading_type : String`
@sub `tr_loading_type : S2` => `tr_loading_type : String`
@sub `IResult < & [ u8 ] , FstHeader , NomCustomError < & [ u8 ] > >` => `PResult < '_ , FstHeader >`
@sub `verify ( parse_bin_i32 , | v : & i32 | * v == FST_MAGIC_NUMBER ) ( i )` => `verify_eq ( i , FST_MAGIC_NUMBER )`
@sub `verify ( OpenFstString :: parse , | v | { v . s . as_str ( ) == fst_loading_type . as_ref ( ) } ) ( i )` => `verify_str ( i , & fst_loading_type )`
@sub `verify ( OpenFstString :: parse , | v | { v . s . as_str ( ) == tr_loading_type . as_ref ( ) } ) ( i )` => `verify_str ( i , & tr_loading_type )`
@sub `verify ( parse_bin_i32 , | v : & i32 | * v >= min_file_version ) ( i )` => `verify_ge ( i , min_file_version )`
@sub `map_res ( parse_bin_u32 , | v : u32 | { FstFlags :: from_bits ( v ) . ok_or ( "Could not parse Fst Flags" ) } ) ( i )` => `parse_flags ( i )`
@sub `isymt . map ( Arc :: new )` => `opt_arc ( isymt )`
@sub `osymt . map ( Arc :: new )` => `opt_arc ( osymt )`
@start
let ghost i0 = i@;
proof { fl_bits(); assert forall|h: FstHeader| starts(i0, #[trigger] h.e()) && h.ok() implies hdr_cut(i0, h) by { hdr_cuts(i0, h); } }
//@end
}
pub fn opt_arc(s: Option<SymbolTable>) -> (r: Option<Arc<SymbolTable>>) ensures r is Some == s is Some, r is Some ==> *(r->0) == s->0 { match s { Some(x) => Some(Arc::new(x)), None => None } }
pub open spec fn hdr_cut(i: Seq<u8>, h: FstHeader) -> bool {
    let i1 = i.skip(b4(h.magic_number).len() as int); let i2 = i1.skip(h.fst_type.e().len() as int); let i3 = i2.skip(h.tr_type.e().len() as int); let i4 = i3.skip(b4(h.version).len() as int);
    let i5 = i4.skip(bu4(h.flags.bits).len() as int); let i6 = i5.skip(bu8(h.properties).len() as int); let i7 = i6.skip(b8(h.start).len() as int); let i8 = i7.skip(b8(h.num_states).len() as int); let i9 = i8.skip(b8(h.num_trs).len() as int);
    let j1 = i9.skip(eos(h.isymt).len() as int); let j2 = j1.skip(eos(h.osymt).len() as int);
    starts(i, b4(h.magic_number)) && starts(i1, h.fst_type.e()) && starts(i2, h.tr_type.e()) && starts(i3, b4(h.version)) && starts(i4, bu4(h.flags.bits)) && starts(i5, bu8(h.properties)) && starts(i6, b8(h.start))
    && starts(i7, b8(h.num_states)) && starts(i8, b8(h.num_trs)) && starts(i9, eos(h.isymt)) && starts(j1, eos(h.osymt)) && j2 == i.skip(h.e().len() as int) && (h.isymt is None ==> j1 == i9) && (h.osymt is None ==> j2 == j1)
}
pub proof fn hdr_cuts(i: Seq<u8>, h: FstHeader) requires starts(i, h.e()) ensures hdr_cut(i, h) {
    let a = b4(h.magic_number); let b = h.fst_type.e(); let c = h.tr_type.e(); let d = b4(h.version); let f = bu4(h.flags.bits); let g = bu8(h.properties); let k = b8(h.start); let l = b8(h.num_states); let m = b8(h.num_trs); let n = eos(h.isymt); let o = eos(h.osymt);
    let i1 = i.skip(a.len() as int); let i2 = i1.skip(b.len() as int); let i3 = i2.skip(c.len() as int); let i4 = i3.skip(d.len() as int);
    let i5 = i4.skip(f.len() as int); let i6 = i5.skip(g.len() as int); let i7 = i6.skip(k.len() as int); let i8 = i7.skip(l.len() as int); let i9 = i8.skip(m.len() as int);
    let j1 = i9.skip(n.len() as int); let j2 = j1.skip(o.len() as int);
    starts_cat(i, a, b + (c + (d + h.e1()))); starts_cat(i1, b, c + (d + h.e1())); starts_cat(i2, c, d + h.e1()); starts_cat(i3, d, h.e1());
    starts_cat(i4, f, g + (k + (l + (m + (n + o))))); starts_cat(i5, g, k + (l + (m + (n + o)))); starts_cat(i6, k, l + (m + (n + o))); starts_cat(i7, l, m + (n + o)); starts_cat(i8, m, n + o); starts_cat(i9, n, o);
    assert(j2 =~= i.skip(h.e().len() as int)); if h.isymt is None { assert(j1 =~= i9); } if h.osymt is None { assert(j2 =~= j1); }
}

// -- the whole machine
pub uninterp spec fn tr_name<W>() -> Seq<char>;
pub uninterp spec fn vec_name() -> Seq<char>;
pub uninterp spec fn const_name() -> Seq<char>;
impl<W> Tr<W> {
    #[verifier::external_body]
    pub fn tr_type() -> (r: String) ensures r@ == tr_name::<W>(), sb(r@).len() <= i32::MAX { unimplemented!() }
}
//@const fst_properties/properties.rs :: EXPANDED
//@const fst_properties/properties.rs :: MUTABLE
//@const fst_impls/vector_fst/serializable_fst.rs :: VECTOR_MIN_FILE_VERSION
pub open spec fn sxs<W: SerializableSemiring>(v: FstV<W>) -> Seq<SX<W>> { Seq::new(v.n(), |i: int| SX { w: oz(v.fin[i]), ts: v.trs[i] }) }
pub open spec fn st64(s: Option<StateId>) -> i64 { if s is Some { (s->0) as i64 } else { -1i64 } }
#[verifier::loop_isolation(false)]
pub fn count_st<'a, W: SerializableSemiring>(n: usize, i: &'a [u8]) -> (r: PResult<'a, Vec<VectorFstState<W>>>)
    ensures forall|xs: Seq<SX<W>>| starts(i@, #[trigger] ecat(xs)) && xs.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] xs[k]).ts.len() <= usize::MAX) ==> r is Ok && (r->Ok_0).1@.len() == n && (forall|k: int| 0 <= k < n ==> stm(#[trigger] (r->Ok_0).1@[k], xs[k])) && (r->Ok_0).0@ == i@.skip(ecat(xs).len() as int),
{
    let ghost i0 = i@;
    let mut i: &'a [u8] = i;
    let mut out: Vec<VectorFstState<W>> = Vec::new();
    let mut k: usize = 0;
    proof { assert forall|xs: Seq<SX<W>>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n implies i0 == i0.skip(ecat(xs.take(0)).len() as int) by { assert(xs.take(0) =~= Seq::<SX<W>>::empty()); assert(i0.skip(0) =~= i0); } }
    while k < n
        invariant k <= n, out@.len() == k, forall|xs: Seq<SX<W>>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] xs[k]).ts.len() <= usize::MAX) ==> i@ == i0.skip(ecat(xs.take(k as int)).len() as int) && (forall|q: int| 0 <= q < k ==> stm(#[trigger] out@[q], xs[q])),
        decreases n - k,
    {
        proof { assert forall|xs: Seq<SX<W>>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n && (forall|k: int| 0 <= k < n ==> (#[trigger] xs[k]).ts.len() <= usize::MAX) implies starts(i@, xs[k as int].e()) && i@.skip(xs[k as int].e().len() as int) == i0.skip(ecat(xs.take(k + 1)).len() as int) by { ecat_step(i0, xs, k as int); } }
        let (j, t) = parse_vector_fst_state::<W>(i)?;
        out.push(t);
        i = j;
        k = k + 1;
    }
    proof { assert forall|ts: Seq<SX<W>>| starts(i0, #[trigger] ecat(ts)) && ts.len() == n implies ts.take(n as int) == ts by { assert(ts.take(n as int) =~= ts); } }
    Ok((i, out))
}
// what store writes: a header that says what the machine says, then its states
pub open spec fn vec_hdr<W: SerializableSemiring>(f: VectorFst<W>, h: FstHeader) -> bool {
    h.ok() && h.version >= VECTOR_MIN_FILE_VERSION && h.fst_type.s@ == vec_name() && h.tr_type.s@ == tr_name::<W>() && h.properties & 0x0000_ffff_ffff_0000 == f.properties.bits & 0x0000_ffff_ffff_0000 && h.start == st64(f.start_state) && h.num_states == f.v().n() && h.isymt == f.isymt && h.osymt == f.osymt
}
pub open spec fn vec_bytes<W: SerializableSemiring>(f: VectorFst<W>, b: Seq<u8>) -> bool { exists|h: FstHeader| vec_hdr(f, h) && b == #[trigger] h.e() + ecat(sxs(f.v())) }
// the machine read back: the same start state, transitions in order, final weights (a zero final weight is the same as none), symbol tables and flags
pub open spec fn vec_same<W: SerializableSemiring>(r: VectorFst<W>, f: VectorFst<W>) -> bool {
    r.inv() && r.v().start == f.v().start && r.v().trs == f.v().trs && r.v().fin.len() == f.v().fin.len() && (forall|s: int| 0 <= s < f.v().n() ==> #[trigger] r.v().fin[s] == nz(oz(f.v().fin[s])))
    && r.isymt == f.isymt && r.osymt == f.osymt && r.properties.bits == f.properties.bits & 0x0000_ffff_ffff_0000
}
//@fn fst_impls/vector_fst/serializable_fst.rs :: parse_vector_fst
    ensures forall|f: VectorFst<W>, h: FstHeader| f.inv() && vec_hdr(f, h) && starts(i@, #[trigger] h.e() + #[trigger] ecat(sxs(f.v()))) ==> r is Ok && vec_same((r->Ok_0).1, f),
@sub `IResult < & [ u8 ] , VectorFst < W > , NomCustomError < & [ u8 ] > >` => `PResult < '_ , VectorFst < W > >`
@sub `count ( parse_vector_fst_state , header . num_states as usize ) ( i )` => `count_st :: < W > ( header . num_states as usize , i )`
@start
let ghost i0 = i@;
proof { assert forall|f: VectorFst<W>, h: FstHeader| f.inv() && vec_hdr(f, h) && starts(i0, #[trigger] h.e() + #[trigger] ecat(sxs(f.v()))) implies starts(i0, h.e()) && starts(i0.skip(h.e().len() as int), ecat(sxs(f.v()))) && sxs(f.v()).len() == h.num_states as usize && (forall|k: int| 0 <= k < f.v().n() ==> (#[trigger] sxs(f.v())[k]).ts.len() <= usize::MAX) by { starts_cat(i0, h.e(), ecat(sxs(f.v()))); f.inv_len(); tv_len(f); } }
@tail
proof { if r__ is Ok { let g = (r__->Ok_0).1; assert forall|f: VectorFst<W>, h: FstHeader| f.inv() && vec_hdr(f, h) && starts(i0, #[trigger] h.e() + #[trigger] ecat(sxs(f.v()))) implies vec_same(g, f) by { let xs = sxs(f.v()); assert forall|k: int| 0 <= k < f.v().n() implies stm(#[trigger] g.states@[k], xs[k]) by { } assert(g.v().trs =~= f.v().trs); } } }
//@end
pub fn start64(s: Option<StateId>) -> (r: i64) ensures r == st64(s) { match s { Some(v) => v as i64, None => -1 } }
pub fn or_zero<W: Semiring>(w: Option<W>) -> (r: W) ensures r == oz(w) { match w { Some(x) => x, None => W::zero() } }
pub fn oarc(s: Option<&Arc<SymbolTable>>) -> (r: Option<Arc<SymbolTable>>) ensures r is Some == s is Some, r is Some ==> r->0 == *(s->0) { match s { Some(x) => Some(x.clone()), None => None } }
pub proof fn or_mask() ensures forall|p: u64, s: u64| s & 0x0000_ffff_ffff_0000 == 0 ==> (#[trigger] (p | s)) & 0x0000_ffff_ffff_0000 == p & 0x0000_ffff_ffff_0000 { assert forall|p: u64, s: u64| s & 0x0000_ffff_ffff_0000 == 0 implies (#[trigger] (p | s)) & 0x0000_ffff_ffff_0000 == p & 0x0000_ffff_ffff_0000 by { assert(s & 0x0000_ffff_ffff_0000u64 == 0 ==> (p | s) & 0x0000_ffff_ffff_0000u64 == p & 0x0000_ffff_ffff_0000u64) by (bit_vector); } }
pub proof fn tv_len<W: Semiring>(f: VectorFst<W>) ensures forall|k: int| 0 <= k < f.v().n() ==> (#[trigger] f.v().trs[k]).len() <= usize::MAX
{ assert forall|k: int| 0 <= k < f.v().n() implies (#[trigger] f.v().trs[k]).len() <= usize::MAX by { vlen(*f.states@[k].trs.0); } }
impl<W: SerializableSemiring> VectorFst<W> {
//@fn fst_impls/vector_fst/data_structure.rs :: VectorFst :: static_properties
    ensures r & 0x0000_ffff_ffff_0000 == 0,
@tail
proof { assert((0x1u64 | 0x2u64) & 0x0000_ffff_ffff_0000u64 == 0) by (bit_vector); }
//@end
    #[verifier::external_body]
    pub fn fst_type() -> (r: String) ensures r@ == vec_name(), sb(r@).len() <= i32::MAX { unimplemented!() }
//@fn fst_impls/vector_fst/serializable_fst.rs :: SerializableFst for VectorFst :: load
    ensures forall|f: VectorFst<W>, b: Seq<u8>| f.inv() && #[trigger] vec_bytes(f, b) && starts(data@, b) ==> r is Ok && vec_same(r->Ok_0, f),
@sub `. map_err ( | e | { e . map ( | e_inner | match e_inner { NomCustomError :: Nom ( _ , k ) => { mk_error ( ) } NomCustomError :: SymbolTableError ( e ) => mk_error ( ) , } ) } )` => ``
@start
proof { assert forall|f: VectorFst<W>, b: Seq<u8>| f.inv() && #[trigger] vec_bytes(f, b) && starts(data@, b) implies (exists|h: FstHeader| vec_hdr(f, h) && starts(data@, #[trigger] h.e() + ecat(sxs(f.v())))) by { let h = choose|h: FstHeader| vec_hdr(f, h) && b == #[trigger] h.e() + ecat(sxs(f.v())); } }
//@end
    pub fn input_symbols(&self) -> (r: Option<&Arc<SymbolTable>>) ensures r is Some == self.isymt is Some, r is Some ==> *(r->0) == self.isymt->0 { self.isymt.as_ref() }
    pub fn output_symbols(&self) -> (r: Option<&Arc<SymbolTable>>) ensures r is Some == self.osymt is Some, r is Some ==> *(r->0) == self.osymt->0 { self.osymt.as_ref() }
//@fn fst_impls/vector_fst/serializable_fst.rs :: SerializableFst for VectorFst :: store noisolation
    requires self.inv(),
    ensures r is Ok ==> exists|b: Seq<u8>| #[trigger] vec_bytes(*self, b) && final(output).w() == old(output).w() + b,
@sub `mut output : O` => `output : & mut O`
@sub `& mut output` => `output` #opt
@sub `flags |= FstFlags :: HAS_ISYMBOLS` => `flags = flags . vor ( FstFlags :: HAS_ISYMBOLS )`
@sub `flags |= FstFlags :: HAS_OSYMBOLS` => `flags = flags . vor ( FstFlags :: HAS_OSYMBOLS )`
@sub `( 0 .. self . num_states ( ) ) . map ( | s : usize | { self . num_trs_unchecked ( s as StateId ) } ) . sum ( )` => `self . total_trs ( )`
@sub `self . start_state . map ( | v | v as i64 ) . unwrap_or ( - 1 )` => `start64 ( self . start_state )`
@sub `self . input_symbols ( ) . vcloned ( )` => `oarc ( self . input_symbols ( ) )`
@sub `self . output_symbols ( ) . vcloned ( )` => `oarc ( self . output_symbols ( ) )`
@sub `self . final_weight_unchecked ( state ) . unwrap_or_else ( W :: zero )` => `or_zero ( self . final_weight_unchecked ( state ) )`
@start
proof { fl_bits(); self.inv_len(); }
let ghost w0 = output.w();
let ghost xs = sxs(self.v());
@before_loop 0
proof { or_mask(); assert(vec_hdr(*self, hdr)); assert(xs.take(0) =~= Seq::<SX<W>>::empty()); assert(output.w() =~= w0 + (hdr.e() + ecat(xs.take(0)))); }
@loop 0
invariant self.inv(), xs == sxs(self.v()), output.w() == w0 + (hdr.e() + ecat(xs.take(state as int))),
@loop_start 0
let ghost w1 = output.w(); let ghost k = state as int;
@before_loop 1
let ghost ts = self.v().trs[k]; let ghost w2 = output.w();
proof { assert(w2 =~= w1 + (xs[k].w.enc() + b8(ts.len() as i64))); assert(ts.take(0) =~= Seq::<Tr<W>>::empty()); assert(w2 =~= w2 + ecat(ts.take(0))); }
@loop 1 it=it
invariant it.seq().len() == ts.len(), forall|q: int| 0 <= q < ts.len() ==> *(#[trigger] it.seq()[q]) == ts[q], output.w() == w2 + ecat(ts.take(it.index@ as int)),
@loop_start 1
proof { ecat_take(ts, it.index@ as int); }
@loop_end 1
proof { assert(output.w() =~= w2 + ecat(ts.take(it.index@ + 1))); }
@loop_end 0
proof { assert(ts.take(ts.len() as int) =~= ts); ecat_take(xs, k); assert(output.w() =~= w0 + (hdr.e() + ecat(xs.take(k + 1)))); }
@tail
proof { assert(xs.take(self.v().n() as int) =~= xs); assert(vec_bytes(*self, hdr.e() + ecat(xs))); }
//@end
}

// -- ConstFst: the states (weight, window, epsilon counts) and the one array of transitions
//@const fst_impls/const_fst/mod.rs :: CONST_MIN_FILE_VERSION
//@const fst_impls/const_fst/mod.rs :: CONST_ALIGNED_FILE_VERSION
//@const fst_impls/const_fst/mod.rs :: CONST_FILE_VERSION
//@const fst_impls/const_fst/mod.rs :: CONST_ARCH_ALIGNMENT
pub struct CX<W> { pub w: W, pub pos: int, pub n: int, pub ni: int, pub no: int }
impl<W: SerializableSemiring> Enc for CX<W> { open spec fn e(self) -> Seq<u8> { self.w.enc() + (b4(self.pos as i32) + (b4(self.n as i32) + (b4(self.ni as i32) + b4(self.no as i32)))) } }
pub open spec fn c31(n: int) -> bool { 0 <= n <= i32::MAX }
pub open spec fn cxok<W>(x: CX<W>) -> bool { c31(x.pos) && c31(x.n) && c31(x.ni) && c31(x.no) }
pub open spec fn cxm<W: SerializableSemiring>(s: ConstState<W>, x: CX<W>) -> bool { s.final_weight == nz(x.w) && s.pos == x.pos && s.ntrs == x.n && s.niepsilons == x.ni && s.noepsilons == x.no }
//@fn fst_impls/const_fst/serializable_fst.rs :: parse_const_state
    ensures forall|x: CX<W>| starts(i@, #[trigger] x.e()) && cxok(x) ==> r is Ok && cxm((r->Ok_0).1, x) && (r->Ok_0).0@ == i@.skip(x.e().len() as int),
@sub `IResult < & [ u8 ] , ConstState < W > , NomCustomError < & [ u8 ] > >` => `PResult < '_ , ConstState < W > >`
@start
let ghost i0 = i@;
proof {
    assert forall|x: CX<W>| starts(i0, #[trigger] x.e()) && cxok(x) implies ({ let a = x.w.enc(); let b = b4(x.pos as i32); let c = b4(x.n as i32); let d = b4(x.ni as i32); let f = b4(x.no as i32); let i1 = i0.skip(a.len() as int); let i2 = i1.skip(b.len() as int); let i3 = i2.skip(c.len() as int); let i4 = i3.skip(d.len() as int);
        starts(i0, a) && starts(i1, b) && starts(i2, c) && starts(i3, d) && starts(i4, f) && i4.skip(f.len() as int) == i0.skip(x.e().len() as int) }) by
    { let a = x.w.enc(); let b = b4(x.pos as i32); let c = b4(x.n as i32); let d = b4(x.ni as i32); let f = b4(x.no as i32); let i1 = i0.skip(a.len() as int); let i2 = i1.skip(b.len() as int); let i3 = i2.skip(c.len() as int); let i4 = i3.skip(d.len() as int);
      starts_cat(i0, a, b + (c + (d + f))); starts_cat(i1, b, c + (d + f)); starts_cat(i2, c, d + f); starts_cat(i3, d, f); assert(i4.skip(f.len() as int) =~= i0.skip(x.e().len() as int)); }
}
//@end
#[verifier::loop_isolation(false)]
pub fn count_cs<'a, W: SerializableSemiring>(n: usize, i: &'a [u8]) -> (r: PResult<'a, Vec<ConstState<W>>>)
    ensures forall|xs: Seq<CX<W>>| starts(i@, #[trigger] ecat(xs)) && xs.len() == n && (forall|k: int| 0 <= k < n ==> cxok(#[trigger] xs[k])) ==> r is Ok && (r->Ok_0).1@.len() == n && (forall|k: int| 0 <= k < n ==> cxm(#[trigger] (r->Ok_0).1@[k], xs[k])) && (r->Ok_0).0@ == i@.skip(ecat(xs).len() as int),
{
    let ghost i0 = i@;
    let mut i: &'a [u8] = i;
    let mut out: Vec<ConstState<W>> = Vec::new();
    let mut k: usize = 0;
    proof { assert forall|xs: Seq<CX<W>>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n implies i0 == i0.skip(ecat(xs.take(0)).len() as int) by { assert(xs.take(0) =~= Seq::<CX<W>>::empty()); assert(i0.skip(0) =~= i0); } }
    while k < n
        invariant k <= n, out@.len() == k, forall|xs: Seq<CX<W>>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n && (forall|k: int| 0 <= k < n ==> cxok(#[trigger] xs[k])) ==> i@ == i0.skip(ecat(xs.take(k as int)).len() as int) && (forall|q: int| 0 <= q < k ==> cxm(#[trigger] out@[q], xs[q])),
        decreases n - k,
    {
        proof { assert forall|xs: Seq<CX<W>>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n && (forall|k: int| 0 <= k < n ==> cxok(#[trigger] xs[k])) implies starts(i@, xs[k as int].e()) && cxok(xs[k as int]) && i@.skip(xs[k as int].e().len() as int) == i0.skip(ecat(xs.take(k + 1)).len() as int) by { ecat_step(i0, xs, k as int); } }
        let (j, t) = parse_const_state::<W>(i)?;
        out.push(t);
        i = j;
        k = k + 1;
    }
    proof { assert forall|ts: Seq<CX<W>>| starts(i0, #[trigger] ecat(ts)) && ts.len() == n implies ts.take(n as int) == ts by { assert(ts.take(n as int) =~= ts); } }
    Ok((i, out))
}
pub open spec fn cxs<W: SerializableSemiring>(f: ConstFst<W>) -> Seq<CX<W>> { Seq::new(f.states@.len(), |i: int| CX { w: oz(f.states@[i].final_weight), pos: f.states@[i].pos as int, n: f.states@[i].ntrs as int, ni: f.states@[i].niepsilons as int, no: f.states@[i].noepsilons as int }) }
pub open spec fn cst_hdr<W: SerializableSemiring>(f: ConstFst<W>, h: FstHeader) -> bool {
    h.ok() && h.version == CONST_FILE_VERSION && h.fst_type.s@ == const_name() && h.tr_type.s@ == tr_name::<W>() && h.properties & 0x0000_ffff_ffff_0000 == f.properties.bits & 0x0000_ffff_ffff_0000 && h.start == st64(f.start) && h.num_states == f.states@.len() && h.num_trs == f.trs@.len() && h.isymt == f.isymt && h.osymt == f.osymt
}
// sizes the format can hold
pub open spec fn cst_fits<W: SerializableSemiring>(f: ConstFst<W>) -> bool { f.inv() && f.trs@.len() <= i32::MAX && f.states@.len() <= u32::MAX && (forall|k: int| 0 <= k < f.states@.len() ==> cxok(#[trigger] cxs(f)[k])) }
pub open spec fn cst_bytes<W: SerializableSemiring>(f: ConstFst<W>, b: Seq<u8>) -> bool { exists|h: FstHeader| cst_hdr(f, h) && b == #[trigger] h.e() + (ecat(cxs(f)) + ecat(f.trs@)) }
pub open spec fn cst_same<W: SerializableSemiring>(r: ConstFst<W>, f: ConstFst<W>) -> bool {
    r.inv() && r.v().start == f.v().start && r.v().trs == f.v().trs && r.v().fin.len() == f.v().fin.len() && (forall|s: int| 0 <= s < f.v().n() ==> #[trigger] r.v().fin[s] == nz(oz(f.v().fin[s])))
    && r.isymt == f.isymt && r.osymt == f.osymt && r.properties.bits == f.properties.bits & 0x0000_ffff_ffff_0000
}
#[verifier::external_body]
pub fn skip_pad(n: usize, i: &[u8]) -> (r: Result<&[u8]>) ensures r is Ok ==> (r->Ok_0)@.len() <= i@.len() { unimplemented!() }
//@fn fst_impls/const_fst/serializable_fst.rs :: parse_const_fst
    ensures forall|f: ConstFst<W>, h: FstHeader| cst_fits(f) && cst_hdr(f, h) && starts(i@, #[trigger] h.e() + (#[trigger] ecat(cxs(f)) + ecat(f.trs@))) ==> r is Ok && cst_same((r->Ok_0).1, f),
@sub `IResult < & [ u8 ] , ConstFst < W > , NomCustomError < & [ u8 ] > >` => `PResult < '_ , ConstFst < W > >`
@sub `let ( mut i , hdr ) = FstHeader :: parse` => `let ( i1 , hdr ) = FstHeader :: parse`
@sub `let aligned` => `let mut i = i1 ; let aligned`
@sub `stream_len - i . len ( )` => `stream_pos ( stream_len , i )`
@sub `i = take ( CONST_ARCH_ALIGNMENT - ( pos % CONST_ARCH_ALIGNMENT ) ) ( i ) ? . 0` => `i = skip_pad ( CONST_ARCH_ALIGNMENT - ( pos % CONST_ARCH_ALIGNMENT ) , i ) ?`
@sub `let ( mut i , const_states ) = count ( parse_const_state , hdr . num_states as usize ) ( i ) ?` => `let ( i2 , const_states ) = count_cs :: < W > ( hdr . num_states as usize , i ) ? ; let mut i = i2`
@sub `count ( parse_bin_fst_tr , hdr . num_trs as usize ) ( i )` => `count_tr :: < W > ( hdr . num_trs as usize , i )`
@start
let ghost i0 = i@;
proof { assert forall|f: ConstFst<W>, h: FstHeader| cst_fits(f) && cst_hdr(f, h) && starts(i0, #[trigger] h.e() + (#[trigger] ecat(cxs(f)) + ecat(f.trs@))) implies starts(i0, h.e()) && starts(i0.skip(h.e().len() as int), ecat(cxs(f))) && starts(i0.skip(h.e().len() as int).skip(ecat(cxs(f)).len() as int), ecat(f.trs@)) && cxs(f).len() == h.num_states as usize && f.trs@.len() == h.num_trs as usize by { starts_cat(i0, h.e(), ecat(cxs(f)) + ecat(f.trs@)); starts_cat(i0.skip(h.e().len() as int), ecat(cxs(f)), ecat(f.trs@)); } }
@tail
proof { if r__ is Ok { let g = (r__->Ok_0).1; assert forall|f: ConstFst<W>, h: FstHeader| cst_fits(f) && cst_hdr(f, h) && starts(i0, #[trigger] h.e() + (#[trigger] ecat(cxs(f)) + ecat(f.trs@))) implies cst_same(g, f) by { let xs = cxs(f); assert forall|k: int| 0 <= k < f.v().n() implies cxm(#[trigger] g.states@[k], xs[k]) by { } assert(g.trs@ == f.trs@); assert forall|k: int| 0 <= k < f.v().n() implies #[trigger] cwin(g, k) == cwin(f, k) by { assert(cxm(g.states@[k], xs[k])); } assert(g.v().trs =~= f.v().trs); } } }
//@end
pub fn stream_pos(n: usize, i: &[u8]) -> (r: usize) { let m = i.len(); if m <= n { n - m } else { 0 } }
impl<W: SerializableSemiring> ConstFst<W> {
//@fn fst_impls/const_fst/data_structure.rs :: ConstFst :: static_properties
    ensures r & 0x0000_ffff_ffff_0000 == 0,
@tail
proof { assert(0x1u64 & 0x0000_ffff_ffff_0000u64 == 0) by (bit_vector); }
//@end
    #[verifier::external_body]
    pub fn fst_type() -> (r: String) ensures r@ == const_name(), sb(r@).len() <= i32::MAX { unimplemented!() }
    pub fn input_symbols(&self) -> (r: Option<&Arc<SymbolTable>>) ensures r is Some == self.isymt is Some, r is Some ==> *(r->0) == self.isymt->0 { self.isymt.as_ref() }
    pub fn output_symbols(&self) -> (r: Option<&Arc<SymbolTable>>) ensures r is Some == self.osymt is Some, r is Some ==> *(r->0) == self.osymt->0 { self.osymt.as_ref() }
//@fn fst_impls/const_fst/serializable_fst.rs :: SerializableFst for ConstFst :: load rename=load_const
    ensures forall|f: ConstFst<W>, b: Seq<u8>| cst_fits(f) && #[trigger] cst_bytes(f, b) && starts(data@, b) ==> r is Ok && cst_same(r->Ok_0, f),
@sub `. map_err ( | _ | mk_error ( ) )` => ``
@start
proof { assert forall|f: ConstFst<W>, b: Seq<u8>| cst_fits(f) && #[trigger] cst_bytes(f, b) && starts(data@, b) implies (exists|h: FstHeader| cst_hdr(f, h) && starts(data@, #[trigger] h.e() + (ecat(cxs(f)) + ecat(f.trs@)))) by { let h = choose|h: FstHeader| cst_hdr(f, h) && b == #[trigger] h.e() + (ecat(cxs(f)) + ecat(f.trs@)); } }
//@end
//@fn fst_impls/const_fst/serializable_fst.rs :: SerializableFst for ConstFst :: store noisolation rename=store_const
    requires cst_fits(*self),
    ensures r is Ok ==> exists|b: Seq<u8>| #[trigger] cst_bytes(*self, b) && final(output).w() == old(output).w() + b,
@sub `mut output : O` => `output : & mut O`
@sub `& mut output` => `output` #opt
@sub `flags |= FstFlags :: HAS_ISYMBOLS` => `flags = flags . vor ( FstFlags :: HAS_ISYMBOLS )`
@sub `flags |= FstFlags :: HAS_OSYMBOLS` => `flags = flags . vor ( FstFlags :: HAS_OSYMBOLS )`
@sub `self . start . map ( | v | v as i64 ) . unwrap_or ( - 1 )` => `start64 ( self . start )`
@sub `self . input_symbols ( ) . vcloned ( )` => `oarc ( self . input_symbols ( ) )`
@sub `self . output_symbols ( ) . vcloned ( )` => `oarc ( self . output_symbols ( ) )`
@sub `const_state . final_weight . as_ref ( ) . unwrap_or ( & zero )` => `or_ref ( const_state . final_weight . as_ref ( ) , & zero )`
@sub `& * self . trs` => `( * self . trs ) . iter ( )`
@sub `in & self . states` => `in self . states . iter ( )`
@start
proof { fl_bits(); }
let ghost w0 = output.w();
let ghost xs = cxs(*self); let ghost ts = self.trs@;
@before_loop 0
proof { or_mask(); assert(cst_hdr(*self, hdr)); assert(xs.take(0) =~= Seq::<CX<W>>::empty()); assert(output.w() =~= w0 + (hdr.e() + ecat(xs.take(0)))); }
@loop 0 it=it
invariant it.seq().len() == xs.len(), forall|q: int| 0 <= q < xs.len() ==> *(#[trigger] it.seq()[q]) == self.states@[q], output.w() == w0 + (hdr.e() + ecat(xs.take(it.index@ as int))),
@loop_start 0
let ghost w1 = output.w(); let ghost k = it.index@ as int;
@loop_end 0
proof { ecat_take(xs, k); assert(output.w() =~= w1 + xs[k].e()); assert(output.w() =~= w0 + (hdr.e() + ecat(xs.take(k + 1)))); }
@before_loop 1
let ghost w2 = output.w();
proof { assert(xs.take(xs.len() as int) =~= xs); assert(ts.take(0) =~= Seq::<Tr<W>>::empty()); assert(w2 =~= w2 + ecat(ts.take(0))); }
@loop 1 it=jt
invariant jt.seq().len() == ts.len(), forall|q: int| 0 <= q < ts.len() ==> *(#[trigger] jt.seq()[q]) == ts[q], output.w() == w2 + ecat(ts.take(jt.index@ as int)),
@loop_start 1
let ghost w3 = output.w(); let ghost k = jt.index@ as int;
@loop_end 1
proof { ecat_take(ts, k); assert(output.w() =~= w3 + etr(ts[k])); assert(output.w() =~= w2 + ecat(ts.take(k + 1))); }
@tail
proof { assert(ts.take(ts.len() as int) =~= ts); assert(output.w() =~= w0 + (hdr.e() + (ecat(xs) + ecat(ts)))); assert(cst_bytes(*self, hdr.e() + (ecat(xs) + ecat(ts)))); }
//@end
}
pub fn or_ref<'a, W: Semiring>(w: Option<&'a W>, z: &'a W) -> (r: &'a W) ensures *r == (if w is Some { *(w->0) } else { *z }) { match w { Some(x) => x, None => z } }

impl<W: Semiring> Clone for VectorFstState<W> { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
// -- text rows to machine (the grammar of a row is nom's; checked by the stand-in)
//@type parsers/text_fst/parsed_text_fst.rs :: struct Transition
//@type parsers/text_fst/parsed_text_fst.rs :: struct FinalState
//@type parsers/text_fst/parsed_text_fst.rs :: enum RowParsed
//@type parsers/text_fst/parsed_text_fst.rs :: struct ParsedTextFst
pub open spec fn row_state<W: SerializableSemiring>(r: RowParsed<W>) -> StateId { match r { RowParsed::Transition(t) => t.state, RowParsed::FinalState(f) => f.state, RowParsed::InfinityFinalState(g) => g } }
pub open spec fn row_trs<W: SerializableSemiring>(v: Seq<RowParsed<W>>) -> Seq<Transition<W>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { match v.last() { RowParsed::Transition(t) => row_trs(v.drop_last()).push(t), _ => row_trs(v.drop_last()) } } }
pub open spec fn row_fin<W: SerializableSemiring>(v: Seq<RowParsed<W>>) -> Seq<FinalState<W>> decreases v.len() { if v.len() == 0 { Seq::empty() } else { match v.last() { RowParsed::FinalState(t) => row_fin(v.drop_last()).push(t), _ => row_fin(v.drop_last()) } } }
pub open spec fn oo<W: Semiring>(w: Option<W>) -> W { if w is Some { w->0 } else { W::sone() } }
pub fn or_one<W: Semiring>(w: Option<W>) -> (r: W) ensures r == oo(w) { match w { Some(x) => x, None => W::one() } }
// the transitions of state s, in the order of their rows; its final weight, from its last row
pub open spec fn t_trs<W: SerializableSemiring>(ts: Seq<Transition<W>>, s: int) -> Seq<Tr<W>> decreases ts.len() { if ts.len() == 0 { Seq::empty() } else { let t = ts.last(); let r = t_trs(ts.drop_last(), s); if t.state == s { r.push(Tr { ilabel: t.ilabel, olabel: t.olabel, weight: oo(t.weight), nextstate: t.nextstate }) } else { r } } }
pub open spec fn t_fin<W: SerializableSemiring>(fs: Seq<FinalState<W>>, s: int) -> Option<W> decreases fs.len() { if fs.len() == 0 { None::<W> } else { let f = fs.last(); if f.state == s { Some(oo(f.weight)) } else { t_fin(fs.drop_last(), s) } } }
pub fn first_state<W: SerializableSemiring>(v: &Vec<RowParsed<W>>) -> (r: Option<StateId>) ensures r == (if v@.len() == 0 { None::<StateId> } else { Some(row_state(v@[0])) })
{ if v.len() == 0 { None } else { match &v[0] { RowParsed::Transition(t) => Some(t.state), RowParsed::FinalState(f) => Some(f.state), RowParsed::InfinityFinalState(g) => Some(*g) } } }
pub proof fn t_trs_len<W: SerializableSemiring>(ts: Seq<Transition<W>>, s: int) ensures t_trs(ts, s).len() <= ts.len() decreases ts.len() { if ts.len() > 0 { t_trs_len(ts.drop_last(), s); } }
impl<W: SerializableSemiring> ParsedTextFst<W> {
    // every state a row names is below the number of states, which is no more than needed
    pub open spec fn names(&self, s: int) -> bool { (exists|k: int| 0 <= k < self.transitions@.len() && ((#[trigger] self.transitions@[k]).state == s || self.transitions@[k].nextstate == s)) || (exists|k: int| 0 <= k < self.final_states@.len() && (#[trigger] self.final_states@[k]).state == s) || (self.start_state is Some && self.start_state->0 == s) }
    pub fn max_state(&self) -> (r: Option<StateId>) ensures r is None ==> (forall|s: int| !#[trigger] self.names(s)), r is Some ==> self.names((r->0) as int) && (forall|s: int| #[trigger] self.names(s) ==> s <= r->0)
    {
        let mut m: Option<StateId> = self.start_state;
        let mut k: usize = 0;
        while k < self.transitions.len()
            invariant k <= self.transitions@.len(), m is Some ==> self.names((m->0) as int), self.start_state is Some ==> m is Some && self.start_state->0 <= m->0, forall|q: int| 0 <= q < k ==> m is Some && (#[trigger] self.transitions@[q]).state <= m->0 && self.transitions@[q].nextstate <= m->0,
            decreases self.transitions@.len() - k
        {
            let a = self.transitions[k].state; let b = self.transitions[k].nextstate;
            let c = if a <= b { b } else { a };
            proof { assert(self.transitions@[k as int].state == a); assert(self.names(c as int)); }
            m = match m { Some(x) => if x <= c { Some(c) } else { Some(x) }, None => Some(c) };
            k = k + 1;
        }
        let mut j: usize = 0;
        while j < self.final_states.len()
            invariant j <= self.final_states@.len(), m is Some ==> self.names((m->0) as int), self.start_state is Some ==> m is Some && self.start_state->0 <= m->0, forall|q: int| 0 <= q < self.transitions@.len() ==> m is Some && (#[trigger] self.transitions@[q]).state <= m->0 && self.transitions@[q].nextstate <= m->0,
                forall|q: int| 0 <= q < j ==> m is Some && (#[trigger] self.final_states@[q]).state <= m->0,
            decreases self.final_states@.len() - j
        {
            let c = self.final_states[j].state;
            proof { assert(self.final_states@[j as int].state == c); assert(self.names(c as int)); }
            m = match m { Some(x) => if x <= c { Some(c) } else { Some(x) }, None => Some(c) };
            j = j + 1;
        }
        m
    }
//@fn parsers/text_fst/parsed_text_fst.rs :: ParsedTextFst :: start
    ensures r == self.start_state,
//@end
//@fn parsers/text_fst/parsed_text_fst.rs :: ParsedTextFst :: num_states
    ensures r <= u32::MAX + 1, forall|s: int| #[trigger] self.names(s) ==> s < r, r > 0 ==> self.names(r - 1),
@sub `let it_states = self . transitions . iter ( ) . map ( | t | t . state ) ; let it_nextstates = self . transitions . iter ( ) . map ( | t | t . nextstate ) ; let it_final_states = self . final_states . iter ( ) . map ( | f | f . state ) ; let it_start_state = self . start_state . iter ( ) . vcloned ( ) ; let max_state = it_states . chain ( it_nextstates ) . chain ( it_final_states ) . chain ( it_start_state ) . max ( ) ;` => `let max_state = self . max_state ( ) ;`
@sub `max_state . map ( | n | n as usize + 1 ) . unwrap_or ( 0 )` => `match max_state { Some ( n ) => n as usize + 1 , None => 0 }`
//@end
//@fn parsers/text_fst/parsed_text_fst.rs :: ParsedTextFst :: from_vec_rows_parsed
    ensures r.start_state == (if v@.len() == 0 { None::<StateId> } else { Some(row_state(v@[0])) }), r.transitions@ == row_trs(v@), r.final_states@ == row_fin(v@),
@sub `v . first ( ) . map ( | v | match v { RowParsed :: Transition ( t ) => t . state , RowParsed :: FinalState ( f ) => f . state , RowParsed :: InfinityFinalState ( g ) => * g , } )` => `first_state ( & v )`
@sub `.. Default :: default ( )` => `transitions : Vec :: new ( ) , final_states : Vec :: new ( )`
@start
let ghost g0 = v@; let ghost st = (if v@.len() == 0 { None::<StateId> } else { Some(row_state(v@[0])) });
proof { assert(g0.take(0) =~= Seq::<RowParsed<W>>::empty()); }
@loop 0 it=jt
invariant jt.seq() == g0, parsed_fst.start_state == st, parsed_fst.transitions@ == row_trs(g0.take(jt.index@ as int)), parsed_fst.final_states@ == row_fin(g0.take(jt.index@ as int)),
@loop_start 0
proof { assert(g0.take(jt.index@ + 1).drop_last() =~= g0.take(jt.index@ as int)); }
@tail
proof { assert(g0.take(g0.len() as int) =~= g0); }
//@end
}
impl<W: SerializableSemiring> VectorFst<W> {
//@fn fst_impls/vector_fst/serializable_fst.rs :: SerializableFst for VectorFst :: from_parsed_fst_text
    requires forall|s: int| #[trigger] parsed_fst_text.names(s) ==> s < u32::MAX, parsed_fst_text.transitions@.len() < usize::MAX,
    ensures r is Ok, r->Ok_0.v().start == parsed_fst_text.start_state, forall|s: int| #[trigger] parsed_fst_text.names(s) ==> s < r->Ok_0.v().n(), r->Ok_0.v().n() > 0 ==> parsed_fst_text.names(r->Ok_0.v().n() - 1),
        forall|s: int| 0 <= s < r->Ok_0.v().n() ==> #[trigger] r->Ok_0.v().trs[s] == t_trs(parsed_fst_text.transitions@, s), forall|s: int| 0 <= s < r->Ok_0.v().n() ==> #[trigger] r->Ok_0.v().fin[s] == t_fin(parsed_fst_text.final_states@, s),
@sub `transition . weight . unwrap_or_else ( W :: one )` => `or_one ( transition . weight )`
@sub `final_state . weight . unwrap_or_else ( W :: one )` => `or_one ( final_state . weight )`
@start
let ghost p0 = parsed_fst_text; let ghost ts = parsed_fst_text.transitions@; let ghost fs = parsed_fst_text.final_states@;
proof { assert(ts.take(0) =~= Seq::<Transition<W>>::empty()); assert(fs.take(0) =~= Seq::<FinalState<W>>::empty()); assert(ts.take(ts.len() as int) =~= ts); assert(fs.take(fs.len() as int) =~= fs); }
@loop 0 it=jt
invariant jt.seq() == ts, ts == p0.transitions@, ts.len() < usize::MAX, fst.inv(), fst.v().start == p0.start_state, fst.v().n() == num_states, fst.v().fin.len() == num_states, forall|s: int| #[trigger] p0.names(s) ==> s < num_states, forall|s: int| 0 <= s < num_states ==> #[trigger] fst.v().trs[s] == t_trs(ts.take(jt.index@ as int), s), forall|s: int| 0 <= s < num_states ==> #[trigger] fst.v().fin[s] == None::<W>,
@loop_start 0
let ghost k = jt.index@ as int; let ghost v0 = fst.v();
proof { let t = ts[k]; assert(p0.transitions@[k].state == t.state); assert(p0.names(t.state as int)); assert(ts.take(k + 1).drop_last() =~= ts.take(k)); t_trs_len(ts.take(k), t.state as int); assert(v0.trs[t.state as int] == t_trs(ts.take(k), t.state as int)); }
@loop 1 it=jt
invariant jt.seq() == fs, fs == p0.final_states@, fst.inv(), fst.v().start == p0.start_state, fst.v().n() == num_states, fst.v().fin.len() == num_states, forall|s: int| #[trigger] p0.names(s) ==> s < num_states, forall|s: int| 0 <= s < num_states ==> #[trigger] fst.v().trs[s] == t_trs(ts, s), forall|s: int| 0 <= s < num_states ==> #[trigger] fst.v().fin[s] == t_fin(fs.take(jt.index@ as int), s),
@loop_start 1
let ghost k = jt.index@ as int;
proof { let f = fs[k]; assert(p0.final_states@[k].state == f.state); assert(p0.names(f.state as int)); assert(fs.take(k + 1).drop_last() =~= fs.take(k)); }
//@end
}
}
