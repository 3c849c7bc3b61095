//@use symt
//@use bytes
verus! {
// ---- C12: the binary form of a symbol table
//@const parsers/bin_symt/nom_parser.rs :: SYMBOL_TABLE_MAGIC_NUMBER
// a row: the symbol and its label
pub struct RX { pub s: Seq<char>, pub l: i64 }
impl Enc for RX { open spec fn e(self) -> Seq<u8> { estr(self.s) + b8(self.l) } }
pub open spec fn rows_fit(xs: Seq<RX>) -> bool { forall|k: int| 0 <= k < xs.len() ==> fits((#[trigger] xs[k]).s) }
pub open spec fn tbytes(nm: Seq<char>, a: i64, xs: Seq<RX>) -> Seq<u8> { b4(SYMBOL_TABLE_MAGIC_NUMBER) + (estr(nm) + (b8(a) + (b8(xs.len() as i64) + ecat(xs)))) }
pub open spec fn rows_of(v: Seq<Seq<char>>) -> Seq<RX> { Seq::new(v.len(), |k: int| RX { s: v[k], l: k as i64 }) }
// the table gives every label the symbol of its row
pub open spec fn stated(v: Seq<Seq<char>>, xs: Seq<RX>) -> bool { forall|m: int| 0 <= m < xs.len() ==> 0 <= (#[trigger] xs[m]).l < v.len() && v[xs[m].l as int] == xs[m].s }
pub open spec fn distinct(v: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j] }
pub uninterp spec fn symt_name_s() -> Seq<char>;
#[verifier::external_body]
pub fn symt_name() -> (r: String) ensures r@ == symt_name_s(), fits(r@) { "rustfst_symboltable".to_string() }
impl SymbolTable {
    // SymbolTable::iter: the labels 0..n with their symbols
    #[verifier::loop_isolation(false)]
    pub fn rows(&self) -> (r: Vec<(Label, String)>) requires self.inv()
        ensures r@.len() == self.v().len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == k && r@[k].1@ == self.v()[k]
    {
        let mut o: Vec<(Label, String)> = Vec::new();
        let mut k: usize = 0;
        while k < self.bimap.id_to_string.len() invariant k <= self.v().len(), self.v().len() <= u32::MAX, o@.len() == k, forall|m: int| 0 <= m < k ==> (#[trigger] o@[m]).0 == m && o@[m].1@ == self.v()[m], decreases self.v().len() - k
        { o.push((k as Label, self.bimap.id_to_string[k].vclone())); k = k + 1; }
        o
    }
}
//@fn parsers/bin_symt/nom_parser.rs :: write_bin_symt
    requires symt.inv(), forall|k: int| 0 <= k < symt.v().len() ==> fits(#[trigger] symt.v()[k]),
    ensures r is Ok ==> final(file).w() == old(file).w() + tbytes(symt_name_s(), symt.v().len() as i64, rows_of(symt.v())),
@sub `, H : BuildHasher` => ``
@sub `SymbolTable < H >` => `SymbolTable`
@sub `OpenFstString :: new ( "rustfst_symboltable" )` => `OpenFstString :: new ( symt_name ( ) )`
@sub `symt . iter ( )` => `symt . rows ( )`
@start
let ghost w0 = file.w(); let ghost v = symt.v(); let ghost xs = rows_of(v); let ghost nm = symt_name_s();
let ghost h = b4(SYMBOL_TABLE_MAGIC_NUMBER) + (estr(nm) + (b8(v.len() as i64) + b8(v.len() as i64)));
@before_loop 0
proof { assert(file.w() =~= w0 + h); assert(xs.take(0) =~= Seq::<RX>::empty()); assert(file.w() =~= w0 + h + ecat(xs.take(0))); }
@loop 0 it=jt
    invariant jt.seq().len() == v.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] jt.seq()[k]).0 == k && jt.seq()[k].1@ == v[k], v == symt.v(), symt.inv(), xs == rows_of(v), forall|k: int| 0 <= k < v.len() ==> fits(#[trigger] v[k]),
        file.w() == w0 + h + ecat(xs.take(jt.index@ as int)),
@loop_start 0
let ghost ii = jt.index@ as int; let ghost w1 = file.w();
proof { assert((label, symbol) == jt.seq()[ii]); assert(fits(v[ii])); }
@loop_end 0
; proof { ecat_take(xs, ii); assert(xs[ii] == (RX { s: v[ii], l: ii as i64 })); assert(file.w() =~= w1 + xs[ii].e()); assert(file.w() =~= w0 + h + ecat(xs.take(ii + 1))); }
@after_loop 0
proof { assert(xs.take(xs.len() as int) =~= xs); assert(file.w() =~= w0 + tbytes(nm, v.len() as i64, xs)); }
//@end
pub open spec fn row_is(p: (i64, OpenFstString), x: RX) -> bool { p.0 == x.l && p.1.s@ == x.s }
//@fn parsers/bin_symt/nom_parser.rs :: parse_row_symt
    ensures r is Ok ==> (r->Ok_0).0@.len() < i@.len(), forall|x: RX| starts(i@, #[trigger] x.e()) && fits(x.s) ==> r is Ok && row_is((r->Ok_0).1, x) && (r->Ok_0).0@ == i@.skip(x.e().len() as int),
@sub `IResult < & [ u8 ] , ( i64 , OpenFstString ) , NomCustomError < & [ u8 ] > >` => `PResult < '_ , ( i64 , OpenFstString ) >`
@start
let ghost i0 = i@;
proof { assert forall|x: RX| starts(i0, #[trigger] x.e()) && fits(x.s) implies starts(i0, estr(x.s)) && starts(i0.skip(estr(x.s).len() as int), b8(x.l)) && i0.skip(estr(x.s).len() as int).skip(b8(x.l).len() as int) == i0.skip(x.e().len() as int) by {
    starts_cat(i0, estr(x.s), b8(x.l)); assert(i0.skip(estr(x.s).len() as int).skip(b8(x.l).len() as int) =~= i0.skip(x.e().len() as int)); } }
//@end
// nom's count: the parser, n times, in order
#[verifier::loop_isolation(false)]
pub fn count_row<'a>(n: usize, i: &'a [u8]) -> (r: PResult<'a, Vec<(i64, OpenFstString)>>)
    ensures r is Ok ==> (r->Ok_0).1@.len() == n && n <= i@.len(),
        forall|xs: Seq<RX>| starts(i@, #[trigger] ecat(xs)) && xs.len() == n && rows_fit(xs) ==> r is Ok && rows_are((r->Ok_0).1@, xs) && (r->Ok_0).0@ == i@.skip(ecat(xs).len() as int),
{
    let ghost i0 = i@;
    let mut i: &'a [u8] = i;
    let mut out: Vec<(i64, OpenFstString)> = Vec::new();
    let mut k: usize = 0;
    proof { assert forall|xs: Seq<RX>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n implies i0 == i0.skip(ecat(xs.take(0)).len() as int) by { assert(xs.take(0) =~= Seq::<RX>::empty()); assert(i0.skip(0) =~= i0); } }
    while k < n
        invariant k <= n, out@.len() == k, k + i@.len() <= i0.len(), forall|xs: Seq<RX>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n && rows_fit(xs) ==> rows_are(out@, xs.take(k as int)) && i@ == i0.skip(ecat(xs.take(k as int)).len() as int),
        decreases n - k,
    {
        proof { assert forall|xs: Seq<RX>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n && rows_fit(xs) implies starts(i@, xs[k as int].e()) && fits(xs[k as int].s) && i@.skip(xs[k as int].e().len() as int) == i0.skip(ecat(xs.take(k + 1)).len() as int) && xs.take(k + 1) == xs.take(k as int).push(xs[k as int]) by { ecat_step(i0, xs, k as int); assert(xs.take(k + 1) =~= xs.take(k as int).push(xs[k as int])); } }
        let (j, t) = parse_row_symt(i)?;
        out.push(t);
        i = j;
        k = k + 1;
    }
    proof { assert forall|xs: Seq<RX>| starts(i0, #[trigger] ecat(xs)) && xs.len() == n implies xs.take(n as int) == xs by { assert(xs.take(n as int) =~= xs); } }
    Ok((i, out))
}
pub open spec fn rows_are(p: Seq<(i64, OpenFstString)>, xs: Seq<RX>) -> bool { p.len() == xs.len() && forall|k: int| 0 <= k < p.len() ==> row_is(#[trigger] p[k], xs[k]) }
pub open spec fn in_order(xs: Seq<RX>) -> bool { (forall|k: int| 0 <= k < xs.len() ==> (#[trigger] xs[k]).l == k) && (forall|i: int, j: int| 0 <= i < j < xs.len() ==> #[trigger] xs[i].s != #[trigger] xs[j].s) }
pub open spec fn tcut(i: Seq<u8>, nm: Seq<char>, a: i64, xs: Seq<RX>) -> bool {
    let i1 = i.skip(b4(SYMBOL_TABLE_MAGIC_NUMBER).len() as int); let i2 = i1.skip(estr(nm).len() as int); let i3 = i2.skip(b8(a).len() as int); let i4 = i3.skip(b8(xs.len() as i64).len() as int);
    starts(i, b4(SYMBOL_TABLE_MAGIC_NUMBER)) && starts(i1, estr(nm)) && starts(i2, b8(a)) && starts(i3, b8(xs.len() as i64)) && starts(i4, ecat(xs)) && i4.skip(ecat(xs).len() as int) == i.skip(tbytes(nm, a, xs).len() as int)
}
pub proof fn tcuts(i: Seq<u8>, nm: Seq<char>, a: i64, xs: Seq<RX>) requires starts(i, tbytes(nm, a, xs)) ensures tcut(i, nm, a, xs) {
    let m = b4(SYMBOL_TABLE_MAGIC_NUMBER); let e4 = ecat(xs); let e3 = b8(xs.len() as i64) + e4; let e2 = b8(a) + e3; let e1 = estr(nm) + e2;
    let i1 = i.skip(m.len() as int); let i2 = i1.skip(estr(nm).len() as int); let i3 = i2.skip(b8(a).len() as int); let i4 = i3.skip(b8(xs.len() as i64).len() as int);
    starts_cat(i, m, e1); starts_cat(i1, estr(nm), e2); starts_cat(i2, b8(a), e3); starts_cat(i3, b8(xs.len() as i64), e4);
    assert(i4.skip(e4.len() as int) =~= i.skip(tbytes(nm, a, xs).len() as int));
}
// what reading the bytes of a table with these rows must give
pub open spec fn table_read(i: Seq<u8>, nm: Seq<char>, a: i64, xs: Seq<RX>, r: PResult<SymbolTable>) -> bool {
    &&& r is Ok ==> stated((r->Ok_0).1.v(), xs) && (r->Ok_0).0@ == i.skip(tbytes(nm, a, xs).len() as int)
    &&& in_order(xs) ==> r is Ok && (r->Ok_0).1.v() =~= Seq::new(xs.len(), |k: int| xs[k].s)
}
//@fn parsers/bin_symt/nom_parser.rs :: parse_symbol_table_bin noisolation
    requires i@.len() <= u32::MAX,
    ensures r is Ok ==> (r->Ok_0).1.inv(),
        forall|nm: Seq<char>, a: i64, xs: Seq<RX>| starts(i@, #[trigger] tbytes(nm, a, xs)) && fits(nm) && rows_fit(xs) && xs.len() <= i@.len() ==> table_read(i@, nm, a, xs, r),
@sub `IResult < & [ u8 ] , SymbolTable , NomCustomError < & [ u8 ] > >` => `PResult < '_ , SymbolTable >`
@sub `verify ( parse_bin_i32 , | v | * v == SYMBOL_TABLE_MAGIC_NUMBER ) ( i )` => `verify_eq ( i , SYMBOL_TABLE_MAGIC_NUMBER )`
@sub `count ( parse_row_symt , num_symbols as usize ) ( i )` => `count_row ( num_symbols as usize , i )`
@sub `pairs_idx_symbols . into_iter ( )` => `pairs_idx_symbols`
@sub `symt . add_symbol ( symbol )` => `symt . add_symbol ( symbol . s )`
@sub `nom :: Err :: Error ( NomCustomError :: SymbolTableError ( format ! ( "SymbolTable must contain increasing labels with no hole. Expected : {} and Got : {}" , inserted_label , key ) ) )` => `verr ( )`
@start
let ghost i0 = i@;
proof { assert forall|nm: Seq<char>, a: i64, xs: Seq<RX>| starts(i0, #[trigger] tbytes(nm, a, xs)) implies tcut(i0, nm, a, xs) by { tcuts(i0, nm, a, xs); } }
@before_loop 0
let ghost ps = pairs_idx_symbols@; let ghost ie = i@;
proof { assert forall|nm: Seq<char>, a: i64, xs: Seq<RX>| starts(i0, #[trigger] tbytes(nm, a, xs)) && fits(nm) && rows_fit(xs) && xs.len() <= i0.len() implies rows_are(ps, xs) && ie == i0.skip(tbytes(nm, a, xs).len() as int) by { assert(tcut(i0, nm, a, xs)); } }
proof { assert(symt.v() =~= Seq::<Seq<char>>::empty()); }
@loop 0 it=jt
    invariant jt.seq() == ps, ps.len() <= u32::MAX, symt.inv(), symt.v().len() <= jt.index@,
        forall|m: int| 0 <= m < jt.index@ ==> 0 <= (#[trigger] ps[m]).0 < symt.v().len() && symt.v()[ps[m].0 as int] == ps[m].1.s@,
        forall|k: int| 0 <= k < symt.v().len() ==> p_has(ps, jt.index@ as int, #[trigger] symt.v()[k]),
        p_ok(ps) ==> symt.v().len() == jt.index@,
        i@ == ie, forall|nm: Seq<char>, a: i64, xs: Seq<RX>| starts(i0, #[trigger] tbytes(nm, a, xs)) && fits(nm) && rows_fit(xs) && xs.len() <= i0.len() ==> rows_are(ps, xs) && ie == i0.skip(tbytes(nm, a, xs).len() as int),
@loop_start 0
let ghost ii = jt.index@ as int; let ghost b0 = symt.v(); let ghost nx = symbol.s@;
proof { assert((key, symbol) == ps[ii]); }
@after `let inserted_label = symt . add_symbol ( symbol . s ) ;`
proof {
    if p_ok(ps) {
        assert(!b0.contains(nx)) by { if b0.contains(nx) { let k = choose|k: int| 0 <= k < b0.len() && b0[k] == nx; assert(p_has(ps, ii, b0[k])); let m = choose|m: int| 0 <= m < ii && (#[trigger] ps[m]).1.s@ == b0[k]; assert(ps[m].1.s@ != ps[ii].1.s@); } }
        assert(ps[ii].0 == ii); assert(symt.v() == b0.push(nx));
        assert(inserted_label == ii) by { if inserted_label < b0.len() { assert(b0[inserted_label as int] == nx); assert(b0.contains(nx)); } }
    } else {
        assert forall|nm: Seq<char>, a: i64, xs: Seq<RX>| starts(i0, #[trigger] tbytes(nm, a, xs)) && fits(nm) && rows_fit(xs) && xs.len() <= i0.len() implies !in_order(xs) by { if in_order(xs) { assert(rows_are(ps, xs)); ord_ok(ps, xs); } }
    }
}
@loop_end 0
; proof {
    assert(inserted_label as i64 == key);
    assert forall|m: int| 0 <= m < ii + 1 implies 0 <= (#[trigger] ps[m]).0 < symt.v().len() && symt.v()[ps[m].0 as int] == ps[m].1.s@ by { if m < ii { assert(b0[ps[m].0 as int] == ps[m].1.s@); } }
    assert forall|k: int| 0 <= k < symt.v().len() implies p_has(ps, ii + 1, #[trigger] symt.v()[k]) by { if k < b0.len() { assert(p_has(ps, ii, b0[k])); let m = choose|m: int| 0 <= m < ii && (#[trigger] ps[m]).1.s@ == b0[k]; assert(ps[m].1.s@ == symt.v()[k]); } else { assert(ps[ii].1.s@ == symt.v()[k]); } }
}
@after_loop 0
proof {
    assert forall|nm: Seq<char>, a: i64, xs: Seq<RX>| starts(i0, #[trigger] tbytes(nm, a, xs)) && fits(nm) && rows_fit(xs) && xs.len() <= i0.len() implies stated(symt.v(), xs) && (in_order(xs) ==> symt.v() =~= Seq::new(xs.len(), |k: int| xs[k].s)) by {
        assert(rows_are(ps, xs));
        assert forall|m: int| 0 <= m < xs.len() implies 0 <= (#[trigger] xs[m]).l < symt.v().len() && symt.v()[xs[m].l as int] == xs[m].s by { assert(row_is(ps[m], xs[m])); }
        if in_order(xs) {
            ord_ok(ps, xs);
            assert forall|k: int| 0 <= k < xs.len() implies symt.v()[k] == (#[trigger] xs[k]).s by {}
        }
    }
}
//@end
pub open spec fn p_has(ps: Seq<(i64, OpenFstString)>, n: int, s: Seq<char>) -> bool { exists|m: int| 0 <= m < n && (#[trigger] ps[m]).1.s@ == s }
pub open spec fn p_ok(ps: Seq<(i64, OpenFstString)>) -> bool { (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0 == i) && (forall|i: int, j: int| 0 <= i < j < ps.len() ==> #[trigger] ps[i].1.s@ != #[trigger] ps[j].1.s@) }
pub proof fn ord_ok(ps: Seq<(i64, OpenFstString)>, xs: Seq<RX>) requires rows_are(ps, xs), in_order(xs) ensures p_ok(ps) {
    assert forall|k: int| 0 <= k < ps.len() implies (#[trigger] ps[k]).0 == k by { assert(row_is(ps[k], xs[k])); }
    assert forall|i: int, j: int| 0 <= i < j < ps.len() implies #[trigger] ps[i].1.s@ != #[trigger] ps[j].1.s@ by { assert(row_is(ps[i], xs[i]) && row_is(ps[j], xs[j])); assert(xs[i].s != xs[j].s); }
}
// Written and read back: the same table.
pub proof fn round_trip(v: Seq<Seq<char>>, i: Seq<u8>, r: PResult<SymbolTable>, nm: Seq<char>)
    requires distinct(v), v.len() <= u32::MAX, table_read(i, nm, v.len() as i64, rows_of(v), r)
    ensures r is Ok && (r->Ok_0).1.v() == v
{
    let xs = rows_of(v);
    assert(in_order(xs)) by { assert forall|i: int, j: int| 0 <= i < j < xs.len() implies #[trigger] xs[i].s != #[trigger] xs[j].s by { assert(v[i] != v[j]); } }
    assert(Seq::new(xs.len(), |k: int| xs[k].s) =~= v);
}
}
