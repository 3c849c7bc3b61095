//@use core
verus! {
// ---- C12: a symbol table is a one-to-one correspondence between labels 0..n and symbols
pub type Symbol = String;
// std::collections::HashMap<String, usize>: a map from strings to numbers
#[verifier::external_body]
pub struct StrMap { m: HashMap<String, usize> }
pub enum Entry<'a> { Occupied(OccE), Vacant(VacE<'a>) }
pub struct OccE { pub val: usize }
pub struct VacE<'a> { pub k: String, pub map: &'a mut StrMap }
impl OccE { pub fn get(&self) -> (r: &usize) ensures *r == self.val { &self.val } }
impl<'a> VacE<'a> {
    pub fn key(&self) -> (r: &String) ensures *r == self.k { &self.k }
    #[verifier::external_body]
    pub fn insert(self, n: usize) ensures (*final(self.map)).m() == (*old(self.map)).m().insert(self.k@, n) { self.map.m.insert(self.k, n); }
}
impl StrMap {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures final(self).m() == old(self).m() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&usize>) ensures self.m().dom().contains(k@) ==> r is Some && *(r->0) == self.m()[k@], !self.m().dom().contains(k@) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: String) -> (r: Entry<'_>)
        ensures old(self).m().dom().contains(k@) ==> (r is Occupied && r->Occupied_0.val == old(self).m()[k@] && *final(self) == *old(self)),
            !old(self).m().dom().contains(k@) ==> (r is Vacant && r->Vacant_0.k == k && *(r->Vacant_0.map) == *old(self) && *final(self) == *final(r->Vacant_0.map)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn opt_str(o: Option<&String>) -> (r: Option<&str>) ensures o is Some <==> r is Some, o is Some ==> r->0@ == (*(o->0))@ { o.map(|s| s.as_str()) }
//@type symbol_table.rs :: struct BiHashMapString
//@tsub `< H : BuildHasher = RandomState >` => ``
//@tsub `HashMap < String , usize , H >` => `StrMap`
//@type symbol_table.rs :: struct SymbolTable
//@tsub `< H : BuildHasher = RandomState >` => ``
//@tsub `BiHashMapString < H >` => `BiHashMapString`
pub open spec fn names(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl BiHashMapString {
    pub open spec fn v(&self) -> Seq<Seq<char>> { names(self.id_to_string@) }
    pub open spec fn inv(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.v().len() ==> #[trigger] self.string_to_id.m().dom().contains(self.v()[i]) && self.string_to_id.m()[self.v()[i]] == i
        &&& forall|k: Seq<char>| #[trigger] self.string_to_id.m().dom().contains(k) ==> self.string_to_id.m()[k] < self.v().len() && self.v()[self.string_to_id.m()[k] as int] == k
    }
//@fn symbol_table.rs :: BiHashMapString :: new
    ensures r.inv(), r.v() == Seq::<Seq<char>>::empty(),
@sub `HashMap :: new` => `StrMap :: new`
@tail
proof { assert(r__.v() =~= Seq::<Seq<char>>::empty()); }
//@end
//@fn symbol_table.rs :: BiHashMapString :: len
    ensures r == self.v().len(),
//@end
//@fn symbol_table.rs :: BiHashMapString :: reserve
    requires old(self).inv() ensures final(self).inv(), final(self).v() == old(self).v(),
//@end
//@fn symbol_table.rs :: BiHashMapString :: get_id_or_insert
    requires old(self).inv()
    ensures final(self).inv(), r < final(self).v().len(), final(self).v()[r as int] == v@,
        old(self).v().contains(v@) ==> final(self).v() == old(self).v(), !old(self).v().contains(v@) ==> final(self).v() == old(self).v().push(v@) && r == old(self).v().len(),
@sub `v : impl Into < String >` => `v : String`
@sub `v . into ( )` => `v`
@start
let ghost v0 = self.v(); let ghost m0 = self.string_to_id.m();
proof { if m0.dom().contains(v@) { assert(v0[m0[v@] as int] == v@); } else if v0.contains(v@) { let j = choose|j: int| 0 <= j < v0.len() && v0[j] == v@; assert(m0.dom().contains(v0[j])); } }
@tail
proof {
    if !m0.dom().contains(v@) {
        assert(self.v() =~= v0.push(v@)); assert(self.string_to_id.m() == m0.insert(v@, v0.len() as usize));
        assert forall|i: int| 0 <= i < self.v().len() implies #[trigger] self.string_to_id.m().dom().contains(self.v()[i]) && self.string_to_id.m()[self.v()[i]] == i by { if i < v0.len() { assert(m0.dom().contains(v0[i])); } }
        assert forall|k: Seq<char>| #[trigger] self.string_to_id.m().dom().contains(k) implies self.string_to_id.m()[k] < self.v().len() && self.v()[self.string_to_id.m()[k] as int] == k by { if k != v@ { assert(m0.dom().contains(k)); } }
    }
}
//@end
//@fn symbol_table.rs :: BiHashMapString :: get_id
    requires self.inv()
    ensures self.v().contains(v@) <==> r is Some, r is Some ==> r->0 < self.v().len() && self.v()[r->0 as int] == v@,
@sub `v : impl AsRef < str >` => `v : & str`
@sub `v . as_ref ( )` => `v`
@start
proof { let v0 = self.v(); let m0 = self.string_to_id.m(); if m0.dom().contains(v@) { assert(v0[m0[v@] as int] == v@); } else if v0.contains(v@) { let j = choose|j: int| 0 <= j < v0.len() && v0[j] == v@; assert(m0.dom().contains(v0[j])); } }
//@end
//@fn symbol_table.rs :: BiHashMapString :: get_string
    ensures r is Some <==> id < self.v().len(), r is Some ==> r->0@ == self.v()[id as int],
@sub `self . id_to_string . get ( id ) . map ( | s | s . as_str ( ) )` => `opt_str ( self . id_to_string . get ( id ) )`
//@end
}
impl SymbolTable {
    pub open spec fn v(&self) -> Seq<Seq<char>> { self.bimap.v() }
    pub open spec fn inv(&self) -> bool { self.bimap.inv() && self.bimap.v().len() <= u32::MAX }
//@fn symbol_table.rs :: SymbolTable :: empty
    ensures r.inv(), r.v() == Seq::<Seq<char>>::empty(),
//@end
//@fn symbol_table.rs :: SymbolTable :: new
    ensures r.inv(), r.v().len() == 1,
@sub `EPS_SYMBOL . to_string ( )` => `eps_symbol ( )`
@tail
proof { assert(Seq::<Seq<char>>::empty().len() == 0); }
//@end
//@fn symbol_table.rs :: SymbolTable :: len
    ensures r == self.v().len(),
//@end
//@fn symbol_table.rs :: SymbolTable :: is_empty
    ensures r == (self.v().len() == 0),
//@end
//@fn symbol_table.rs :: SymbolTable :: reserve
    requires old(self).inv() ensures final(self).inv(), final(self).v() == old(self).v(),
//@end
//@fn symbol_table.rs :: SymbolTable :: add_symbol
    requires old(self).inv(), old(self).v().len() < u32::MAX,
    ensures final(self).inv(), r < final(self).v().len(), final(self).v()[r as int] == sym@, final(self).v() == v_add(old(self).v(), sym@),
@sub `sym : impl Into < String >` => `sym : String`
@sub `sym . into ( )` => `sym`
//@end
//@fn symbol_table.rs :: SymbolTable :: get_label
    requires self.inv()
    ensures r is Some <==> self.v().contains(sym@), r is Some ==> r->0 < self.v().len() && self.v()[r->0 as int] == sym@,
@sub `sym : impl AsRef < str >` => `sym : & str`
@sub `self . bimap . get_id ( sym ) . map ( | it | it as Label )` => `match self . bimap . get_id ( sym ) { Some ( it ) => Some ( it as Label ) , None => None }`
//@end
//@fn symbol_table.rs :: SymbolTable :: get_symbol
    ensures r is Some <==> label < self.v().len(), r is Some ==> r->0@ == self.v()[label as int],
//@end
//@fn symbol_table.rs :: SymbolTable :: contains_symbol
    requires self.inv() ensures r == self.v().contains(sym@),
@sub `sym : impl AsRef < str >` => `sym : & str`
//@end
//@fn symbol_table.rs :: SymbolTable :: contains_label
    ensures r == (label < self.v().len()),
//@end
//@fn symbol_table.rs :: SymbolTable :: add_table
    requires old(self).inv(), other.inv(), old(self).v().len() + other.v().len() <= u32::MAX,
    ensures final(self).inv(), final(self).v() == v_add_all(old(self).v(), other.v()),
@sub `other . symbols ( )` => `other . bimap . id_to_string . iter ( )`
@sub `self . add_symbol ( symbol )` => `self . add_symbol ( symbol . vclone ( ) )`
@start
let ghost v0 = self.v(); let ghost o = other.v();
proof { assert(o.take(0) =~= Seq::<Seq<char>>::empty()); }
@loop 0 it=jt
    invariant self.inv(), jt.seq().len() == o.len(), forall|k: int| 0 <= k < o.len() ==> (*(#[trigger] jt.seq()[k]))@ == o[k], self.v() == v_add_all(v0, o.take(jt.index@ as int)), v0.len() + o.len() <= u32::MAX, self.v().len() <= v0.len() + jt.index@,
@loop_start 0
let ghost ii = jt.index@ as int;
@loop_end 0
proof { assert(symbol@ == o[ii]); assert(o.take(ii + 1).drop_last() =~= o.take(ii)); }
@after_loop 0
proof { assert(o.take(o.len() as int) =~= o); }
//@end
//@fn symbol_table.rs :: SymbolTable :: from_parsed_symt_text
    requires parsed_symt_text.pairs@.len() <= u32::MAX,
    ensures r is Ok ==> r->Ok_0.inv() && described(r->Ok_0.v(), parsed_symt_text.pairs@),
        (forall|i: int| 0 <= i < parsed_symt_text.pairs@.len() ==> #[trigger] parsed_symt_text.pairs@[i].1 == i) && (forall|i: int, j: int| 0 <= i < j < parsed_symt_text.pairs@.len() ==> #[trigger] parsed_symt_text.pairs@[i].0@ != #[trigger] parsed_symt_text.pairs@[j].0@) ==> r is Ok && r->Ok_0.v().len() == parsed_symt_text.pairs@.len(),
@sub `parsed_symt_text . pairs . into_iter ( )` => `parsed_symt_text . pairs`
@start
let ghost ps = parsed_symt_text.pairs@;
@before_loop 0
proof { assert(bimap.v() =~= Seq::<Seq<char>>::empty()); }
@loop 0 it=jt
    invariant jt.seq() == ps, ps.len() <= u32::MAX, bimap.inv(), bimap.v().len() <= jt.index@, described(bimap.v(), ps.take(jt.index@ as int)), forall|k: int| 0 <= k < bimap.v().len() ==> ps_has(ps, jt.index@ as int, #[trigger] bimap.v()[k]),
        ps_ok(ps) ==> bimap.v().len() == jt.index@,
@loop_start 0
let ghost ii = jt.index@ as int; let ghost b0 = bimap.v();
proof { assert((symbol, label) == ps[ii]); }
@after `let inserted_label = bimap . get_id_or_insert ( symbol ) ;`
proof {
    if ps_ok(ps) { assert(inserted_label as Label == label) by { if b0.contains(symbol@) { let k = choose|k: int| 0 <= k < b0.len() && b0[k] == symbol@; assert(ps_has(ps, ii, b0[k])); let m = choose|m: int| 0 <= m < ii && (#[trigger] ps[m]).0@ == b0[k]; assert(ps[m].0@ != ps[ii].0@); } } assert(ps[ii].1 == ii); assert(!b0.contains(symbol@)) by { if b0.contains(symbol@) { let k = choose|k: int| 0 <= k < b0.len() && b0[k] == symbol@; assert(ps_has(ps, ii, b0[k])); let m = choose|m: int| 0 <= m < ii && (#[trigger] ps[m]).0@ == b0[k]; assert(ps[m].0@ != ps[ii].0@); } } }
}
@loop_end 0
proof {
    assert(label < bimap.v().len() && bimap.v()[label as int] == ps[ii].0@);
    assert forall|m: int| 0 <= m < ii + 1 implies (#[trigger] ps.take(ii + 1)[m]).1 < bimap.v().len() && bimap.v()[ps.take(ii + 1)[m].1 as int] == ps.take(ii + 1)[m].0@ by { if m < ii { assert(ps.take(ii)[m] == ps[m]); assert(b0[ps[m].1 as int] == ps[m].0@); } }
    assert forall|k: int| 0 <= k < bimap.v().len() implies ps_has(ps, ii + 1, #[trigger] bimap.v()[k]) by { if k < b0.len() { assert(ps_has(ps, ii, b0[k])); let m = choose|m: int| 0 <= m < ii && (#[trigger] ps[m]).0@ == b0[k]; assert(ps[m].0@ == bimap.v()[k]); } else { assert(ps[ii].0@ == bimap.v()[k]); } }
}
@after_loop 0
proof { assert(ps.take(ps.len() as int) =~= ps); }
//@end
}
#[verifier::external_body]
pub fn eps_symbol() -> String { "<eps>".to_string() }
//@type parsers/text_symt/parsed_text_symt.rs :: struct ParsedTextSymt
// adding a symbol: nothing when it is there, else the next label
pub open spec fn v_add(v: Seq<Seq<char>>, s: Seq<char>) -> Seq<Seq<char>> { if v.contains(s) { v } else { v.push(s) } }
pub open spec fn v_add_all(v: Seq<Seq<char>>, o: Seq<Seq<char>>) -> Seq<Seq<char>> decreases o.len() { if o.len() == 0 { v } else { v_add(v_add_all(v, o.drop_last()), o.last()) } }
// every pair read is in the table
pub open spec fn described(v: Seq<Seq<char>>, ps: Seq<(Symbol, Label)>) -> bool { forall|m: int| 0 <= m < ps.len() ==> (#[trigger] ps[m]).1 < v.len() && v[ps[m].1 as int] == ps[m].0@ }
pub open spec fn ps_has(ps: Seq<(Symbol, Label)>, n: int, s: Seq<char>) -> bool { exists|m: int| 0 <= m < n && (#[trigger] ps[m]).0@ == s }
pub open spec fn ps_ok(ps: Seq<(Symbol, Label)>) -> bool { (forall|i: int| 0 <= i < ps.len() ==> #[trigger] ps[i].1 == i) && (forall|i: int, j: int| 0 <= i < j < ps.len() ==> #[trigger] ps[i].0@ != #[trigger] ps[j].0@) }
}
