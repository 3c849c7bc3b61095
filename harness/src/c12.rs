//! C12 symbol tables, C13 stored forms, C16 representations.
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_traits::{FstIterator, SerializableFst, StateIterator};
use rustfst::prelude::*;
use std::sync::Arc;

fn cf(k: usize) -> Cfg { Cfg { states: 3 + k % 4, trs: 4 + k % 7, nostart: if k % 6 == 0 { 0.4 } else { 0.02 }, zero: if k % 5 == 0 { 0.2 } else { 0.0 }, ..Cfg::default() } }

/// the flags that may be asserted of g (STRING is only defined for a machine with a start state)
fn tprops<W: Semiring>(g: &G<W>) -> rustfst::fst_properties::FstProperties { use rustfst::fst_properties::FstProperties as P; let mut t = crate::c02::truth(g); if g.start.is_none() { t |= P::STRING | P::NOT_STRING; } t }
/// every accessor of an expanded machine against the abstract machine
fn accessors<W: Semiring, F: ExpandedFst<W> + for<'a> StateIterator<'a> + for<'a> FstIterator<'a, W>>(what: &str, f: &F, g: &G<W>) -> Res {
    let n = g.n();
    req!(f.num_states() == n, "{}: num_states {} instead of {}", what, f.num_states(), n);
    req!(f.start() == g.start, "{}: start {:?} instead of {:?}", what, f.start(), g.start);
    req!(f.states_range() == (0..n as u32) && f.states_iter().collect::<Vec<_>>() == (0..n as u32).collect::<Vec<_>>(), "{}: states", what);
    for q in 0..n {
        let s = q as u32;
        req!(tri!(f.final_weight(s)) == g.fin[q], "{}: final_weight({})", what, s);
        req!(unsafe { f.final_weight_unchecked(s) } == g.fin[q], "{}: final_weight_unchecked({})", what, s);
        req!(tri!(f.is_final(s)) == g.fin[q].is_some() || g.fin[q].as_ref().map(|w| w.is_zero()) == Some(true), "{}: is_final({})", what, s);
        req!(tri!(f.num_trs(s)) == g.trs[q].len() && unsafe { f.num_trs_unchecked(s) } == g.trs[q].len(), "{}: num_trs({})", what, s);
        let conv = |t: &[Tr<W>]| t.iter().map(|t| A { i: t.ilabel, o: t.olabel, w: t.weight.clone(), n: t.nextstate }).collect::<Vec<_>>();
        let t = tri!(f.get_trs(s));
        req!(conv(t.trs()) == g.trs[q], "{}: get_trs({})", what, s);
        req!(conv(unsafe { f.get_trs_unchecked(s) }.trs()) == g.trs[q], "{}: get_trs_unchecked({})", what, s);
        req!(conv(t.to_trs_vec().trs()) == g.trs[q] && conv(t.shallow_clone().trs()) == g.trs[q] && t.len() == g.trs[q].len(), "{}: copies of the transitions of {}", what, s);
        let (ni, no) = (g.trs[q].iter().filter(|a| a.i == 0).count(), g.trs[q].iter().filter(|a| a.o == 0).count());
        req!(tri!(f.num_input_epsilons(s)) == ni && tri!(f.num_output_epsilons(s)) == no, "{}: epsilon counts of {}", what, s);
        req!(f.is_start(s) == (g.start == Some(s)), "{}: is_start({})", what, s);
    }
    let x = n as u32;
    req!(f.final_weight(x).is_err() && f.num_trs(x).is_err() && f.get_trs(x).is_err() && f.num_input_epsilons(x).is_err() && f.num_output_epsilons(x).is_err(), "{}: an accessor accepts the missing state {}", what, x);
    let mut k = 0;
    for d in f.fst_iter() {
        req!(d.state_id == k as u32 && d.num_trs == g.trs[k].len() && d.final_weight == g.fin[k] && d.trs.trs().iter().map(|t| A { i: t.ilabel, o: t.olabel, w: t.weight.clone(), n: t.nextstate }).collect::<Vec<_>>() == g.trs[k], "{}: fst_iter at state {}", what, k);
        k += 1;
    }
    req!(k == n, "{}: fst_iter gives {} states", what, k);
    k = 0;
    for d in f.clone().fst_into_iter() {
        req!(d.state_id == k as u32 && d.num_trs == g.trs[k].len() && d.final_weight == g.fin[k], "{}: fst_into_iter at state {}", what, k);
        req!(d.trs.map(|t| A { i: t.ilabel, o: t.olabel, w: t.weight, n: t.nextstate }).collect::<Vec<_>>() == g.trs[k], "{}: fst_into_iter transitions of state {}", what, k);
        k += 1;
    }
    req!(k == n, "{}: fst_into_iter gives {} states", what, k);
    Ok(())
}
fn symt(r: &mut R, n: usize) -> SymbolTable { let mut s = SymbolTable::new(); for i in 0..n { s.add_symbol(["a", "b", "été", "a b", "\"q\"", "x:y", "<1>", "-"][r.gen_range(0..8)].to_string() + &i.to_string()); } s }

fn repr<W: SerializableSemiring + 'static>(g: &G<W>, v: usize, st: &Option<Arc<SymbolTable>>) -> Res {
    let mut a = variant(g, v);
    if let Some(s) = st { a.set_input_symbols(s.clone()); if v % 2 == 0 { a.set_output_symbols(s.clone()); } }
    accessors("VectorFst", &a, g)?;
    let before = a.clone();
    let c: ConstFst<W> = a.clone().into();
    accessors("ConstFst from VectorFst", &c, g)?;
    req!(read(&a) == *g && a == before, "the VectorFst changed when its clone was converted");
    req!(c.input_symbols() == a.input_symbols() && c.output_symbols() == a.output_symbols(), "symbol tables lost by the conversion");
    let (known, truth) = (c.properties(), tprops(g));
    req!((known & !truth).is_empty(), "the ConstFst asserts {:?} which is false", known & !truth);
    // back to a VectorFst
    let b: VectorFst<W> = rustfst::algorithms::fst_convert_from_ref(&c);
    accessors("fst_convert_from_ref of a ConstFst", &b, g)?;
    let b2: VectorFst<W> = rustfst::algorithms::fst_convert(c.clone());
    accessors("fst_convert of a ConstFst", &b2, g)?;
    let b3: VectorFst<W> = rustfst::algorithms::fst_convert(a.clone());
    accessors("fst_convert of a VectorFst", &b3, g)?;
    for (x, n) in [(&b, "fst_convert_from_ref"), (&b2, "fst_convert"), (&b3, "fst_convert of a VectorFst")] {
        req!((x.properties() & !truth).is_empty(), "{} asserts {:?} which is false", n, x.properties() & !truth);
        req!(x.input_symbols() == a.input_symbols() && x.output_symbols() == a.output_symbols(), "symbol tables lost by {}", n);
    }
    req!(c == ConstFst::from(a.clone()) && c.clone() == c && b == a, "equality of equal machines");
    // one change makes a different machine
    let n = g.fin.len();
    if n == 0 { return Ok(()); }
    let q = v % n;
    let other = |w: &W| if w.is_one() { W::zero() } else { W::one() };
    let mut hs = vec![];
    { let mut h = g.clone(); h.start = if g.start == Some(q as u32) { None } else { Some(q as u32) }; hs.push(("start state", h)); }
    { let mut h = g.clone(); h.fin[q] = match &g.fin[q] { None => Some(W::one()), Some(_) => None }; hs.push(("final state", h)); }
    if let Some(w) = &g.fin[q] { let mut h = g.clone(); h.fin[q] = Some(other(w)); hs.push(("final weight", h)); }
    { let mut h = g.clone(); h.fin.push(None); h.trs.push(vec![]); hs.push(("number of states", h)); }
    let l = g.trs[q].len();
    if l > 0 {
        let k = (v / n) % l;
        { let mut h = g.clone(); h.trs[q][k].i += 1; hs.push(("input label", h)); }
        { let mut h = g.clone(); h.trs[q][k].o += 1; hs.push(("output label", h)); }
        { let mut h = g.clone(); h.trs[q][k].w = other(&g.trs[q][k].w); hs.push(("weight", h)); }
        if n > 1 { let mut h = g.clone(); h.trs[q][k].n = (h.trs[q][k].n + 1) % n as u32; hs.push(("target", h)); }
        { let mut h = g.clone(); h.trs[q].pop(); hs.push(("number of transitions", h)); }
    }
    for (what, h) in hs {
        let d = variant(&h, v);
        req!(d != a && a != d, "VectorFsts that differ in a {} are equal", what);
        let e: ConstFst<W> = d.into();
        req!(e != c && c != e, "ConstFsts that differ in a {} are equal", what);
    }
    Ok(())
}
pub fn c16(c: &mut Ctx) {
    c.section("representations, exhaustive 2 states 2 transitions");
    let mut i = 0;
    let step = if c.thorough { 1 } else { 5 };
    enumerate::<TW>(2, 2, 1, false, &mut |g| { i += 1; if i % step != 0 { return true; } c.case(g.show(), g.ntrs() > 0, || repr(g, i, &None)) });
    c.section("representations, random tropical");
    let mut r = c.rng(161);
    for k in 0..c.n(8000, 100000) {
        if !c.go() { return; }
        let g = gen::<TW>(&mut r, &cf(k));
        let st = if k % 3 == 0 { Some(Arc::new(symt(&mut r, 4))) } else { None };
        c.case(g.show(), g.ntrs() > 0, || repr(&g, k, &st));
    }
    c.section("representations, random integer, larger");
    for k in 0..c.n(1500, 20000) { if !c.go() { return; } let g = gen::<IW>(&mut r, &Cfg { states: 12, trs: 40, ..cf(k) }); c.case(g.show(), g.ntrs() > 0, || repr(&g, k, &None)); }
}

fn norm<W: Semiring>(g: &G<W>) -> G<W> { let mut h = g.clone(); for f in h.fin.iter_mut() { if f.as_ref().map(|w| w.is_zero()) == Some(true) { *f = None } } h }
fn binary<W: SerializableSemiring + 'static>(g: &G<W>, v: usize, st: &Option<Arc<SymbolTable>>) -> Res {
    let mut a = variant(g, v);
    if let Some(s) = st { if v % 3 != 1 { a.set_input_symbols(s.clone()); } if v % 3 != 2 { a.set_output_symbols(s.clone()); } }
    let want = norm(g);
    let tr = tprops(&want);
    let mut buf: Vec<u8> = vec![];
    tri!(a.store(&mut buf));
    req!(read(&a) == *g, "store changed the machine");
    let b = match VectorFst::<W>::load(&buf) { Ok(b) => b, Err(e) => return Err(format!("load of a stored VectorFst: {:?}", e)) };
    accessors("VectorFst stored and loaded", &b, &want)?;
    req!(b.input_symbols() == a.input_symbols() && b.output_symbols() == a.output_symbols(), "symbol tables differ after store and load");
    if want == *g { req!(b.properties() == a.properties(), "properties {:?} became {:?} by store and load", a.properties(), b.properties()); }
    for cut in [1usize, 2, 5, 9] { if buf.len() > cut { let n = buf.len() - cut; req!(g.n() == 0 || VectorFst::<W>::load(&buf[..n]).is_err(), "load accepts a file cut after {} of {} bytes", n, buf.len()); } }
    let c: ConstFst<W> = a.clone().into();
    let mut buf: Vec<u8> = vec![];
    tri!(c.store(&mut buf));
    let d = match ConstFst::<W>::load(&buf) { Ok(b) => b, Err(e) => return Err(format!("load of a stored ConstFst: {:?}", e)) };
    accessors("ConstFst stored and loaded", &d, &want)?;
    req!(d.input_symbols() == c.input_symbols() && d.output_symbols() == c.output_symbols(), "symbol tables differ after store and load of a ConstFst");
    if want == *g { req!(d.properties() == c.properties() && (d.properties() & !tr).is_empty(), "properties of the ConstFst after store and load"); }
    req!(VectorFst::<W>::load(&buf).is_err(), "a stored ConstFst is accepted as a VectorFst");
    Ok(())
}
fn files<W: SerializableSemiring + 'static>(g: &G<W>, v: usize, dir: &std::path::Path) -> Res {
    let a = variant(g, v);
    let want = norm(g);
    let p = dir.join("m.fst");
    tri!(a.write(&p));
    accessors("VectorFst written and read", &tri!(VectorFst::<W>::read(&p)), &want)?;
    let c: ConstFst<W> = a.clone().into();
    tri!(c.write(&p));
    accessors("ConstFst written and read", &tri!(ConstFst::<W>::read(&p)), &want)?;
    let m = tri!(VectorFst::<W>::read_from_const(&p));
    accessors("ConstFst written and read as a VectorFst", &m, &want)?;
    tri!(a.write_text(&p));
    req!(tri!(std::fs::read_to_string(&p)) == tri!(a.text()), "write_text and text differ");
    accessors("write_text and read_text", &tri!(VectorFst::<W>::read_text(&p)), &read(&tri!(VectorFst::<W>::from_text_string(&tri!(a.text())))))
}
/// The text form lists the transitions and final states: isolated states without a line are not part of it.
fn text<W: SerializableSemiring + 'static>(g: &G<W>, v: usize) -> Res {
    let a = variant(g, v);
    let t = tri!(a.text());
    let c: ConstFst<W> = a.clone().into();
    req!(tri!(c.text()) == t, "text of the ConstFst differs");
    let mut want = norm(g);
    if g.start.is_none() { want = G::new(); }
    let mut m = 0;
    for q in 0..want.n() { if want.fin[q].is_some() || !want.trs[q].is_empty() || want.start == Some(q as u32) { m = m.max(q + 1); } for x in &want.trs[q] { m = m.max(x.n as usize + 1) } }
    want.fin.truncate(m);
    want.trs.truncate(m);
    let tr = tprops(&want);
    let mut ls: Vec<&str> = t.lines().collect();
    ls.insert((v * 7) % (ls.len() + 1), ["foo", "1\tfoo", "1 2 3 4", "-1"][v % 4]);
    req!(VectorFst::<W>::from_text_string(&ls.join("\n")).is_err(), "the text {:?} is read as a machine", ls);
    let b = tri!(VectorFst::<W>::from_text_string(&t));
    accessors(&format!("VectorFst from its text {:?}", t), &b, &want)?;
    req!((b.properties() & !tr).is_empty(), "the machine read from text asserts {:?}", b.properties() & !tr);
    let d = tri!(ConstFst::<W>::from_text_string(&t));
    accessors(&format!("ConstFst from its text {:?}", t), &d, &want)?;
    req!((d.properties() & !tr).is_empty(), "the ConstFst read from text asserts {:?}", d.properties() & !tr);
    Ok(())
}
fn remap<V: Semiring>(g: &G<IW>, f: &dyn Fn(&IW) -> V) -> G<V> { let m = |w: &IW| if w.is_zero() { V::zero() } else { f(w) }; G { start: g.start, fin: g.fin.iter().map(|x| x.as_ref().map(m)).collect(), trs: g.trs.iter().map(|t| t.iter().map(|a| A { i: a.i, o: a.o, n: a.n, w: m(&a.w) }).collect()).collect() } }
pub fn c13(c: &mut Ctx) {
    c.section("binary and text, exhaustive 2 states 2 transitions");
    let mut i = 0;
    let step = if c.thorough { 1 } else { 7 };
    enumerate::<TW>(2, 2, 1, false, &mut |g| { i += 1; if i % step != 0 { return true; } c.case(g.show(), g.ntrs() > 0, || binary(g, i, &None).and_then(|_| text(g, i))) });
    c.section("binary and text, random tropical");
    let mut r = c.rng(131);
    for k in 0..c.n(6000, 100000) {
        if !c.go() { return; }
        let mut g = gen::<TW>(&mut r, &cf(k));
        if k % 4 == 0 { let ws = [0.1f32, 1e-20, 3.4e38, -2.5, 1e7, 0.333_333_34]; for a in g.trs.iter_mut().flatten() { a.w = TW::new(ws[r.gen_range(0..6)]) } }
        let st = if k % 3 == 0 { let n = r.gen_range(0..6); Some(Arc::new(symt(&mut r, n))) } else { None };
        c.case(g.show(), g.ntrs() > 0, || binary(&g, k, &st).and_then(|_| text(&g, k)));
    }
    c.section("binary and text, random integer and product weights");
    for k in 0..c.n(2500, 40000) {
        if !c.go() { return; }
        let g = gen::<IW>(&mut r, &Cfg { states: 9, trs: 20, ..cf(k) });
        c.case(g.show(), g.ntrs() > 0, || binary(&g, k, &None).and_then(|_| text(&g, k)));
        let h = G::<ProductWeight<TW, IW>> { start: g.start, fin: g.fin.iter().map(|f| f.as_ref().map(|w| ProductWeight::new((TW::new(*w.value() as f32), w.clone())))).collect(), trs: g.trs.iter().map(|t| t.iter().map(|a| A { i: a.i, o: a.o, n: a.n, w: ProductWeight::new((TW::new(0.5 + *a.w.value() as f32), a.w.clone())) }).collect()).collect() };
        c.case(h.show(), h.ntrs() > 0, || binary(&h, k, &None).and_then(|_| text(&h, k)));
    }
    c.section("every weight type");
    use rustfst::semirings::*;
    for k in 0..c.n(700, 10000) {
        if !c.go() { return; }
        let g = gen::<IW>(&mut r, &cf(k));
        let ls: Vec<Vec<u32>> = (0..8).map(|_| (0..r.gen_range(0..4)).map(|_| [1u32, 2, 70000, u32::MAX - 1][r.gen_range(0..4)]).collect()).collect();
        let l = |w: &IW| ls[(*w.value() as usize) % 8].clone();
        let x = |w: &IW| TW::new([0.3f32, 1e-7, 2.0, 7.25][(*w.value() as usize) % 4]);
        macro_rules! ty { ($t:ty, $f:expr) => {{ let h: G<$t> = remap(&g, &$f); c.case(format!("{} {}", stringify!($t), h.show()), h.ntrs() > 0, || binary(&h, k, &None).and_then(|_| text(&h, k))) }}; }
        ty!(LogWeight, |w: &IW| LogWeight::new(*x(w).value()));
        ty!(ProbabilityWeight, |w: &IW| ProbabilityWeight::new(*x(w).value()));
        ty!(StringWeightLeft, |w: &IW| StringWeightLeft::from(l(w)));
        ty!(StringWeightRight, |w: &IW| StringWeightRight::from(l(w)));
        ty!(StringWeightRestrict, |w: &IW| StringWeightRestrict::from(l(w)));
        ty!(GallicWeightLeft<TW>, |w: &IW| GallicWeightLeft::from((l(w), x(w))));
        ty!(GallicWeightRight<TW>, |w: &IW| GallicWeightRight::from((l(w), x(w))));
        ty!(GallicWeightRestrict<TW>, |w: &IW| GallicWeightRestrict::from((l(w), x(w))));
        ty!(GallicWeightMin<TW>, |w: &IW| GallicWeightMin::from((l(w), x(w))));
        ty!(GallicWeight<TW>, |w: &IW| { let mut a = GallicWeight::from((l(w), x(w))); if *w.value() % 2 == 0 { a.plus_assign(GallicWeight::from((vec![5u32], TW::new(1.5)))).unwrap(); } a });
    }
    c.section("files");
    let dir = std::env::temp_dir().join(format!("vharness.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    for k in 0..c.n(300, 3000) { if !c.go() { break; } let g = gen::<TW>(&mut r, &cf(k)); c.case(g.show(), g.ntrs() > 0, || files(&g, k, &dir)); }
    let _ = std::fs::remove_dir_all(&dir);
}

/// A symbol table against the list of its symbols.
fn table_is(what: &str, t: &SymbolTable, want: &[String]) -> Res {
    req!(t.len() == want.len() && t.is_empty() == want.is_empty(), "{}: length {} instead of {}", what, t.len(), want.len());
    for (i, s) in want.iter().enumerate() {
        req!(t.get_symbol(i as u32) == Some(s.as_str()), "{}: symbol {} is {:?}, should be {:?}", what, i, t.get_symbol(i as u32), s);
        req!(t.get_label(s) == Some(i as u32), "{}: label of {:?} is {:?}, should be {}", what, s, t.get_label(s), i);
        req!(t.contains_label(i as u32) && t.contains_symbol(s), "{}: contains", what);
    }
    req!(t.get_symbol(want.len() as u32).is_none() && !t.contains_label(want.len() as u32) && t.get_symbol(u32::MAX).is_none(), "{}: a label without symbol", what);
    req!(t.get_label("no such symbol").is_none() && !t.contains_symbol("no such symbol"), "{}: a symbol that was never added", what);
    req!(t.labels().collect::<Vec<_>>() == (0..want.len() as u32).collect::<Vec<_>>(), "{}: labels()", what);
    req!(t.symbols().collect::<Vec<_>>() == want.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "{}: symbols()", what);
    req!(t.iter().collect::<Vec<_>>() == want.iter().enumerate().map(|(i, s)| (i as u32, s.as_str())).collect::<Vec<_>>(), "{}: iter()", what);
    Ok(())
}
fn history(ops: &[(u8, Vec<usize>)], dir: &std::path::Path, io: bool) -> Res {
    let names = ["", "a", "b", "<eps>", "été", "a:b", "Ω", "zz", "0", "-1", "\"q", "aa"];
    let mut t = SymbolTable::new();
    let mut m: Vec<String> = vec!["<eps>".into()];
    let add = |m: &mut Vec<String>, s: &str| -> u32 { match m.iter().position(|x| x == s) { Some(i) => i as u32, None => { m.push(s.into()); (m.len() - 1) as u32 } } };
    for (o, v) in ops {
        match o {
            0 => for x in v { let (g, w) = (t.add_symbol(names[*x]), add(&mut m, names[*x])); req!(g == w, "add_symbol({:?}) returned {}, should be {}", names[*x], g, w) },
            1 => { t.add_symbols(v.iter().map(|x| names[*x])); for x in v { add(&mut m, names[*x]); } }
            2 => {
                let mut u = if v.len() % 2 == 0 { SymbolTable::new() } else { SymbolTable::empty() };
                for x in v { u.add_symbol(names[*x]); }
                let us: Vec<String> = u.symbols().map(|s| s.to_string()).collect();
                t.add_table(&u);
                for s in &us { add(&mut m, s); }
                table_is("the table that was added", &u, &us)?;
            }
            3 => { t = SymbolTable::empty(); m = vec![]; }
            4 => { t.reserve(v.len() * 3); let c = t.clone(); table_is("a clone", &c, &m)?; req!(c == t, "a clone differs"); }
            _ => {}
        }
        table_is("the table", &t, &m)?;
    }
    let mut u = SymbolTable::empty();
    for s in &m { u.add_symbol(s.clone()); }
    req!(u == t, "a table with the same symbols in the same order is not equal");
    u.add_symbol("another");
    req!(u != t, "tables with different symbols are equal");
    if m.len() >= 2 { let mut x = SymbolTable::empty(); for s in m.iter().rev() { x.add_symbol(s.clone()); } req!(x != t, "tables with different labels are equal"); }
    for k in 0..m.len() {
        let mut x = SymbolTable::empty();
        for (j, s) in m.iter().enumerate() { x.add_symbol(if j == k { "another".to_string() } else { s.clone() }); }
        req!(x != t, "tables that differ in the symbol of {} are equal", k);
        if k + 1 < m.len() { let mut w = m.clone(); w.swap(k, k + 1); let mut x = SymbolTable::empty(); for s in &w { x.add_symbol(s.clone()); } req!(x != t, "tables that differ in the labels of two symbols are equal"); }
    }
    if io {
        let p = dir.join("t");
        tri!(t.write(&p));
        table_is("written and read (binary)", &tri!(SymbolTable::read(&p)), &m)?;
        if !m.iter().any(|s| s.is_empty()) {
            tri!(t.write_text(&p));
            table_is("written and read (text)", &tri!(SymbolTable::read_text(&p)), &m)?;
        }
    }
    if !m.iter().any(|s| s.is_empty()) {
        let x = tri!(t.text());
        req!(x == m.iter().enumerate().map(|(i, s)| format!("{}\t{}\n", s, i)).collect::<String>(), "text is {:?}", x);
        table_is("from its text", &tri!(SymbolTable::from_text_string(&x)), &m)?;
    }
    Ok(())
}
pub fn c12(c: &mut Ctx) {
    c.section("histories of a symbol table");
    let mut r = c.rng(121);
    let dir = std::env::temp_dir().join(format!("vharness12.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    for k in 0..c.n(20000, 300000) {
        if !c.go() { break; }
        let ops: Vec<(u8, Vec<usize>)> = (0..r.gen_range(0..6)).map(|_| (if r.gen_bool(0.04) { 3 } else { [0u8, 0, 1, 2, 4][r.gen_range(0..5)] }, (0..r.gen_range(0..5)).map(|_| r.gen_range(0..12)).collect())).collect();
        c.case(format!("{:?}", ops), !ops.is_empty(), || history(&ops, &dir, k % 20 == 0));
    }
    c.section("tables in text and binary form, well formed or not");
    for k in 0..c.n(3000, 40000) {
        if !c.go() { break; }
        let n = if k % 10 == 0 { r.gen_range(250..600) } else { r.gen_range(0..9) };
        let mut rows: Vec<(String, i64)> = (0..n).map(|i| (if r.gen_bool(0.1) { format!("é{}", i % 7) } else { format!("s{}", i) }, i as i64)).collect();
        if k % 3 != 0 { rows.dedup_by(|a, b| a.0 == b.0); for (i, x) in rows.iter_mut().enumerate() { x.1 = i as i64; } }
        let form = r.gen_range(0..7);
        if n > 0 { let j = r.gen_range(0..rows.len()); match form { 0 => for x in rows[j..].iter_mut() { x.1 += 1 }, 1 => rows[j].1 += 256, 2 => rows[j].1 += 1i64 << 32, 3 => rows[j].1 = j as i64 / 2, 4 => { let m = rows.len(); rows.swap(j, m / 2) }, _ => {} } }
        let tail = ["\n", "\n", "", "\n\n", "\r\n", " x\n", "\nfoo\n", "\nfoo\tbar\n"][r.gen_range(0..8)];
        c.case(format!("{:?} end {:?}", rows, tail), n > 0, || stated(&rows, tail, &dir));
    }
    let _ = std::fs::remove_dir_all(&dir);
}
/// A table in text and binary form, written here: read, it gives every label the symbol stated, or an error.
fn stated(rows: &[(String, i64)], tail: &str, dir: &std::path::Path) -> Res {
    let good = rows.iter().enumerate().all(|(i, x)| x.1 == i as i64) && (0..rows.len()).all(|i| rows[..i].iter().all(|x| x.0 != rows[i].0));
    let text = rows.iter().map(|(s, l)| format!("{}\t{}", s, l)).collect::<Vec<_>>().join("\n") + tail;
    let is = |what: &str, t: &SymbolTable| -> Res {
        for (s, l) in rows { req!(*l >= 0 && *l <= u32::MAX as i64 && t.get_symbol(*l as u32) == Some(s.as_str()), "{}: label {} is stated to be {:?}, the table has {:?} there", what, l, s, t.get_symbol(*l as u32)); req!(t.get_label(s) == Some(*l as u32), "{}: label of {:?}", what, s); }
        req!(t.len() <= rows.len(), "{}: more symbols than stated", what);
        Ok(())
    };
    match SymbolTable::from_text_string(&text) {
        Ok(t) => { if !rows.is_empty() || tail.trim().is_empty() { is(&format!("from the text {:?}", text), &t)?; } req!(tail.trim().is_empty(), "the text {:?} is read as a table", text) }
        Err(e) => req!(!(good && tail == "\n" && !rows.is_empty()), "the text {:?} of a table is refused: {}", text, e),
    }
    let mut b: Vec<u8> = vec![];
    let st = |b: &mut Vec<u8>, s: &str| { b.extend_from_slice(&(s.len() as i32).to_le_bytes()); b.extend_from_slice(s.as_bytes()) };
    b.extend_from_slice(&2_125_658_996i32.to_le_bytes());
    st(&mut b, "t");
    for _ in 0..2 { b.extend_from_slice(&(rows.len() as i64).to_le_bytes()) }
    for (s, l) in rows { st(&mut b, s); b.extend_from_slice(&l.to_le_bytes()) }
    let p = dir.join("b");
    tri!(std::fs::write(&p, &b));
    match SymbolTable::read(&p) { Ok(t) => is("from the binary form", &t)?, Err(e) => req!(!good, "the binary form of {:?} is refused: {}", rows, e) }
    Ok(())
}
