//! C14: mapping, converting, encoding and relabelling.
use crate::c02::check_out;
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::{factor_weight, FactorIterator, FactorWeightFst, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::encode::{decode, encode, EncodeType};
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::weight_converters::*;
use rustfst::algorithms::{relabel_pairs, tr_map, weight_convert, FinalTr, MapFinalAction, TrMapper, WeightConverter};
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::semirings::{ProbabilityWeight, WeaklyDivisibleSemiring, DivideType, WeightQuantize, GallicWeight, GallicWeightLeft, GallicWeightMin, GallicWeightRestrict, GallicWeightRight, StringWeightLeft, StringWeightRestrict, StringWeightRight};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Act { No, Allow, Require }
/// what the documentation of MapFinalAction says, on the abstract machine; None: an error
fn model<W: Semiring, V: Semiring>(g: &G<W>, act: Act, tf: &dyn Fn(&A<W>) -> A<V>, ff: &dyn Fn(&W) -> (u32, u32, V)) -> Option<G<V>> {
    let mut h: G<V> = G::new();
    for _ in 0..g.n() { h.add(); }
    h.start = g.start;
    let mut sf = None;
    if act == Act::Require { let q = h.add(); h.fin[q as usize] = Some(V::one()); sf = Some(q); }
    for q in 0..g.n() {
        h.trs[q] = g.trs[q].iter().map(|a| tf(a)).collect();
        if let Some(w) = &g.fin[q] {
            let (i, o, v) = ff(w);
            let lab = i != 0 || o != 0;
            match act {
                Act::No => { if lab { return None; } h.fin[q] = Some(v); }
                Act::Allow => if lab {
                    if sf.is_none() { let s = h.add(); h.fin[s as usize] = Some(V::one()); sf = Some(s); }
                    h.tr(q as u32, i, o, v, sf.unwrap());
                } else { h.fin[q] = Some(v); },
                Act::Require => if lab || !v.is_zero() { h.tr(q as u32, i, o, v, sf.unwrap()); },
            }
        }
    }
    Some(h)
}
fn eq<W: Semiring>(what: &str, f: &VectorFst<W>, want: &G<W>) -> Res {
    let g = read(f);
    req!(&g == want, "{}: got {} want {}", what, g.show(), want.show());
    Ok(())
}
/// the flags too, when no weight is an explicit zero (whether such a state counts as final is left open)
fn flags<W: Semiring, V: Semiring>(what: &str, f: &VectorFst<W>, g: &G<V>) -> Res {
    if nozero(&read(f)) && nozero(g) { check_out(what, f) } else { Ok(()) }
}
fn nozero<W: Semiring>(g: &G<W>) -> bool { g.fin.iter().flatten().all(|w| !w.is_zero()) && g.trs.iter().flatten().all(|a| !a.w.is_zero()) }
/// a mapper given by functions
struct Fun<W: Semiring> { t: fn(&mut Tr<W>), f: fn(&mut FinalTr<W>), a: Act }
impl<W: Semiring> TrMapper<W> for Fun<W> {
    fn tr_map(&self, tr: &mut Tr<W>) -> anyhow::Result<()> { (self.t)(tr); Ok(()) }
    fn final_tr_map(&self, tr: &mut FinalTr<W>) -> anyhow::Result<()> { (self.f)(tr); Ok(()) }
    fn final_action(&self) -> MapFinalAction { match self.a { Act::No => MapFinalAction::MapNoSuperfinal, Act::Allow => MapFinalAction::MapAllowSuperfinal, Act::Require => MapFinalAction::MapRequireSuperfinal } }
    fn properties(&self, _: FstProperties) -> FstProperties { FstProperties::empty() }
}
impl<W: Semiring> WeightConverter<W, W> for Fun<W> {
    fn tr_map(&mut self, tr: &Tr<W>) -> anyhow::Result<Tr<W>> { let mut t = tr.clone(); (self.t)(&mut t); Ok(t) }
    fn final_tr_map(&mut self, tr: &FinalTr<W>) -> anyhow::Result<FinalTr<W>> { let mut t = tr.clone(); (self.f)(&mut t); Ok(t) }
    fn final_action(&self) -> MapFinalAction { TrMapper::final_action(self) }
    fn properties(&self, _: FstProperties) -> FstProperties { FstProperties::empty() }
}
fn mapper<W: Semiring, M: TrMapper<W> + WeightConverter<W, W>>(what: &str, g: &G<W>, k: usize, m: &mut M, tf: &dyn Fn(&A<W>) -> A<W>, act: Act, ff: &dyn Fn(&W) -> (u32, u32, W)) -> Res {
    let want = if g.start.is_none() { Some(g.clone()) } else { model(g, act, tf, ff) };
    let mut f = variant(g, k);
    let r = tr_map(&mut f, &*m);
    match &want { Some(w) => { tri!(r); eq(&format!("tr_map {}", what), &f, w)?; flags(&format!("tr_map {}", what), &f, g)?; } None => req!(r.is_err(), "tr_map {}: no error though a final weight is mapped to a labelled transition", what) }
    let mut f2 = variant(g, k);
    let r = f2.tr_map(m);
    if want.is_some() { tri!(r); req!(read(&f2) == read(&f), "the method tr_map and the function differ"); }
    let f = variant(g, k);
    let r: anyhow::Result<VectorFst<W>> = weight_convert(&f, m);
    let want = if g.start.is_none() { Some(G::new()) } else { want };
    match &want { Some(w) => { let o = tri!(r); eq(&format!("weight_convert {}", what), &o, w)?; flags(&format!("weight_convert {}", what), &o, g)? } None => req!(r.is_err(), "weight_convert {}: no error", what) }
    req!(read(&f) == *g, "weight_convert changed its input");
    Ok(())
}
fn keep<W: Semiring>(a: &A<W>, w: W) -> A<W> { A { i: a.i, o: a.o, w, n: a.n } }
fn mappers<W: GenW + WeaklyDivisibleSemiring + WeightQuantize>(c: &mut Ctx, g: &G<W>, x: &W, k: usize) {
    macro_rules! m { ($n:expr, $m:expr, $tf:expr, $ff:expr) => { c.case(format!("{} v{} {}", $n, k % 3, g.show()), g.start.is_some(), || mapper($n, g, k, &mut $m, &$tf, Act::No, &$ff)); } }
    let id = |w: &W| (0, 0, w.clone());
    m!("identity", IdentityTrMapper {}, |a: &A<W>| a.clone(), id);
    m!("input epsilon", InputEpsilonMapper {}, |a: &A<W>| A { i: 0, ..a.clone() }, id);
    m!("output epsilon", OutputEpsilonMapper {}, |a: &A<W>| A { o: 0, ..a.clone() }, id);
    let rm = |w: &W| if w.is_zero() { w.clone() } else { W::one() };
    m!("rm weights", RmWeightMapper {}, |a: &A<W>| keep(a, rm(&a.w)), |w: &W| (0, 0, rm(w)));
    let inv = |w: &W| if w.is_zero() { w.clone() } else { W::one().divide(w, DivideType::DivideAny).unwrap() };
    m!("invert weights", InvertWeightMapper {}, |a: &A<W>| keep(a, inv(&a.w)), |w: &W| (0, 0, inv(w)));
    m!("plus", PlusMapper::from_weight(x.clone()), |a: &A<W>| keep(a, pl(&a.w, x)), |w: &W| (0, 0, pl(w, x)));
    m!("times", TimesMapper::from_weight(x.clone()), |a: &A<W>| keep(a, ti(&a.w, x)), |w: &W| (0, 0, ti(w, x)));
    let q = |w: &W| w.quantize(0.5).unwrap();
    m!("quantize", QuantizeMapper::new(0.5), |a: &A<W>| keep(a, q(&a.w)), |w: &W| (0, 0, q(w)));
}
fn funs<W: GenW>(c: &mut Ctx, g: &G<W>, k: usize) {
    fn t<W: Semiring>(t: &mut Tr<W>) { t.ilabel += 10; t.olabel = t.ilabel * 2; t.weight = ti(&t.weight, &t.weight); t.nextstate = 0; }
    let tf = |a: &A<W>| A { i: a.i + 10, o: (a.i + 10) * 2, w: ti(&a.w, &a.w), n: 0 };
    fn f0<W: Semiring>(t: &mut FinalTr<W>) { t.weight = ti(&t.weight, &t.weight); }
    fn fi<W: Semiring>(t: &mut FinalTr<W>) { if !t.weight.is_one() { t.ilabel = 7; } }
    fn fo<W: Semiring>(t: &mut FinalTr<W>) { t.olabel = 8; }
    fn fz<W: Semiring>(t: &mut FinalTr<W>) { if t.weight.is_one() { t.weight = W::zero(); } }
    for a in [Act::No, Act::Allow, Act::Require] {
        let fs: [(&str, fn(&mut FinalTr<W>)); 4] = [("square", f0), ("label unless one", fi), ("output label", fo), ("one becomes zero", fz)];
        for (n, f) in fs {
            c.case(format!("mapper {} {:?} v{} {}", n, a, k % 3, g.show()), g.start.is_some(), || mapper(n, g, k, &mut Fun { t, f, a }, &tf, a, &|w: &W| { let mut x = FinalTr { ilabel: 0, olabel: 0, weight: w.clone() }; f(&mut x); (x.ilabel, x.olabel, x.weight) }));
        }
    }
}
fn enc<W: GenW>(c: &mut Ctx, g: &G<W>, k: usize, idem: bool) {
    for ty in [EncodeType::EncodeLabels, EncodeType::EncodeWeights, EncodeType::EncodeWeightsAndLabels] {
        let (ew, el) = (ty.encode_weights(), ty.encode_labels());
        c.case(format!("encode {:?} v{} {}", ty, k % 3, g.show()), g.start.is_some(), || {
            req!(EncodeType::from_bools(ew, el).unwrap() == ty, "from_bools");
            let mut f = variant(g, k);
            let t = tri!(encode(&mut f, ty));
            let e = read(&f);
            flags("encode", &f, g)?;
            if g.start.is_none() { req!(&e == g, "a machine without a start state is changed to {}", e.show()); return Ok(()); }
            let sf = g.n() as u32;
            req!(e.n() == g.n() + ew as usize && e.start == g.start, "{} states, start {:?}", e.n(), e.start);
            if ew { req!(e.fin[sf as usize] == Some(W::one()) && e.trs[sf as usize].is_empty(), "the superfinal state is {:?} {:?}", e.fin[sf as usize], e.trs[sf as usize]); }
            // one label per tuple, in both directions
            let mut lab: HashMap<u32, String> = HashMap::new();
            let mut tup: HashMap<String, u32> = HashMap::new();
            let mut pair = |t: String, l: u32| -> Res {
                req!(l != 0, "tuple {} is encoded as epsilon", t);
                req!(lab.entry(l).or_insert(t.clone()) == &t, "label {} encodes both {} and {}", l, lab[&l], t);
                req!(*tup.entry(t.clone()).or_insert(l) == l, "tuple {} has labels {} and {}", t, tup[&t], l);
                Ok(())
            };
            let tu = |i: u32, o: u32, w: &W| format!("{} {} {:?}", i, if el { o } else { 0 }, if ew { w.clone() } else { W::one() });
            for q in 0..g.n() {
                let extra = ew && g.fin[q].is_some();
                req!(e.trs[q].len() == g.trs[q].len() + extra as usize, "state {}: {} transitions", q, e.trs[q].len());
                req!(e.fin[q] == if ew { None } else { g.fin[q].clone() }, "final weight of {} is {:?}", q, e.fin[q]);
                let mut all: Vec<A<W>> = g.trs[q].clone();
                if extra { all.push(A { i: 0, o: 0, w: g.fin[q].clone().unwrap(), n: sf }); }
                for (a, b) in all.iter().zip(&e.trs[q]) {
                    pair(tu(a.i, a.o, &a.w), b.i)?;
                    req!(b.n == a.n && b.o == if el { b.i } else { a.o } && b.w == if ew { W::one() } else { a.w.clone() }, "{:?} is encoded as {:?}", a, b);
                }
            }
            tri!(decode(&mut f, t));
            flags("decode", &f, g)?;
            let d = read(&f);
            same_lang("decode after encode", &lang(&d, 4, idem), &lang(g, 4, idem))
        });
    }
}
fn rel<W: GenW>(c: &mut Ctx, g: &G<W>, k: usize, r: &mut R) {
    let mk = |r: &mut R| -> Vec<(u32, u32)> { (0..r.gen_range(0..4)).map(|_| ([0, 1, 2, 3, 300][r.gen_range(0..5)], r.gen_range(0..5))).collect() };
    let (pi, po) = (mk(r), mk(r));
    c.case(format!("relabel_pairs {:?} {:?} v{} {}", pi, po, k % 3, g.show()), g.ntrs() > 0, || {
        let dup = |p: &Vec<(u32, u32)>| { let m: BTreeMap<u32, u32> = p.iter().copied().collect(); m.len() != p.len() };
        let mut f = variant(g, k);
        let res = relabel_pairs(&mut f, pi.clone(), po.clone());
        if dup(&pi) || dup(&po) { req!(res.is_err(), "a label is given twice and no error is returned"); return eq("relabel_pairs (error)", &f, g); }
        tri!(res);
        let (mi, mo): (BTreeMap<u32, u32>, BTreeMap<u32, u32>) = (pi.iter().copied().collect(), po.iter().copied().collect());
        let mut h = g.clone();
        for a in h.trs.iter_mut().flatten() { if let Some(l) = mi.get(&a.i) { a.i = *l } if let Some(l) = mo.get(&a.o) { a.o = *l } }
        eq("relabel_pairs", &f, &h)?;
        flags("relabel_pairs", &f, g)
    });
}
macro_rules! gallic {
    ($c:expr, $g:expr, $k:expr, $gw:ident) => {
        $c.case(format!("to and from {} v{} {}", stringify!($gw), $k % 3, $g.show()), $g.start.is_some(), || {
            let f = variant($g, $k);
            let x: VectorFst<$gw<TW>> = tri!(weight_convert(&f, &mut ToGallicConverter {}));
            let want = if $g.start.is_none() { G::new() } else { $g.clone() };
            let gx = read(&x);
            check_out("ToGallicConverter", &x)?;
            req!(gx.n() == want.n() && gx.start == want.start, "{} states, start {:?}", gx.n(), gx.start);
            for q in 0..want.n() { for (a, b) in want.trs[q].iter().zip(&gx.trs[q]) {
                let w: $gw<TW> = if a.o == 0 { (vec![], a.w.clone()).into() } else { (a.o, a.w.clone()).into() };
                req!(*b == A { i: a.i, o: a.i, w: w.clone(), n: a.n }, "{:?} becomes {:?}", a, b);
            } }
            let b: VectorFst<TW> = tri!(weight_convert(&x, &mut FromGallicConverter { superfinal_label: 0 }));
            eq("FromGallicConverter after ToGallicConverter", &b, &want)?;
            // a final output label goes to a superfinal state
            let mut y = gx.clone();
            let mut wy = want.clone();
            let lbl = 77;
            let mut sf = None;
            for q in 0..y.n() {
                if let Some(w) = want.fin[q].clone() { if q % 2 == 0 {
                    y.fin[q] = Some((lbl, w.clone()).into());
                    let s = *sf.get_or_insert_with(|| { let s = wy.add(); wy.fin[s as usize] = Some(TW::one()); s });
                    wy.fin[q] = None;
                    wy.tr(q as u32, 5, lbl, w, s);
                } }
            }
            let b: VectorFst<TW> = tri!(weight_convert(&y.vfst(), &mut FromGallicConverter { superfinal_label: 5 }));
            eq("FromGallicConverter with a final label", &b, &wy)
        });
    };
}
fn simple(c: &mut Ctx, g: &G<TW>, k: usize) {
    c.case(format!("weight_convert to log, probability and back v{} {}", k % 3, g.show()), g.start.is_some(), || {
        let f = variant(g, k);
        let want = if g.start.is_none() { G::new() } else { g.clone() };
        macro_rules! to { ($w:ident) => {{
            let l: VectorFst<$w> = tri!(weight_convert(&f, &mut SimpleWeightConverter {}));
            let lg = read(&l);
            flags(concat!("weight_convert to ", stringify!($w)), &l, g)?;
            req!(lg.n() == want.n() && lg.start == want.start, "{} states, start {:?}", lg.n(), lg.start);
            for q in 0..want.n() {
                req!(lg.fin[q].as_ref().map(|w| *w.value()) == want.fin[q].as_ref().map(|w| *w.value()), "final weight of {} is {:?}", q, lg.fin[q]);
                let t: Vec<_> = lg.trs[q].iter().map(|a| A { i: a.i, o: a.o, w: TW::new(*a.w.value()), n: a.n }).collect();
                req!(t == want.trs[q], "transitions of {} are {:?}", q, lg.trs[q]);
            }
            let b: VectorFst<TW> = tri!(weight_convert(&l, &mut SimpleWeightConverter {}));
            eq(concat!("weight_convert back from ", stringify!($w)), &b, &want)?;
            if nozero(&lg) { flags("weight_convert back", &b, g)?; }
        }} }
        to!(LogWeight); to!(ProbabilityWeight);
        let mut f2 = f.clone();
        let mut t = SymbolTable::new();
        t.add_symbol("x");
        let t = std::sync::Arc::new(t);
        f2.set_input_symbols(t.clone());
        let l: VectorFst<LogWeight> = tri!(weight_convert(&f2, &mut SimpleWeightConverter {}));
        if g.start.is_some() { req!(l.input_symbols() == Some(&t) && l.output_symbols().is_none(), "symbol tables are not kept"); }
        Ok(())
    });
}
/// one path out for every path in, with the same labels (leaving out those of the added transitions) and the same product
fn path_list<W: Semiring>(g: &G<W>, from: u32) -> Vec<(Vec<u32>, Vec<u32>, String)> {
    fn go<W: Semiring>(g: &G<W>, q: u32, from: u32, i: &Vec<u32>, o: &Vec<u32>, w: &W, out: &mut Vec<(Vec<u32>, Vec<u32>, String)>) {
        if let Some(f) = &g.fin[q as usize] { let x = ti(w, f); if !x.is_zero() { out.push((i.clone(), o.clone(), format!("{:?}", x))); } }
        for a in &g.trs[q as usize] {
            let (mut i, mut o) = (i.clone(), o.clone());
            if a.i != 0 && a.i < from { i.push(a.i) } if a.o != 0 && a.o < from { o.push(a.o) }
            go(g, a.n, from, &i, &o, &ti(w, &a.w), out);
        }
    }
    let mut out = vec![];
    if let Some(s) = g.start { go(g, s, from, &vec![], &vec![], &W::one(), &mut out) }
    out.sort();
    out
}
fn factor<W: Semiring + WeightQuantize + 'static, FI: FactorIterator<W> + 'static>(c: &mut Ctx, what: &str, g: &G<W>, k: usize, sum: bool, ok: &dyn Fn(&W) -> bool) {
    let mode = [FactorWeightType::FACTOR_ARC_WEIGHTS, FactorWeightType::FACTOR_FINAL_WEIGHTS, FactorWeightType::FACTOR_ARC_WEIGHTS | FactorWeightType::FACTOR_FINAL_WEIGHTS][k % 3];
    let lab = (k / 3) % 4;
    let opts = FactorWeightOptions { final_ilabel: if lab & 1 == 1 { 1000 } else { 0 }, final_olabel: if lab & 2 == 2 { 1000 } else { 0 }, increment_final_ilabel: lab & 1 == 1 && k % 2 == 0, increment_final_olabel: lab & 2 == 2 && k % 2 == 0, ..FactorWeightOptions::new(mode) };
    c.case(format!("factor_weight {} {:?} {}", what, opts, g.show()), g.ntrs() > 0, || {
        let v = variant(g, k);
        let f: VectorFst<W> = tri!(factor_weight::<W, VectorFst<W>, _, _, FI>(&v, opts.clone()));
        let h = read(&f);
        h.well_formed()?;
        let lz = tri!(FactorWeightFst::<W, VectorFst<W>, _, FI>::new(v.clone(), opts.clone()));
        let lg = expand(&lz, 100000)?;
        if nozero(&h) && nozero(g) { check_out("factor_weight", &f)?; }
        if sum {
            let strip = |g: &G<W>| { let mut g = g.clone(); for a in g.trs.iter_mut().flatten() { if a.i >= 1000 { a.i = 0 } if a.o >= 1000 { a.o = 0 } } lang_paths(&g) };
            same_lang("factor_weight", &strip(&h), &strip(g))?;
            same_lang("lazy factor_weight", &strip(&lg), &strip(g))?;
        } else {
            let (x, y) = (path_list(&h, 1000), path_list(g, 1000));
            req!(x == y, "factor_weight: the paths are {:?} instead of {:?} in {}", x, y, h.show());
            req!(path_list(&lg, 1000) == y, "lazy factor_weight: the paths are {:?} instead of {:?} in {}", path_list(&lg, 1000), y, lg.show());
        }
        let (arcs, fins) = (mode.contains(FactorWeightType::FACTOR_ARC_WEIGHTS), mode.contains(FactorWeightType::FACTOR_FINAL_WEIGHTS));
        for q in 0..h.n() {
            if arcs { for a in &h.trs[q] { req!(a.w.is_zero() || ok(&a.w), "factor_weight: a transition keeps the weight {:?} in {}", a.w, h.show()); } }
            if fins { if let Some(w) = &h.fin[q] { req!(ok(w), "factor_weight: state {} keeps the final weight {:?} in {}", q, w, h.show()); } }
            let count = |s: &dyn Fn(&A<W>) -> u32| { let mut l: Vec<u32> = h.trs[q].iter().map(|a| s(a)).filter(|l| *l >= 1000).collect(); l.sort(); l };
            let check = |l: Vec<u32>, inc: bool| { l.iter().enumerate().all(|(n, x)| *x == 1000 + if inc { n as u32 } else { 0 }) };
            req!(check(count(&|a| a.i), opts.increment_final_ilabel) && check(count(&|a| a.o), opts.increment_final_olabel), "factor_weight: state {} has added labels {:?} {:?} with {:?}", q, count(&|a| a.i), count(&|a| a.o), opts);
        }
        Ok(())
    });
}
fn factors(c: &mut Ctx, r: &mut R, k: usize) {
    let g: G<TW> = gen(r, &Cfg { acyclic: true, states: 5, trs: 6, zero: if k % 5 == 4 { 0.2 } else { 0.0 }, big: 0.0, ..Cfg::default() });
    let mut st = |r: &mut R| -> Vec<u32> { (0..r.gen_range(0..4)).map(|_| r.gen_range(1..3)).collect() };
    fn conv<V: Semiring>(g: &G<TW>, f: &mut dyn FnMut(&TW) -> V) -> G<V> {
        G { start: g.start, fin: g.fin.iter().map(|w| w.as_ref().map(|w| f(w))).collect(), trs: g.trs.iter().map(|t| t.iter().map(|a| A { i: a.i, o: a.o, w: f(&a.w), n: a.n }).collect()).collect() }
    }
    macro_rules! one { ($n:expr, $w:ty, $s:ident, $fi:ty) => { let h: G<$w> = conv(&g, &mut |w| if w.is_zero() { <$w>::zero() } else { ($s::from(st(r)), w.clone()).into() }); factor::<$w, $fi>(c, $n, &h, k, false, &|w| w.value1().len_labels() <= 1); } }
    match k % 7 {
        0 => { one!("left", GallicWeightLeft<TW>, StringWeightLeft, GallicFactorLeft<TW>); }
        1 => { one!("right", GallicWeightRight<TW>, StringWeightRight, GallicFactorRight<TW>); }
        2 => { one!("restrict", GallicWeightRestrict<TW>, StringWeightRestrict, GallicFactorRestrict<TW>); }
        3 => { one!("min", GallicWeightMin<TW>, StringWeightRestrict, GallicFactorMin<TW>); }
        4 => { let h: G<StringWeightLeft> = conv(&g, &mut |w| if w.is_zero() { StringWeightLeft::zero() } else { st(r).into() }); factor::<_, StringFactorLeft>(c, "string", &h, k, false, &|w| w.len_labels() <= 1); }
        5 => { let h: G<TW> = g.clone(); factor::<_, IdentityFactor<TW>>(c, "identity", &h, k, false, &|_| true); }
        _ => {
            let h: G<GallicWeight<TW>> = conv(&g, &mut |w| { let mut x = GallicWeight::<TW>::zero(); if !w.is_zero() { for n in 0..r.gen_range(1..4) { let e: GallicWeightRestrict<TW> = (StringWeightRestrict::from(st(r)), TW::new(w.value() + n as f32)).into(); x = pl(&x, &e.into()); } } x });
            factor::<_, GallicFactor<TW>>(c, "union", &h, k, true, &|w| w.len() <= 1 && w.iter().all(|e| e.value1().len_labels() <= 1));
        }
    }
}
pub fn c14(c: &mut Ctx) {
    let mut r = c.rng(140);
    let (t1, t2) = (TW::new(1.0), IW::new(2));
    c.section("every small machine");
    let mut small: Vec<G<TW>> = vec![];
    enumerate::<TW>(2, 2, 1, false, &mut |g| { small.push(g.clone()); true });
    let cap = c.n(500, 3000);
    let st = (small.len() / cap).max(1);
    for (k, g) in small.iter().enumerate() { if k % st == 0 { if !c.go() { return; } mappers(c, g, &t1, k / st); funs(c, g, k / st); enc(c, g, k / st, true); } }
    c.section("factoring weights");
    for k in 0..c.n(1500, 20000) { if !c.go() { return; } factors(c, &mut r, k); }
    for z in [0.0, 0.2] {
        let cfg = Cfg { zero: z, ..Cfg::default() };
        for k in 0..c.n(150, 3000) {
            if !c.go() { return; }
            let g: G<TW> = gen(&mut r, &cfg);
            let x = if r.gen_bool(0.2) { TW::zero() } else { t1.clone() };
            c.section("mappers"); mappers(c, &g, &x, k); funs(c, &g, k);
            c.section("encode and decode"); enc(c, &g, k, true);
            c.section("relabel_pairs"); rel(c, &g, k, &mut r); rel(c, &g, k, &mut r);
            c.section("changing the semiring"); simple(c, &g, k);
            if z == 0.0 { gallic!(c, &g, k, GallicWeight); gallic!(c, &g, k, GallicWeightLeft); gallic!(c, &g, k, GallicWeightMin); gallic!(c, &g, k, GallicWeightRestrict); }
            let h: G<IW> = gen(&mut r, &Cfg { acyclic: true, ..cfg.clone() });
            c.section("mappers"); funs(c, &h, k); let _ = &t2;
            c.section("encode and decode"); enc(c, &h, k, false);
        }
    }
}
