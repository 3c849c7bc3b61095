//! C15: lazy machines, caches and state tables; C19: replacement.
use crate::c02::check_out;
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rand::SeedableRng;
use rustfst::algorithms::closure::ClosureFst;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::SortedMatcher;
use rustfst::algorithms::compose::{ComposeFst, ComposeFstOpOptions};
use rustfst::algorithms::concat::ConcatFst;
use rustfst::algorithms::factor_weight::factor_iterators::GallicFactorLeft;
use rustfst::algorithms::factor_weight::{FactorWeightFst, FactorWeightOptions, FactorWeightType};
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::replace::{replace, ReplaceFst};
use rustfst::algorithms::rm_epsilon::RmEpsilonFst;
use rustfst::algorithms::union::UnionFst;
use rustfst::algorithms::{closure::ClosureType, tr_sort};
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::semirings::GallicWeightLeft;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

type F = VectorFst<TW>;

/// an operation given by a table: what a lazy machine over it must report is known exactly
#[derive(Debug, Clone)]
struct Op<W: Semiring>(G<W>);
impl<W: Semiring> Op<W> { fn t(&self, s: StateId) -> TrsVec<W> { TrsVec::from(self.0.trs[s as usize].iter().map(|a| Tr::new(a.i, a.o, a.w.clone(), a.n)).collect::<Vec<_>>()) } }
impl<W: Semiring> FstOp<W> for Op<W> {
    fn compute_start(&self) -> anyhow::Result<Option<StateId>> { Ok(self.0.start) }
    fn compute_trs(&self, id: StateId) -> anyhow::Result<TrsVec<W>> { Ok(self.t(id)) }
    fn compute_final_weight(&self, id: StateId) -> anyhow::Result<Option<W>> { Ok(self.0.fin[id as usize].clone()) }
    fn properties(&self) -> FstProperties { FstProperties::empty() }
}
#[derive(Debug, Clone)]
struct Op2<W: Semiring>(Op<W>);
impl<W: Semiring> FstOp2<W> for Op2<W> {
    fn compute_start(&self) -> anyhow::Result<Option<StateId>> { Ok(self.0 .0.start) }
    fn compute_trs_and_final_weight(&self, id: StateId) -> anyhow::Result<(TrsVec<W>, Option<W>)> { Ok((self.0.t(id), self.0 .0.fin[id as usize].clone())) }
    fn properties(&self) -> FstProperties { FstProperties::empty() }
}

fn arcs<W: Semiring, T: Trs<W>>(t: &T) -> Vec<A<W>> { t.trs().iter().map(|t| A { i: t.ilabel, o: t.olabel, w: t.weight.clone(), n: t.nextstate }).collect() }

/// Asks the machine in a random order, each question on a state it has named before, until every reachable state
/// has been expanded; every answer must be the one given before to the same question.
fn ask<W: Semiring, L: Fst<W>>(f: &L, r: &mut R, cap: usize) -> Result<G<W>, String> {
    let mut known: Vec<u32> = vec![];
    let mut trs: BTreeMap<u32, Vec<A<W>>> = BTreeMap::new();
    let mut fin: BTreeMap<u32, Option<W>> = BTreeMap::new();
    let mut nt: BTreeMap<(u32, u8), usize> = BTreeMap::new();
    let start = f.start();
    if let Some(s) = start { known.push(s) }
    let mut left = 40 + r.gen_range(0..40);
    while !known.is_empty() && (left > 0 || known.iter().any(|q| !trs.contains_key(q) || !fin.contains_key(q))) {
        if left > 0 { left -= 1 }
        req!(known.len() <= cap, "machine has more than {} states", cap);
        let q = if left > 0 || r.gen_bool(0.2) { known[r.gen_range(0..known.len())] } else { *known.iter().find(|q| !trs.contains_key(q) || !fin.contains_key(q)).unwrap_or(&known[0]) };
        match r.gen_range(0..8) {
            0 => req!(f.start() == start, "start() changed from {:?} to {:?}", start, f.start()),
            1 | 2 => {
                let t = arcs(&tri!(f.get_trs(q)));
                for a in &t { if !known.contains(&a.n) { known.push(a.n) } }
                if let Some(o) = trs.insert(q, t.clone()) { req!(o == t, "get_trs({}) changed from {:?} to {:?}", q, o, t) }
            }
            3 | 4 => {
                let w = tri!(f.final_weight(q));
                if let Some(o) = fin.insert(q, w.clone()) { req!(o == w, "final_weight({}) changed from {:?} to {:?}", q, o, w) }
                req!(tri!(f.is_final(q)) == matches!(&w, Some(x) if !x.is_zero()), "is_final({}) disagrees with the final weight {:?}", q, w);
            }
            k => {
                let n = match k { 5 => tri!(f.num_trs(q)), 6 => tri!(f.num_input_epsilons(q)), _ => tri!(f.num_output_epsilons(q)) };
                if let Some(o) = nt.insert((q, k as u8), n) { req!(o == n, "count {} of state {} changed from {} to {}", k, q, o, n) }
            }
        }
    }
    for ((q, k), n) in &nt {
        let t = &trs[q];
        let e = match k { 5 => t.len(), 6 => t.iter().filter(|a| a.i == 0).count(), _ => t.iter().filter(|a| a.o == 0).count() };
        req!(*n == e, "{}({}) is {} but the state has {}", ["num_trs", "num_input_epsilons", "num_output_epsilons"][*k as usize - 5], q, n, e);
    }
    let m = known.iter().max().map(|x| *x as usize + 1).unwrap_or(0);
    let mut g = G { start, fin: vec![], trs: vec![] };
    for q in 0..m as u32 { g.add(); if let Some(t) = trs.remove(&q) { g.trs[q as usize] = t; } if let Some(w) = fin.remove(&q) { g.fin[q as usize] = w; } }
    Ok(g)
}
/// the same machine up to the numbers of its reachable states (transitions in order)
fn same_up_to_names<W: Semiring>(what: &str, a: &G<W>, b: &G<W>) -> Res {
    let (s, t) = match (a.start, b.start) { (None, None) => return Ok(()), (Some(s), Some(t)) => (s, t), _ => return Err(format!("{}: start {:?} and {:?}", what, a.start, b.start)) };
    let (mut ab, mut ba) = (BTreeMap::new(), BTreeMap::new());
    ab.insert(s, t);
    ba.insert(t, s);
    let mut st = vec![(s, t)];
    while let Some((x, y)) = st.pop() {
        req!(a.fin[x as usize] == b.fin[y as usize], "{}: final weights {:?} and {:?}", what, a.fin[x as usize], b.fin[y as usize]);
        let (p, q) = (&a.trs[x as usize], &b.trs[y as usize]);
        req!(p.len() == q.len(), "{}: a state has {} transitions, then {}", what, p.len(), q.len());
        for (u, v) in p.iter().zip(q) {
            req!(u.i == v.i && u.o == v.o && u.w == v.w, "{}: transition {:?} became {:?}", what, u, v);
            let (m, n) = (ab.get(&u.n).copied(), ba.get(&v.n).copied());
            match (m, n) {
                (None, None) => { ab.insert(u.n, v.n); ba.insert(v.n, u.n); st.push((u.n, v.n)) }
                (Some(m), Some(n)) => req!(m == v.n && n == u.n, "{}: states merged or split ({} and {})", what, u.n, v.n),
                _ => return Err(format!("{}: states merged or split ({} and {})", what, u.n, v.n)),
            }
        }
    }
    Ok(())
}
fn reachable_only<W: Semiring>(g: &G<W>) -> (Option<u32>, Vec<(u32, Option<W>, Vec<A<W>>)>) {
    let acc = g.accessible();
    (g.start, (0..g.n()).filter(|q| acc[*q]).map(|q| (q as u32, g.fin[q].clone(), g.trs[q].clone())).collect())
}
fn threads<W: Semiring + Send + Sync, L: Fst<W> + Sync>(f: &L, seed: u64) -> Vec<Result<G<W>, String>> {
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..3).map(|k| sc.spawn(move || { let mut r = R::seed_from_u64(seed ^ (k + 77)); ask(f, &mut r, 3000) })).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|e| Err(format!("a thread panicked: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())))).collect()
    })
}
/// every way of reading a lazy machine gives the same machine
fn ways<W: Semiring + Send + Sync, L: Fst<W>>(what: &str, seed: u64, mk: &dyn Fn() -> Result<L, String>, comp: &dyn Fn(&L) -> Result<VectorFst<W>, String>, par: &dyn Fn(&L, u64) -> Vec<Result<G<W>, String>>) -> Result<G<W>, String> {
    let mut r = R::seed_from_u64(seed);
    let base = expand(&mk()?, 3000).map_err(|e| format!("{}: {}", what, e))?;
    base.well_formed()?;
    for _ in 0..2 {
        let f = mk()?;
        let g = ask(&f, &mut r, 3000).map_err(|e| format!("{}: {}", what, e))?;
        same_up_to_names(&format!("{} asked in another order", what), &base, &g)?;
        // afterwards: the whole machine by the other routes, on the same (warm) and on a cold instance
        let s = read(&comp(&f)?);
        req!(reachable_only(&s) == reachable_only(&g), "{}: compute() after questions gives {} instead of {}", what, s.show(), g.show());
        let e = expand(&f, 3000)?;
        req!(reachable_only(&e) == reachable_only(&g), "{}: a second reading gives {} instead of {}", what, e.show(), g.show());
    }
    let f = mk()?;
    let s = read(&comp(&f)?);
    same_up_to_names(&format!("{} computed at once", what), &base, &s)?;
    let n = base.accessible().iter().filter(|b| **b).count();
    req!(s.accessible().iter().filter(|b| **b).count() == n, "{}: number of states", what);
    // iterators
    let f = mk()?;
    let ids: Vec<u32> = f.states_iter().collect();
    req!(ids == (0..ids.len() as u32).collect::<Vec<_>>(), "{}: states_iter gives {:?}", what, ids);
    let e = expand(&f, 3000)?;
    let want: BTreeSet<u32> = e.accessible().iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32).collect();
    req!(want.iter().all(|q| ids.contains(q)), "{}: states_iter gives {:?} but the reachable states are {:?}", what, ids, want);
    let f = mk()?;
    let d: Vec<_> = f.fst_iter().map(|d| (d.state_id, d.final_weight.clone(), arcs(&d.trs), d.num_trs)).collect();
    for (q, w, t, k) in d {
        req!(tri!(f.final_weight(q)) == w && arcs(&tri!(f.get_trs(q))) == t && k == t.len(), "{}: fst_iter disagrees with the accessors at state {}", what, q);
    }
    // several threads at once on one machine
    let f = mk()?;
    let gs = par(&f, seed);
    for g in gs { let g = g.map_err(|e| format!("{} in threads: {}", what, e))?; same_up_to_names(&format!("{} in threads", what), &base, &g)?; }
    Ok(base)
}

fn table_ops<W: GenW + Send + Sync>(g: &G<W>, seed: u64, k: usize) -> Res {
    let op = Op(g.clone());
    let fix = |what: &str, b: G<W>| -> Res { req!(reachable_only(&b) == reachable_only(g), "{}: got {} want {}", what, b.show(), g.show()); Ok(()) };
    macro_rules! one { ($n:expr, $c:ty) => {{
        let b = ways($n, seed, &|| Ok(LazyFst::from_op_and_cache(op.clone(), <$c>::default(), None, None)), &|l: &LazyFst<W, Op<W>, $c>| Ok(tri!(l.compute::<VectorFst<W>>())), &threads)?;
        fix($n, b)?;
    }}; }
    macro_rules! two { ($n:expr, $c:ty) => {{
        let b = ways($n, seed, &|| Ok(LazyFst2::from_op_and_cache(Op2(op.clone()), <$c>::default(), None, None)), &|l: &LazyFst2<W, Op2<W>, $c>| Ok(tri!(l.compute::<VectorFst<W>>())), &threads)?;
        fix($n, b)?;
    }}; }
    match k % 7 {
        0 => one!("LazyFst with SimpleVecCache", SimpleVecCache<W>),
        1 => one!("LazyFst with SimpleHashMapCache", SimpleHashMapCache<W>),
        2 => one!("LazyFst with FirstCache over SimpleVecCache", FirstCache<W, SimpleVecCache<W>>),
        3 => one!("LazyFst with FirstCache over SimpleHashMapCache", FirstCache<W, SimpleHashMapCache<W>>),
        4 => one!("LazyFst with a shared SimpleVecCache", Arc<SimpleVecCache<W>>),
        5 => two!("LazyFst2 with SimpleVecCache", SimpleVecCache<W>),
        _ => two!("LazyFst2 with SimpleHashMapCache", SimpleHashMapCache<W>),
    }
    Ok(())
}
fn scratch() -> std::path::PathBuf { let d = std::env::temp_dir().join(format!("vh15.{}", std::process::id())); let _ = std::fs::create_dir_all(&d); d }

/// a cache is a map: histories against a model
fn cache<C: FstCache<TW> + Default>(what: &str, r: &mut R, clear: Option<&dyn Fn(&C)>, save: Option<&dyn Fn(&C) -> Result<C, String>>) -> Res {
    let mut c = C::default();
    let mut start: Option<Option<u32>> = None;
    let mut trs: BTreeMap<u32, Vec<A<TW>>> = BTreeMap::new();
    let mut fin: BTreeMap<u32, Option<TW>> = BTreeMap::new();
    let (mut lo, mut hi) = (0usize, 0usize);
    let ids = |r: &mut R| -> u32 { [0, 1, 2, 3, 5, 9, 40][r.gen_range(0..7)] };
    for _ in 0..r.gen_range(1..40) {
        match r.gen_range(0..14) {
            0 => { let s = if r.gen_bool(0.3) { None } else { Some(ids(r)) }; c.insert_start(s); start = Some(s); if let Some(s) = s { lo = lo.max(s as usize + 1) } }
            1..=4 => {
                let q = ids(r);
                let t: Vec<A<TW>> = (0..r.gen_range(0..4)).map(|_| A { i: r.gen_range(0..3), o: r.gen_range(0..3), w: TW::gen(r), n: ids(r) }).collect();
                c.insert_trs(q, TrsVec::from(t.iter().map(|a| Tr::new(a.i, a.o, a.w, a.n)).collect::<Vec<_>>()));
                for a in &t { lo = lo.max(a.n as usize + 1) }
                hi = hi.max(q as usize + 1);
                trs.insert(q, t);
            }
            5..=7 => { let q = ids(r); let w = if r.gen_bool(0.4) { None } else { Some(TW::gen(r)) }; c.insert_final_weight(q, w); fin.insert(q, w); lo = lo.max(q as usize + 1) }
            8 => if let Some(cl) = clear { cl(&c); start = None; trs.clear(); fin.clear(); lo = 0; hi = 0; },
            9 => if let Some(sv) = save { c = sv(&c)?; },
            _ => {}
        }
        req!(c.get_start().into_option() == start, "{}: get_start is {:?}, inserted was {:?}", what, c.get_start().into_option(), start);
        let q = ids(r);
        let t = c.get_trs(q).into_option().map(|t| arcs(&t));
        req!(t.as_ref() == trs.get(&q), "{}: get_trs({}) is {:?}, inserted was {:?}", what, q, t, trs.get(&q));
        let w = c.get_final_weight(q).into_option();
        req!(w.as_ref() == fin.get(&q), "{}: get_final_weight({}) is {:?}, inserted was {:?}", what, q, w, fin.get(&q));
        req!(c.num_trs(q) == trs.get(&q).map(|t| t.len()), "{}: num_trs({}) is {:?}", what, q, c.num_trs(q));
        req!(c.num_input_epsilons(q) == trs.get(&q).map(|t| t.iter().filter(|a| a.i == 0).count()), "{}: num_input_epsilons({})", what, q);
        req!(c.num_output_epsilons(q) == trs.get(&q).map(|t| t.iter().filter(|a| a.o == 0).count()), "{}: num_output_epsilons({})", what, q);
        req!(c.compute_num_known_trs() == trs.values().map(|t| t.len()).sum::<usize>(), "{}: compute_num_known_trs is {}", what, c.compute_num_known_trs());
        req!(c.num_known_states() >= lo && c.num_known_states() <= lo.max(hi), "{}: num_known_states is {}, states up to {} were named", what, c.num_known_states(), lo);
    }
    Ok(())
}
fn tables(r: &mut R) -> Res {
    let t: StateTable<(u32, Option<u32>)> = StateTable::new();
    let mut m: Vec<(u32, Option<u32>)> = vec![];
    for _ in 0..r.gen_range(1..60) {
        let k = (r.gen_range(0..4), if r.gen_bool(0.3) { None } else { Some(r.gen_range(0..4)) });
        let id = if r.gen_bool(0.5) { t.find_id(k) } else { t.find_id_from_ref(&k) };
        match m.iter().position(|x| *x == k) {
            Some(p) => req!(id as usize == p, "StateTable: {:?} had number {} and now has {}", k, p, id),
            None => { req!(id as usize == m.len(), "StateTable: the new tuple {:?} has number {} after {} tuples", k, id, m.len()); m.push(k) }
        }
        let q = r.gen_range(0..m.len());
        req!(t.find_tuple(q as u32) == m[q], "StateTable: tuple {} is {:?}, not {:?}", q, t.find_tuple(q as u32), m[q]);
    }
    let c = t.clone();
    for (i, k) in m.iter().enumerate() { req!(c.find_tuple(i as u32) == *k && c.find_id(*k) == i as u32, "StateTable: the clone differs at {}", i); }
    Ok(())
}

fn sorted(g: &G<TW>, out: bool) -> F { let mut f = g.vfst(); if out { tr_sort(&mut f, OLabelCompare {}) } else { tr_sort(&mut f, ILabelCompare {}) } f }
/// the lazy machines of the crate
fn lazies(a: &G<TW>, b: &G<TW>, seed: u64, k: usize) -> Res {
    let (fa, fb) = (a.vfst(), b.vfst());
    macro_rules! w { ($n:expr, $mk:expr) => {{ ways($n, seed, &|| Ok(tri!($mk)), &|l| Ok(tri!(l.compute::<F>())), &threads)?; }}; }
    match k % 8 {
        0 => w!("UnionFst", UnionFst::<TW, F>::new(fa.clone(), fb.clone())),
        1 => w!("ConcatFst", ConcatFst::<TW, F>::new(fa.clone(), fb.clone())),
        2 => w!("ClosureFst", ClosureFst::<TW, F>::new(fa.clone(), if seed % 2 == 0 { ClosureType::ClosureStar } else { ClosureType::ClosurePlus })),
        3 => { ways("RmEpsilonFst", seed, &|| Ok(tri!(RmEpsilonFst::<TW, F, _>::new(fa.clone()))), &|l| Ok(tri!(l.compute::<F>())), &|_, _| vec![])?; }
        4 => {
            let (x, y) = (Arc::new(sorted(a, true)), Arc::new(sorted(b, false)));
            w!("ComposeFst", ComposeFst::<TW, F, F, _, _, SortedMatcher<_, _, _>, SortedMatcher<_, _, _>, SequenceComposeFilterBuilder<_, _, _, _, _, _, _>>::new_auto(x.clone(), y.clone()));
        }
        5 => {
            let (x, y) = (Arc::new(sorted(a, true)), Arc::new(sorted(b, false)));
            let mk = || -> Result<_, String> {
                let opts = ComposeFstOpOptions::<SortedMatcher<TW, F, Arc<F>>, SortedMatcher<TW, F, Arc<F>>, AltSequenceComposeFilterBuilder<_, _, _, _, _, _, _>, _>::default();
                Ok(tri!(ComposeFst::new_with_options_and_cache(x.clone(), y.clone(), opts, SimpleHashMapCache::<TW>::default())))
            };
            ways("ComposeFst with the alternative filter and a hash map cache", seed, &mk, &|l| Ok(tri!(l.compute::<F>())), &threads)?;
        }
        6 => {
            let mut g = b.clone();
            for t in g.trs.iter_mut().flatten() { if t.o == 3 { t.o = 0 } }
            let r = g.vfst();
            w!("ReplaceFst", ReplaceFst::<TW, F, F>::new(vec![(100, fa.clone()), (3, r.clone())], 100, seed % 2 == 0));
        }
        _ => {
            let mut g: G<GallicWeightLeft<TW>> = G::new();
            for q in 0..a.n() { g.add(); g.fin[q] = a.fin[q].map(|w| GallicWeightLeft::from((rustfst::semirings::StringWeightLeft::one(), w))); }
            g.start = a.start;
            for q in 0..a.n() { for t in &a.trs[q] {
                let s: Vec<u32> = (0..(if t.n as usize > q { t.o % 3 } else { 0 })).map(|j| t.o + j).collect();
                let sw: rustfst::semirings::StringWeightLeft = s.into();
                g.tr(q as u32, t.i, t.i, GallicWeightLeft::from((sw, t.w)), t.n);
            } }
            let f = g.vfst();
            ways("FactorWeightFst", seed, &|| Ok(tri!(FactorWeightFst::<GallicWeightLeft<TW>, VectorFst<GallicWeightLeft<TW>>, _, GallicFactorLeft<TW>>::new(f.clone(), FactorWeightOptions::new(FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS)))), &|l| Ok(tri!(l.compute::<VectorFst<GallicWeightLeft<TW>>>())), &threads)?;
        }
    }
    Ok(())
}

pub fn c15(c: &mut Ctx) {
    c.section("state tables");
    for k in 0..c.n(200, 2000) { if !c.go() { return; } let mut r = c.rng(0xF000 + k as u64); c.case(format!("history {}", k), true, || tables(&mut r)); }
    c.section("caches");
    let d = scratch();
    for k in 0..c.n(250, 3000) {
        if !c.go() { break; }
        let mut r = c.rng(0xF1_0000 + k as u64);
        let p = d.join("cache");
        c.case(format!("history {}", k), true, || match k % 4 {
            0 => cache::<SimpleVecCache<TW>>("SimpleVecCache", &mut r, Some(&|c| c.clear()), Some(&|c| { tri!(c.write(&p)); let x: SimpleVecCache<TW> = tri!(SerializableCache::read(&p)); req!(&x == c, "SimpleVecCache: the cache read back differs"); Ok(x) })),
            1 => cache::<SimpleHashMapCache<TW>>("SimpleHashMapCache", &mut r, Some(&|c| c.clear()), Some(&|c| { tri!(c.write(&p)); let x: SimpleHashMapCache<TW> = tri!(SerializableCache::read(&p)); req!(&x == c, "SimpleHashMapCache: the cache read back differs"); Ok(x) })),
            2 => cache::<FirstCache<TW, SimpleVecCache<TW>>>("FirstCache", &mut r, None, None),
            _ => cache::<FirstCache<TW, SimpleHashMapCache<TW>>>("FirstCache over a hash map", &mut r, None, Some(&|_| Err("no".into()))).or_else(|e| if e == "no" { Ok(()) } else { Err(e) }),
        });
    }
    let _ = std::fs::remove_dir_all(&d);
    c.section("lazy machines over a known operation");
    for k in 0..c.n(1500, 20000) {
        if !c.go() { return; }
        let mut r = c.rng(0xF2_0000 + k as u64);
        let g = gen::<TW>(&mut r, &Cfg { states: 6, trs: 12, zero: 0.05, ..Cfg::default() });
        let seed = r.gen();
        c.case(format!("{} seed {} kind {}", g.show(), seed, k % 7), g.ntrs() > 0, || table_ops(&g, seed, k));
    }
    c.section("lazy machines of the crate");
    for k in 0..c.n(1500, 20000) {
        if !c.go() { return; }
        let mut r = c.rng(0xF3_0000 + k as u64);
        let cf = Cfg { states: 4, trs: 7, big: 0.0, ..Cfg::default() };
        let (a, b) = (gen::<TW>(&mut r, &cf), gen::<TW>(&mut r, &cf));
        let seed = r.gen();
        c.case(format!("{} / {} seed {} kind {}", a.show(), b.show(), seed, k % 8), a.ntrs() > 0, || lazies(&a, &b, seed, k));
    }
}

/// the weight of every pair of strings of the network of machines, by expanding the root with explicit stacks
fn network(m: &[(u32, G<TW>)], root: usize, eps: bool, cap: usize) -> Option<G<TW>> {
    let nt = |l: u32| m.iter().rposition(|x| x.0 == l);
    let mut g = G::new();
    let s = match m[root].1.start { Some(s) => s, None => return Some(g) };
    let mut ids: BTreeMap<(Vec<(usize, u32)>, usize, u32), u32> = BTreeMap::new();
    let mut st = vec![];
    let first = (vec![], root, s);
    ids.insert(first.clone(), g.add());
    g.start = Some(0);
    st.push(first);
    while let Some(cfg) = st.pop() {
        let q = ids[&cfg];
        let (stack, f, p) = cfg;
        let mut go = |g: &mut G<TW>, k: (Vec<(usize, u32)>, usize, u32)| -> u32 { if let Some(x) = ids.get(&k) { return *x; } let x = g.add(); ids.insert(k.clone(), x); st.push(k); x };
        if let Some(w) = &m[f].1.fin[p as usize] {
            if stack.is_empty() { g.fin[q as usize] = Some(*w) } else if !w.is_zero() {
                let mut s2 = stack.clone();
                let (rf, rp) = s2.pop().unwrap();
                let n = go(&mut g, (s2, rf, rp));
                g.tr(q, 0, 0, *w, n);
            }
        }
        for a in &m[f].1.trs[p as usize] {
            match if a.o == 0 { None } else { nt(a.o) } {
                None => { let n = go(&mut g, (stack.clone(), f, a.n)); g.tr(q, a.i, a.o, a.w, n) }
                Some(k) => if let Some(st2) = m[k].1.start {
                    let mut s2 = stack.clone();
                    s2.push((f, a.n));
                    let n = go(&mut g, (s2, k, st2));
                    g.tr(q, if eps { 0 } else { a.i }, 0, a.w, n)
                },
            }
        }
        if g.n() > cap { return None; }
    }
    Some(g)
}
fn repl(m: &[(u32, G<TW>)], root: usize, eps: bool, v: usize) -> Res {
    let want = match network(m, root, eps, 400) { Some(g) => g, None => return Ok(()) };
    let l: Vec<(u32, F)> = m.iter().enumerate().map(|(i, (k, g))| (*k, variant(g, v + i))).collect();
    let out: F = tri!(replace::<TW, F, F, F>(l.clone(), m[root].0, eps));
    check_out("replace", &out)?;
    let g = read(&out);
    g.well_formed()?;
    let lz = tri!(ReplaceFst::<TW, F, F>::new(l.clone(), m[root].0, eps));
    let e = expand(&lz, 3000)?;
    // transitions of a state may come in another order: compare the machines as sets of transitions under the names of
    // their configurations by comparing the weighted languages, and exactly when the orders agree
    if same_up_to_names("replace", &want, &g).is_err() || same_up_to_names("ReplaceFst", &want, &e).is_err() {
        let w = lang(&want, 4, true);
        same_lang("replace", &lang(&g, 4, true), &w)?;
        same_lang("ReplaceFst", &lang(&e, 4, true), &w)?;
    }
    for (i, (_, f)) in l.iter().enumerate() { req!(read(f) == m[i].1, "replace changed an operand"); }
    Ok(())
}
pub fn c19(c: &mut Ctx) {
    c.section("networks");
    for k in 0..c.n(1500, 20000) {
        if !c.go() { return; }
        let mut r = c.rng(0xA9_0000 + k as u64);
        let nm = r.gen_range(1..5);
        let labels: Vec<u32> = match r.gen_range(0..4) { 0 => (0..nm).map(|i| 10 + i as u32).collect(), 1 => (0..nm).map(|i| 3 + 2 * i as u32).collect(), 2 => (0..nm).map(|i| i as u32 + 1).collect(), _ => { let mut v: Vec<u32> = (0..nm as u32).map(|i| 9 - 2 * i).collect(); v.rotate_left(1); v } };
        let mut ms: Vec<(u32, G<TW>)> = vec![];
        for i in 0..nm {
            let mut g = gen::<TW>(&mut r, &Cfg { states: 3, trs: 5, labels: 4, eps: 0.15, nostart: 0.08, zero: if k % 9 == 0 { 0.15 } else { 0.0 }, big: 0.0, ..Cfg::default() });
            // calls: to later machines only (no recursion), sometimes to any (recursion, capped)
            for a in g.trs.iter_mut().flatten() {
                let rec = r.gen_bool(0.03);
                if r.gen_bool(0.35) { let lo = if rec { 0 } else { i + 1 }; if lo < nm { a.o = labels[r.gen_range(lo..nm)]; if r.gen_bool(0.5) { a.i = a.o } } }
                else if labels.contains(&a.o) { a.o = 50 + a.o }
            }
            ms.push((labels[i], g));
        }
        let root = if r.gen_bool(0.8) { 0 } else { r.gen_range(0..nm) };
        let eps = r.gen_bool(0.5);
        let desc = format!("root {} eps {} {}", ms[root].0, eps, ms.iter().map(|(l, g)| format!("[{}: {}]", l, g.show())).collect::<Vec<_>>().join(" "));
        c.case(desc, ms.iter().any(|m| m.1.ntrs() > 0), || repl(&ms, root, eps, k));
    }
    c.section("missing root");
    for k in 0..20u32 { let f = G::<TW>::new().vfst(); c.case(format!("root {}", k), true, || { let r = replace::<TW, F, F, F>(vec![(50, f.clone())], k, true); req!(r.is_err(), "replace with a root label that has no machine must be an error"); Ok(()) }); }
}
