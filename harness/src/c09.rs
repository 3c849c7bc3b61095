//! C09: composition.
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::lookahead_filters::lookahead_selector::SMatchOutput;
use rustfst::algorithms::compose::lookahead_filters::*;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::lazy::SimpleHashMapCache;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::collections::BTreeMap;
use std::sync::Arc;

/// Sum over the middle string, for machines without cycles: no construction shared with the code under test.
fn l_compose<W: Semiring>(a: &Lang<W>, b: &Lang<W>) -> Lang<W> {
    let mut o: Lang<W> = BTreeMap::new();
    for ((x, y), w) in a { for ((y2, z), v) in b { if y == y2 { let e = o.entry((x.clone(), z.clone())).or_insert_with(W::zero); *e = pl(e, &ti(w, v)); } } }
    o.retain(|_, w| !w.is_zero());
    o
}
/// The full product machine; with `eps`, epsilon moves of each side separately (idempotent semirings only),
/// otherwise epsilon matches epsilon like any label.
pub fn product<W: Semiring>(a: &G<W>, b: &G<W>, eps: bool) -> G<W> {
    let mut g = G::new();
    let (s, t) = match (a.start, b.start) { (Some(s), Some(t)) => (s, t), _ => return g };
    let mut id: BTreeMap<(u32, u32), u32> = BTreeMap::new();
    let mut todo = vec![(s, t)];
    g.start = Some(g.add());
    id.insert((s, t), 0);
    while let Some((p, q)) = todo.pop() {
        let me = id[&(p, q)];
        if let (Some(x), Some(y)) = (&a.fin[p as usize], &b.fin[q as usize]) { g.fin[me as usize] = Some(ti(x, y)); }
        let mut out: Vec<(u32, u32, W, u32, u32)> = vec![];
        for x in &a.trs[p as usize] {
            if x.o == 0 && eps { { out.push((x.i, 0, x.w.clone(), x.n, q)) } } else { for y in &b.trs[q as usize] { if x.o == y.i { out.push((x.i, y.o, ti(&x.w, &y.w), x.n, y.n)) } } }
        }
        if eps { for y in &b.trs[q as usize] { if y.i == 0 { out.push((0, y.o, y.w.clone(), p, y.n)) } } }
        for (i, o, w, p2, q2) in out {
            let n = match id.get(&(p2, q2)) { Some(n) => *n, None => { let n = g.add(); id.insert((p2, q2), n); todo.push((p2, q2)); n } };
            g.tr(me, i, o, w, n);
        }
    }
    g
}
fn run<W: GenW>(a: &VectorFst<W>, b: &VectorFst<W>, f: ComposeFilterEnum, conn: bool) -> Result<VectorFst<W>, String> {
    let mut cf = ComposeConfig::default();
    cf.compose_filter = f;
    cf.connect = conn;
    Ok(tri!(compose_with_config::<W, VectorFst<W>, VectorFst<W>, _, _, VectorFst<W>>(a, b, cf)))
}
const EXACT: [ComposeFilterEnum; 4] = [ComposeFilterEnum::AutoFilter, ComposeFilterEnum::SequenceFilter, ComposeFilterEnum::AltSequenceFilter, ComposeFilterEnum::MatchFilter];
const REDUNDANT: [ComposeFilterEnum; 2] = [ComposeFilterEnum::TrivialFilter, ComposeFilterEnum::NoMatchFilter];
/// which sides are sorted: both, the left one by output, the right one by input
fn sorted<W: GenW>(a: &G<W>, b: &G<W>, v: usize) -> (VectorFst<W>, VectorFst<W>) {
    let (mut fa, mut fb) = (variant(a, v), variant(b, v / 3));
    if v % 4 != 1 { tr_sort(&mut fa, OLabelCompare {}); }
    if v % 4 != 2 { tr_sort(&mut fb, ILabelCompare {}); }
    (fa, fb)
}
fn idem(a: &G<TW>, b: &G<TW>, v: usize, k: usize) -> Res {
    let (fa, fb) = sorted(a, b, v);
    let want = lang(&product(a, b, true), k, true);
    let both = v % 4 == 0 || v % 4 == 3;
    for f in EXACT.iter().chain(REDUNDANT.iter()) {
        if !both && *f != ComposeFilterEnum::AutoFilter { continue; }
        let m = run(&fa, &fb, *f, v % 2 == 0)?;
        let g = read(&m);
        g.well_formed()?;
        same_lang(&format!("compose with {:?} (sorting mode {})", f, v % 4), &lang(&g, k, true), &want)?;
        if v % 2 == 0 { let (x, y) = (g.accessible(), g.coaccessible()); req!((0..g.n()).all(|q| x[q] && y[q]), "compose with {:?} and connect leaves dead states: {}", f, g.show()); }
    }
    if both {
        let m = run(&fa, &fb, ComposeFilterEnum::NullFilter, true)?;
        same_lang("compose with NullFilter", &lang(&read(&m), k, true), &lang(&product(a, b, false), k, true))?;
    }
    let m: VectorFst<TW> = tri!(compose::<TW, VectorFst<TW>, VectorFst<TW>, _, _, _>(fa.clone(), fb.clone()));
    same_lang("compose", &lang(&read(&m), k, true), &want)?;
    let l = tri!(ComposeFst::<TW, VectorFst<TW>, VectorFst<TW>, _, _, SortedMatcher<_, _, _>, SortedMatcher<_, _, _>, SequenceComposeFilterBuilder<_, _, _, _, _, _, _>>::new_auto(Arc::new(fa.clone()), Arc::new(fb.clone())));
    same_lang("ComposeFst::new_auto", &lang(&expand(&l, 3000)?, k, true), &want)?;
    Ok(())
}
fn exact(a: &G<IW>, b: &G<IW>, v: usize) -> Res {
    let (fa, fb) = sorted(a, b, v * 4);
    let want = l_compose(&lang(a, 20, false), &lang(b, 20, false));
    for f in EXACT.iter() {
        let g = read(&run(&fa, &fb, *f, v % 2 == 0)?);
        g.well_formed()?;
        same_lang(&format!("compose with {:?}", f), &lang(&g, 40, false), &want)?;
    }
    // one side without epsilons on the shared tape: every filter is exact
    if a.trs.iter().flatten().all(|x| x.o != 0) || b.trs.iter().flatten().all(|x| x.i != 0) {
        for f in REDUNDANT.iter() { same_lang(&format!("compose with {:?}", f), &lang(&read(&run(&fa, &fb, *f, true)?), 40, false), &want)?; }
    }
    Ok(())
}

type F = VectorFst<TW>;
type M2 = SortedMatcher<TW, F, Arc<F>>;
macro_rules! la_mod { ($m:ident, $fl:expr) => { mod $m {
    use super::*;
    #[derive(Debug, Clone, PartialOrd, PartialEq)]
    pub struct LaFlags {}
    impl MatcherFlagsTrait for LaFlags { fn flags() -> MatcherFlags { $fl } }
    type M1 = LabelLookAheadMatcher<TW, F, Arc<F>, SortedMatcher<TW, F, Arc<F>>, LaFlags>;
    type La = MatcherFst<TW, F, Arc<F>, M1, LabelReachableData>;
    type TM1 = LabelLookAheadMatcher<TW, La, Arc<La>, SortedMatcher<TW, La, Arc<La>>, LaFlags>;
    type Seq = AltSequenceComposeFilterBuilder<TW, La, F, Arc<La>, Arc<F>, TM1, M2>;
    type Look = LookAheadComposeFilterBuilder<TW, La, F, Arc<La>, Arc<F>, TM1, M2, Seq, SMatchOutput>;
    type PushW = PushWeightsComposeFilterBuilder<TW, La, F, Arc<La>, Arc<F>, TM1, M2, Look, SMatchOutput>;
    type PushL = PushLabelsComposeFilterBuilder<TW, La, F, Arc<La>, Arc<F>, TM1, M2, PushW, SMatchOutput>;
    fn la<B: ComposeFilterBuilder<TW, La, F, Arc<La>, Arc<F>, TM1, M2>>(what: &str, a: &G<TW>, b: &G<TW>, v: usize) -> Result<G<TW>, String>
    where B: std::fmt::Debug + Clone, B::CF: std::fmt::Debug {
        let fa = variant(a, v);
        let mut fb = variant(b, v / 3);
        let look = Arc::new(tri!(La::new_with_relabeling(fa, &mut fb, true)));
        tr_sort(&mut fb, ILabelCompare {});
        let fb = Arc::new(fb);
        let m1 = tri!(TM1::new_with_data(Arc::clone(&look), MatchType::MatchOutput, look.data(MatchType::MatchOutput).cloned()));
        let m2 = tri!(M2::new(Arc::clone(&fb), MatchType::MatchInput));
        let cf = tri!(B::new(Arc::clone(&look), Arc::clone(&fb), Some(m1), Some(m2)));
        let op = ComposeFstOpOptions::<_, _, B, _>::new(None, None, cf, None);
        let d = tri!(ComposeFst::<TW, La, F, Arc<La>, Arc<F>, TM1, M2, B, SimpleHashMapCache<_>>::new_with_options(look, fb, op));
        let m: F = tri!(d.compute());
        crate::c02::check_out(what, &m)?;
        Ok(read(&m))
    }
    pub fn lookahead(a: &G<TW>, b: &G<TW>, v: usize, k: usize) -> Res {
        let want = lang(&product(a, b, true), k, true);
        let acyclic = !a.cyclic() && !b.cyclic();
        let n = if acyclic { pairs(a, b) } else { 0 };
        for (what, g) in [("compose with the label lookahead filter", la::<Look>("label lookahead", a, b, v)?), ("compose with lookahead and weight pushing", la::<PushW>("lookahead with weights", a, b, v)?), ("compose with lookahead, weight and label pushing", la::<PushL>("lookahead with labels", a, b, v)?)] {
            same_lang(what, &lang(&g, k, true), &want)?;
            if acyclic { req!(paths(&g).len() == n, "{}: {} successful paths for {} pairs of paths: {}", what, paths(&g).len(), n, g.show()); }
        }
        Ok(())
    }
} } }
la_mod!(la_open, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_WEIGHT | MatcherFlags::LOOKAHEAD_PREFIX | MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_NON_EPSILON_PREFIX);
la_mod!(la_all, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_WEIGHT | MatcherFlags::LOOKAHEAD_PREFIX | MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_NON_EPSILONS);
la_mod!(la_min, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_NON_EPSILONS);
/// the successful paths of an acyclic machine: input and output labels
fn paths(g: &G<TW>) -> Vec<(Vec<u32>, Vec<u32>)> {
    let mut out = vec![];
    let mut todo: Vec<(u32, Vec<u32>, Vec<u32>)> = g.start.iter().map(|s| (*s, vec![], vec![])).collect();
    while let Some((q, i, o)) = todo.pop() {
        for t in &g.trs[q as usize] { let (mut i, mut o) = (i.clone(), o.clone()); if t.i != 0 { i.push(t.i) } if t.o != 0 { o.push(t.o) } todo.push((t.n, i, o)); }
        if g.is_fin(q as usize) { out.push((i, o)); }
    }
    out
}
/// how many pairs of successful paths agree on the middle string
fn pairs(a: &G<TW>, b: &G<TW>) -> usize {
    let mut m: std::collections::HashMap<Vec<u32>, usize> = Default::default();
    for (_, o) in paths(a) { *m.entry(o).or_default() += 1; }
    paths(b).into_iter().map(|(i, _)| m.get(&i).cloned().unwrap_or(0)).sum()
}
fn lookahead(a: &G<TW>, b: &G<TW>, v: usize, k: usize) -> Res {
    // looking ahead after a label finds no transition without one, so the machine looked into must have none
    if b.trs.iter().flatten().any(|t| t.i == 0) { return la_open::lookahead(a, b, v, k); }
    match v % 4 { 0 | 1 => la_open::lookahead(a, b, v, k), 2 => la_all::lookahead(a, b, v, k), _ => la_min::lookahead(a, b, v, k) }
}
/// A sigma label on the input side of b stands for every label of a's output tape (optionally restricted).
fn sigma(a: &G<TW>, b: &G<TW>, v: usize, k: usize) -> Res {
    const S: u32 = 9;
    let allowed: Option<Vec<u32>> = if v % 2 == 0 { None } else { Some(vec![1, 2]) };
    let fb0 = variant(b, v / 3);
    let both = match v % 3 { 0 => true, 1 => false, _ => fb0.properties().contains(rustfst::fst_properties::FstProperties::ACCEPTOR) };
    // meaning: replace each sigma transition by one transition per label
    let mut be = b.clone();
    for t in be.trs.iter_mut() {
        let old = std::mem::take(t);
        for x in old {
            if x.i != S { t.push(x); continue; }
            for l in 1..=4u32 {
                if allowed.as_ref().map(|al| !al.contains(&l)).unwrap_or(false) { continue; }
                t.push(A { i: l, o: if x.o == S && both { l } else { x.o }, w: x.w.clone(), n: x.n });
            }
        }
    }
    let want = lang(&product(a, &be, true), k, true);
    let (mut fa, mut fb) = (variant(a, v), fb0);
    tr_sort(&mut fa, OLabelCompare {}); tr_sort(&mut fb, ILabelCompare {});
    let mut cf = ComposeConfig::default();
    cf.compose_filter = ComposeFilterEnum::SequenceFilter;
    cf.matcher2_config = MatcherConfig { sigma_matcher_config: Some(SigmaMatcherConfig { sigma_label: S, rewrite_mode: match v % 3 { 0 => MatcherRewriteMode::MatcherRewriteAlways, 1 => MatcherRewriteMode::MatcherRewriteNever, _ => MatcherRewriteMode::MatcherRewriteAuto }, sigma_allowed_matches: allowed }) };
    let m: F = tri!(compose_with_config::<TW, F, F, _, _, F>(&fa, &fb, cf));
    same_lang("compose with a sigma matcher", &lang(&read(&m), k, true), &want)
}
fn cfg(k: usize) -> Cfg { Cfg { states: 2 + k % 3, trs: 3 + k % 6, acyclic: k % 3 == 0, nostart: 0.02, labels: 2 + (k % 2) as u32, eps: [0.0, 0.25, 0.5][k % 3], fin: 0.5, zero: if k % 17 == 0 { 0.1 } else { 0.0 }, big: 0.0, ..Default::default() } }
pub fn c09(c: &mut Ctx) {
    c.section("exhaustive pairs of machines with 2 states and 1 transition (sampled when quick)");
    let mut small = vec![];
    enumerate::<TW>(2, 1, 1, false, &mut |g| { if g.start.is_some() { small.push(g.clone()); } true });
    let step = if c.thorough { 3 } else { 101 };
    for (x, a) in small.iter().enumerate() { for (y, b) in small.iter().enumerate() { if (x * 7 + y) % step != 0 { continue; } if !c.go() { return; } c.case(format!("{} / {}", a.show(), b.show()), true, || idem(a, b, x + y, 3)); } }
    c.section("random, tropical, all filters");
    let mut r = c.rng(91);
    for k in 0..c.n(2500, 60000) { if !c.go() { return; } let (a, b) = (gen::<TW>(&mut r, &cfg(k)), gen::<TW>(&mut r, &cfg(k / 2))); c.case(format!("{} / {}", a.show(), b.show()), a.ntrs() + b.ntrs() > 0, || idem(&a, &b, k, 4)); }
    c.section("random acyclic, integer (redundant epsilon paths would count twice)");
    let mut r = c.rng(92);
    for k in 0..c.n(5000, 100000) { if !c.go() { return; } let mut cf = Cfg { acyclic: true, states: 4, trs: 7, ..cfg(k) }; cf.zero = 0.0; let (a, b) = (gen::<IW>(&mut r, &cf), gen::<IW>(&mut r, &cf)); c.case(format!("{} / {}", a.show(), b.show()), a.ntrs() + b.ntrs() > 0, || exact(&a, &b, k)); }
    c.section("random, label lookahead");
    let mut r = c.rng(93);
    for k in 0..c.n(2500, 60000) { if !c.go() { return; } let cf = Cfg { zero: 0.0, ..cfg(k) }; let (a, b) = (gen::<TW>(&mut r, &cf), gen::<TW>(&mut r, &cf)); if a.trs.iter().flatten().count() == 0 { continue; } c.case(format!("{} / {}", a.show(), b.show()), a.ntrs() + b.ntrs() > 0, || lookahead(&a, &b, k, 4)); }
    c.section("random acyclic, label lookahead, many labels");
    for k in 0..c.n(5000, 60000) { if !c.go() { return; } let cf = Cfg { zero: 0.0, acyclic: true, labels: 12, acceptor: k % 4 == 0, states: 7, trs: 22, eps: 0.15, nostart: 0.0, big: 0.0, ..cfg(k) }; let a = gen::<TW>(&mut r, &cf); let b = gen::<TW>(&mut r, &Cfg { states: 4, trs: 10, eps: if k % 2 == 0 { 0.0 } else { 0.15 }, ..cf }); if a.ntrs() == 0 { continue; } c.case(format!("{} / {}", a.show(), b.show()), a.ntrs() + b.ntrs() > 0, || lookahead(&a, &b, k, 12)); }
    c.section("random acyclic, label lookahead, reachable labels far apart");
    for k in 0..c.n(2500, 60000) {
        if !c.go() { return; }
        let mut a: G<TW> = G::new();
        let n = 3 + k as u32 % 2;
        for _ in 0..n { a.add(); }
        a.start = Some(0); a.fin[n as usize - 1] = Some(TW::one());
        let mut ls: Vec<u32> = (1..=14).collect();
        for q in 0..n - 1 {
            for x in (1..ls.len()).rev() { ls.swap(x, r.gen_range(0..=x)); }
            let cut = if q == 0 { 14 } else { r.gen_range(5..11) };
            for l in &ls[..cut] { let w = TW::new(r.gen_range(0..3) as f32); a.tr(q, r.gen_range(0..4), *l, w, r.gen_range(q + 1..n)); }
            if r.gen_bool(0.8) { a.tr(q, 1 + q, 0, TW::one(), q + 1); }
        }
        let b = gen::<TW>(&mut r, &Cfg { zero: 0.0, acyclic: true, labels: 14, states: 4, trs: 6, eps: if k % 2 == 0 { 0.0 } else { 0.15 }, nostart: 0.0, big: 0.0, fin: 0.5, ..cfg(k) });
        c.case(format!("{} / {}", a.show(), b.show()), a.ntrs() + b.ntrs() > 0, || lookahead(&a, &b, k, 12));
    }
    c.section("random, sigma matcher");
    let mut r = c.rng(94);
    for k in 0..c.n(2500, 60000) {
        if !c.go() { return; }
        let cf = Cfg { zero: 0.0, labels: 3, acceptor: k % 4 == 0, ..cfg(k / 3) };
        let a = gen::<TW>(&mut r, &cf);
        let mut b = gen::<TW>(&mut r, &cf);
        for x in b.trs.iter_mut().flatten() { if r.gen_bool(0.3) { x.i = 9; if k % 4 == 0 || r.gen_bool(0.5) { x.o = 9 } } }
        c.case(format!("sigma mode {} {} / {}", k % 6, a.show(), b.show()), b.trs.iter().flatten().any(|x| x.i == 9), || sigma(&a, &b, k, 4));
    }
}
