//! C02: every property bit a machine asserts is true of it.
use crate::c01::{apply, gen_op, Op};
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::algorithms::closure::ClosureType;
use rustfst::fst_properties::{compute_fst_properties, FstProperties as P};
use rustfst::prelude::*;

/// The set of property bits that hold of g, computed from their definitions.
pub fn truth<W: Semiring>(g: &G<W>) -> P {
    let n = g.n();
    let mut p = P::empty();
    let mut set = |c: bool, y: P, no: P| { p |= if c { y } else { no } };
    let all = || (0..n).flat_map(|q| g.trs[q].iter().map(move |a| (q, a)));
    set(all().all(|(_, a)| a.i == a.o), P::ACCEPTOR, P::NOT_ACCEPTOR);
    let det = |f: &dyn Fn(&A<W>) -> u32| (0..n).all(|q| { let mut s = std::collections::HashSet::new(); g.trs[q].iter().all(|a| s.insert(f(a))) });
    set(det(&|a| a.i), P::I_DETERMINISTIC, P::NOT_I_DETERMINISTIC);
    set(det(&|a| a.o), P::O_DETERMINISTIC, P::NOT_O_DETERMINISTIC);
    set(all().any(|(_, a)| a.i == 0 && a.o == 0), P::EPSILONS, P::NO_EPSILONS);
    set(all().any(|(_, a)| a.i == 0), P::I_EPSILONS, P::NO_I_EPSILONS);
    set(all().any(|(_, a)| a.o == 0), P::O_EPSILONS, P::NO_O_EPSILONS);
    set((0..n).all(|q| g.trs[q].windows(2).all(|w| w[0].i <= w[1].i)), P::I_LABEL_SORTED, P::NOT_I_LABEL_SORTED);
    set((0..n).all(|q| g.trs[q].windows(2).all(|w| w[0].o <= w[1].o)), P::O_LABEL_SORTED, P::NOT_O_LABEL_SORTED);
    let triv = |w: &W| w.is_one() || w.is_zero();
    set(all().any(|(_, a)| !triv(&a.w)) || g.fin.iter().flatten().any(|w| !triv(w)), P::WEIGHTED, P::UNWEIGHTED);
    let r = g.reach_plus();
    set((0..n).any(|q| r[q][q]), P::CYCLIC, P::ACYCLIC);
    set(g.start.map(|s| r[s as usize][s as usize]).unwrap_or(false), P::INITIAL_CYCLIC, P::INITIAL_ACYCLIC);
    set(all().all(|(q, a)| a.n as usize > q), P::TOP_SORTED, P::NOT_TOP_SORTED);
    set(g.accessible().iter().all(|x| *x), P::ACCESSIBLE, P::NOT_ACCESSIBLE);
    set(g.coaccessible().iter().all(|x| *x), P::COACCESSIBLE, P::NOT_COACCESSIBLE);
    let string = n == 0 || (g.start == Some(0) && g.is_fin(n - 1) && g.trs[n - 1].is_empty() && (0..n - 1).all(|q| !g.is_fin(q) && g.trs[q].len() == 1 && g.trs[q][0].n as usize == q + 1));
    set(string, P::STRING, P::NOT_STRING);
    set(all().any(|(q, a)| !triv(&a.w) && (a.n as usize == q || r[a.n as usize][q])), P::WEIGHTED_CYCLES, P::UNWEIGHTED_CYCLES);
    p
}
pub fn sound<W: Semiring>(what: &str, props: P, g: &G<W>) -> Res {
    let t = truth(g);
    let bad = props & !t & P::from_bits_truncate(0x0000_ffff_ffff_0000);
    req!(bad.is_empty(), "{}: asserts {:?}, which is false of {}", what, bad, g.show());
    Ok(())
}
pub fn full<W: Semiring>(g: &G<W>) -> VectorFst<W> {
    let mut f = g.vfst();
    f.set_properties(truth(g));
    f
}
pub fn check_out<W: Semiring>(what: &str, f: &VectorFst<W>) -> Res { let g = read(f); g.well_formed().map_err(|e| format!("{}: {}", what, e))?; sound(what, f.properties(), &g) }

fn compute<W: GenW>(g: &G<W>) -> Res {
    let t = truth(g);
    let f = g.vfst();
    sound("construction", f.properties(), g)?;
    let mut known = P::empty();
    let all = P::from_bits_truncate(0x0000_ffff_ffff_0000);
    let p = tri!(compute_fst_properties(&f, all, &mut known, false));
    req!(g.n() == 0 || known == all || known.is_all(), "compute_fst_properties: all properties requested, known {:?}", known);
    let mut tt = t;
    let mut pp = p;
    // STRING is only defined for a machine with a start state
    if g.start.is_none() { tt &= !(P::STRING | P::NOT_STRING); pp &= !(P::STRING | P::NOT_STRING); }
    req!(pp == tt, "compute_fst_properties: {:?} should be {:?}", pp & !tt, tt & !pp);
    let mut f2 = g.vfst();
    let q = tri!(f2.compute_and_update_properties_all());
    req!(q & !t & !(P::STRING | P::NOT_STRING) == P::empty(), "compute_and_update_properties_all returned false bits");
    if g.start.is_some() { sound("compute_and_update_properties_all", f2.properties(), g)?; }
    Ok(())
}

type Alg<W> = (&'static str, fn(&VectorFst<W>, &VectorFst<W>, &G<W>) -> Result<Option<VectorFst<W>>, String>);
macro_rules! mutf { ($f:ident, $m:ident, $e:expr) => {{ let mut $m = $f.clone(); tri!($e); Ok(Some($m)) }} }

pub fn algs() -> Vec<Alg<TW>> {
    let mut v: Vec<Alg<TW>> = vec![
        ("invert", |f, _, _| { let mut m = f.clone(); invert(&mut m); Ok(Some(m)) }),
        ("project input", |f, _, _| { let mut m = f.clone(); project(&mut m, ProjectType::ProjectInput); Ok(Some(m)) }),
        ("project output", |f, _, _| { let mut m = f.clone(); project(&mut m, ProjectType::ProjectOutput); Ok(Some(m)) }),
        ("connect", |f, _, _| mutf!(f, m, connect(&mut m))),
        ("union", |f, h, _| mutf!(f, m, rustfst::algorithms::union::union(&mut m, h))),
        ("concat", |f, h, _| mutf!(f, m, rustfst::algorithms::concat::concat(&mut m, h))),
        ("closure star", |f, _, _| { let mut m = f.clone(); rustfst::algorithms::closure::closure(&mut m, ClosureType::ClosureStar); Ok(Some(m)) }),
        ("closure plus", |f, _, _| { let mut m = f.clone(); rustfst::algorithms::closure::closure(&mut m, ClosureType::ClosurePlus); Ok(Some(m)) }),
        ("tr_sort input", |f, _, _| { let mut m = f.clone(); tr_sort(&mut m, ILabelCompare {}); Ok(Some(m)) }),
        ("tr_sort output", |f, _, _| { let mut m = f.clone(); tr_sort(&mut m, OLabelCompare {}); Ok(Some(m)) }),
        ("tr_unique", |f, _, _| { let mut m = f.clone(); tr_unique(&mut m); Ok(Some(m)) }),
        ("tr_sum", |f, _, _| { let mut m = f.clone(); tr_sum(&mut m); Ok(Some(m)) }),
        ("rm_epsilon", |f, _, _| mutf!(f, m, rustfst::algorithms::rm_epsilon::rm_epsilon(&mut m))),
        ("rm_final_epsilon", |f, _, _| mutf!(f, m, rm_final_epsilon(&mut m))),
        ("add_super_final_state", |f, _, _| { let mut m = f.clone(); add_super_final_state(&mut m); Ok(Some(m)) }),
        ("reverse", |f, _, _| { let m: VectorFst<TW> = tri!(reverse(f)); Ok(Some(m)) }),
        ("top_sort", |f, _, _| { let mut m = f.clone(); tri!(top_sort(&mut m)); Ok(Some(m)) }),
        ("state_sort", |f, _, _| { let mut m = f.clone(); let n = m.num_states() as u32; let o: Vec<u32> = (0..n).map(|q| n - 1 - q).collect(); tri!(state_sort(&mut m, &o)); Ok(Some(m)) }),
        ("relabel_pairs", |f, _, _| mutf!(f, m, relabel_pairs(&mut m, vec![(1, 2), (2, 1), (3, 0)], vec![(1, 3), (2, 0)]))),
        ("tr_map identity", |f, _, _| mutf!(f, m, m.tr_map(&mut IdentityTrMapper {}))),
        ("tr_map invert weights", |f, _, _| mutf!(f, m, m.tr_map(&mut InvertWeightMapper {}))),
        ("tr_map plus", |f, _, _| mutf!(f, m, m.tr_map(&mut PlusMapper::from_weight(TW::new(1.0))))),
        ("tr_map times", |f, _, _| mutf!(f, m, m.tr_map(&mut TimesMapper::from_weight(TW::new(1.0))))),
        ("tr_map rm weights", |f, _, _| mutf!(f, m, m.tr_map(&mut RmWeightMapper {}))),
        ("tr_map input eps", |f, _, _| mutf!(f, m, m.tr_map(&mut InputEpsilonMapper {}))),
        ("tr_map output eps", |f, _, _| mutf!(f, m, m.tr_map(&mut OutputEpsilonMapper {}))),
        ("tr_map quantize", |f, _, _| mutf!(f, m, m.tr_map(&mut QuantizeMapper::new(KDELTA)))),
        ("push_weights initial", |f, _, _| mutf!(f, m, push_weights(&mut m, ReweightType::ReweightToInitial))),
        ("push_weights final", |f, _, _| mutf!(f, m, push_weights(&mut m, ReweightType::ReweightToFinal))),
        ("reweight", |f, _, g| { let pot: Vec<TW> = (0..g.n()).map(|q| TW::new((q % 3) as f32)).collect(); mutf!(f, m, reweight(&mut m, &pot, ReweightType::ReweightToInitial)) }),
        ("reweight final", |f, _, g| { let pot: Vec<TW> = (0..g.n()).map(|q| TW::new((q % 3) as f32)).collect(); mutf!(f, m, reweight(&mut m, &pot, ReweightType::ReweightToFinal)) }),
        ("shortest_path", |f, _, _| { let m: VectorFst<TW> = tri!(shortest_path(f)); Ok(Some(m)) }),
        ("shortest_path 3", |f, _, g| { if g.cyclic() { return Ok(None); } let m: VectorFst<TW> = tri!(shortest_path_with_config(f, ShortestPathConfig::default().with_nshortest(3))); Ok(Some(m)) }),
        ("condense", |f, _, _| { let (_, m): (_, VectorFst<TW>) = tri!(condense(f)); Ok(Some(m)) }),
        ("compose", |f, h, _| { let (mut a, mut b) = (f.clone(), h.clone()); tr_sort(&mut a, OLabelCompare {}); tr_sort(&mut b, ILabelCompare {}); let m: VectorFst<TW> = tri!(rustfst::algorithms::compose::compose::<TW, VectorFst<TW>, VectorFst<TW>, VectorFst<TW>, _, _>(a, b)); Ok(Some(m)) }),
        ("minimize", |f, _, g| { if g.cyclic() || g.start.is_none() { return Ok(None); } mutf!(f, m, minimize_with_config(&mut m, MinimizeConfig::default().with_allow_nondet(true))) }),
        ("determinize acyclic acceptor", |f, _, g| {
            if g.cyclic() { return Ok(None); }
            let mut m = f.clone(); project(&mut m, ProjectType::ProjectInput);
            let d: VectorFst<TW> = tri!(rustfst::algorithms::determinize::determinize(&m));
            Ok(Some(d))
        }),
        ("replace", |f, h, g| { if read(h).cyclic() || g.n() == 0 { return Ok(None); } let mut h2 = h.clone(); let _ = &mut h2; if read(h).trs.iter().flatten().any(|a| a.o == 3) { return Ok(None); } let m: VectorFst<TW> = tri!(rustfst::algorithms::replace::replace::<TW, VectorFst<TW>, VectorFst<TW>, _>(vec![(9, f.clone()), (3, h.clone())], 9, false)); Ok(Some(m)) }),
    ];
    use rustfst::algorithms::encode::{decode, encode, EncodeType};
    v.push(("encode labels", |f, _, _| { let mut m = f.clone(); tri!(encode(&mut m, EncodeType::EncodeLabels)); Ok(Some(m)) }));
    v.push(("encode weights", |f, _, _| { let mut m = f.clone(); tri!(encode(&mut m, EncodeType::EncodeWeights)); Ok(Some(m)) }));
    v.push(("encode both", |f, _, _| { let mut m = f.clone(); tri!(encode(&mut m, EncodeType::EncodeWeightsAndLabels)); Ok(Some(m)) }));
    v.push(("encode/decode labels", |f, _, _| { let mut m = f.clone(); let t = tri!(encode(&mut m, EncodeType::EncodeLabels)); tri!(decode(&mut m, t)); Ok(Some(m)) }));
    v.push(("encode/decode weights", |f, _, _| { let mut m = f.clone(); let t = tri!(encode(&mut m, EncodeType::EncodeWeights)); tri!(decode(&mut m, t)); Ok(Some(m)) }));
    v.push(("encode/decode both", |f, _, _| { let mut m = f.clone(); let t = tri!(encode(&mut m, EncodeType::EncodeWeightsAndLabels)); tri!(decode(&mut m, t)); Ok(Some(m)) }));
    v.push(("lazy union", |f, h, _| { let l = tri!(rustfst::algorithms::union::UnionFst::<TW, VectorFst<TW>>::new(f.clone(), h.clone())); lazy("UnionFst", &l)?; Ok(None) }));
    v.push(("lazy concat", |f, h, _| { let l = tri!(rustfst::algorithms::concat::ConcatFst::<TW, VectorFst<TW>>::new(f.clone(), h.clone())); lazy("ConcatFst", &l)?; Ok(None) }));
    v.push(("lazy closure", |f, _, _| { for t in [ClosureType::ClosurePlus, ClosureType::ClosureStar] { let l = tri!(rustfst::algorithms::closure::ClosureFst::<TW, VectorFst<TW>>::new(f.clone(), t)); lazy("ClosureFst", &l)?; } Ok(None) }));
    v.push(("lazy rm_epsilon", |f, _, _| { let l = tri!(rustfst::algorithms::rm_epsilon::RmEpsilonFst::<TW, VectorFst<TW>, _>::new(f.clone())); lazy("RmEpsilonFst", &l)?; Ok(None) }));
    v
}
fn lazy<F: Fst<TW>>(what: &str, l: &F) -> Res {
    let g = expand(l, 200)?;
    // expand() numbers gaps as empty states; keep the reachable part only
    let g = trim_access(&g);
    sound(what, l.properties() & !(P::TOP_SORTED | P::NOT_TOP_SORTED | P::STRING | P::NOT_STRING), &g)
}
pub fn trim_access<W: Semiring>(g: &G<W>) -> G<W> { let a = g.accessible(); let mut h = g.clone(); let v: Vec<u32> = (0..g.n() as u32).filter(|q| !a[*q as usize]).collect(); crate::c01::mdel(&mut h, &v); h }

pub fn c02(c: &mut Ctx) {
    c.section("compute_fst_properties, exhaustive 2 states 2 transitions");
    enumerate::<TW>(2, 2, 1, false, &mut |g| { let d = g.show(); c.case(d, true, || compute(g)) });
    c.section("compute_fst_properties, random");
    let mut r = c.rng(21);
    for k in 0..c.n(3000, 60000) { if !c.go() { return; } let g = gen::<TW>(&mut r, &Cfg { states: 5, trs: 8, acyclic: k % 3 == 0, nostart: 0.1, zero: if k % 5 == 0 { 0.1 } else { 0.0 }, ..Default::default() }); c.case(g.show(), g.ntrs() > 0, || compute(&g)); }
    c.section("one mutation of a machine whose every bit is known");
    let mut r = c.rng(22);
    for k in 0..c.n(30000, 600000) {
        if !c.go() { return; }
        let g = gen::<TW>(&mut r, &Cfg { states: 4, trs: 5, acyclic: k % 2 == 0, nostart: 0.15, fin: 0.5, zero: if k % 5 == 0 { 0.1 } else { 0.0 }, labels: 2, ..Default::default() });
        let op = gen_op(&mut r, &g, true);
        if matches!(op, Op::SetTrs(..) | Op::Sort(..) | Op::Unique(..) | Op::Sum(..)) { continue; } // documented: the caller sets the properties
        let unchecked = k % 3 == 0;
        c.case(format!("{:?} on {}", op, g.show()), true, || {
            let mut f = full(&g); let mut m = g.clone();
            apply(&mut f, &mut m, &op, unchecked)?;
            sound(&format!("{:?}", op), f.properties(), &m)
        });
    }
    c.section("histories");
    let mut r = c.rng(23);
    for _ in 0..c.n(600, 10000) {
        if !c.go() { return; }
        let mut g = G::<TW>::new();
        let mut f = VectorFst::<TW>::new();
        let mut ops = vec![];
        for k in 0..30 {
            let op = gen_op(&mut r, &g, false);
            if matches!(op, Op::SetTrs(..) | Op::Sort(..) | Op::Unique(..) | Op::Sum(..)) { continue; }
            ops.push(op.clone());
            let comp = r.gen_bool(0.1) && g.start.is_some();
            let (fr, gr) = (&mut f, &mut g);
            if !c.case(format!("history {:?}", ops), k == 29, move || { apply(fr, gr, &op, false)?; sound("history", fr.properties(), gr)?; if comp && gr.start.is_some() { tri!(fr.compute_and_update_properties_all()); } Ok(()) }) { return; }
        }
    }
    let algs = algs();
    c.section("algorithms, exhaustive 2 states 1 transition");
    let small = { let mut v = vec![]; enumerate::<TW>(2, 1, 1, false, &mut |g| { v.push(g.clone()); true }); v };
    let mut r = c.rng(24);
    for g in &small { for (name, alg) in &algs { if !c.go() { return; } let h = &small[r.gen_range(0..small.len())]; algcase(c, name, alg, g, h); } }
    c.section("algorithms, random");
    let mut r = c.rng(25);
    for k in 0..c.n(1500, 40000) {
        let cf = Cfg { states: 4, trs: 6, acyclic: k % 2 == 0, acceptor: k % 5 == 0, nostart: 0.05, labels: 2 + (k % 2) as u32, eps: [0.0, 0.3, 0.6][k % 3], ..Default::default() };
        let g = gen::<TW>(&mut r, &cf); let h = gen::<TW>(&mut r, &cf);
        for (name, alg) in &algs { if !c.go() { return; } algcase(c, name, alg, &g, &h); }
    }
}
fn algcase(c: &mut Ctx, name: &str, alg: &fn(&VectorFst<TW>, &VectorFst<TW>, &G<TW>) -> Result<Option<VectorFst<TW>>, String>, g: &G<TW>, h: &G<TW>) {
    c.case(format!("{} on {} / {}", name, g.show(), h.show()), g.ntrs() > 0, || {
        let (f, f2) = (full(g), full(h));
        match alg(&f, &f2, g)? { Some(m) => check_out(name, &m), None => Ok(()) }
    });
}
