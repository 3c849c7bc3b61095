//! C10 determinization and minimization; C11 shortest distance and shortest paths; C17 reweighting and pushing.
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

pub type LW = LogWeight;
pub type PW = ProbabilityWeight;
impl GenW for LW { fn gen(r: &mut R) -> Self { LW::new([0.5, 1.0, 2.0, 3.0][r.gen_range(0..4)]) } fn small() -> Vec<Self> { vec![LW::one(), LW::new(1.0)] } }
impl GenW for PW { fn gen(r: &mut R) -> Self { PW::new([0.5, 0.25, 0.125][r.gen_range(0..3)]) } fn small() -> Vec<Self> { vec![PW::one(), PW::new(0.5)] } }

fn det_in<W: Semiring>(what: &str, g: &G<W>) -> Res {
    for q in 0..g.n() { let mut s = BTreeSet::new(); for a in &g.trs[q] { req!(s.insert(a.i), "{}: state {} has two transitions with input label {} in {}", what, q, a.i, g.show()); } }
    Ok(())
}
fn cf(k: usize) -> Cfg { Cfg { states: 3 + k % 4, trs: 5 + k % 7, nostart: 0.02, labels: 2 + (k % 2) as u32, eps: [0.0, 0.0, 0.2][k % 3], fin: 0.4, ..Default::default() } }
fn unweight(g: &G<TW>) -> G<TW> { let mut h = g.clone(); for f in h.fin.iter_mut().flatten() { *f = TW::one() } for a in h.trs.iter_mut().flatten() { a.w = TW::one() } h }

fn det_acceptor(a: &G<TW>, v: usize, k: usize) -> Res {
    let mut f = variant(a, v);
    if v % 3 == 2 { f.set_properties(rustfst::fst_properties::FstProperties::ACCEPTOR); }
    let m: VectorFst<TW> = tri!(determinize(&f));
    let g = read(&m);
    g.well_formed()?;
    det_in("determinize", &g)?;
    if let Some(n) = subsets(a) { // the start state keeps a tag of its own, so that its subset may appear a second time
        req!(g.n() == n || g.n() == n + 1 && a.start != Some(0), "determinize gave {} states, there are {} reachable weighted subsets: {}", g.n(), n, g.show()); }
    same_lang("determinize", &lang(&g, k, true), &lang(a, k, true))
}
/// Number of distinct weighted subsets (residuals divided by the smallest one) reachable from the start state.
fn subsets(a: &G<TW>) -> Option<usize> {
    let s = match a.start { None => return Some(0), Some(s) => s };
    let key = |m: &BTreeMap<u32, f32>| m.iter().map(|(q, w)| (*q, w.to_bits())).collect::<Vec<_>>();
    let mut seen = BTreeSet::new();
    let first = BTreeMap::from([(s, 0.0f32)]);
    seen.insert(key(&first));
    let mut todo = vec![first];
    while let Some(m) = todo.pop() {
        let mut by: BTreeMap<u32, BTreeMap<u32, f32>> = BTreeMap::new();
        for (q, w) in &m { for t in &a.trs[*q as usize] {
            let x = w + t.w.value();
            if x == f32::INFINITY { return None; }
            let e = by.entry(t.i).or_default().entry(t.n).or_insert(x);
            if x < *e { *e = x; }
        } }
        for (_, mut d) in by {
            let lo = d.values().fold(f32::INFINITY, |a, b| a.min(*b));
            for w in d.values_mut() { *w -= lo; }
            if seen.insert(key(&d)) { todo.push(d); }
        }
        if seen.len() > 5000 { return None; }
    }
    Some(seen.len())
}
/// a random finite relation: input string -> outputs with weights
fn relation(r: &mut R, functional: bool) -> Vec<(Vec<u32>, Vec<u32>, TW)> {
    let mut v: Vec<(Vec<u32>, Vec<u32>, TW)> = vec![];
    for _ in 0..r.gen_range(1..6) {
        let i: Vec<u32> = (0..r.gen_range(1..5)).map(|_| r.gen_range(1..3)).collect();
        let o: Vec<u32> = (0..r.gen_range(0..5)).map(|_| r.gen_range(1..3)).collect();
        let w = TW::gen(r);
        if functional { if let Some(x) = v.iter().find(|x| x.0 == i).cloned() { if r.gen_bool(0.5) { v.push((i, x.1, w)); } continue; } }
        v.push((i, o, w));
    }
    v
}
fn paths_machine(rel: &[(Vec<u32>, Vec<u32>, TW)], r: &mut R) -> G<TW> {
    let mut g = G::<TW>::new();
    let s = g.add();
    g.start = Some(s);
    for (i, o, w) in rel {
        // outputs are distributed over the input transitions at random, the rest after the last one
        let mut q = s;
        let mut oi = 0;
        let mut rem = w.clone();
        for (x, l) in i.iter().enumerate() {
            let ol = if oi < o.len() && (r.gen_bool(0.6) || o.len() - oi >= i.len() - x) { oi += 1; o[oi - 1] } else { 0 };
            let n = g.add();
            let tw = if r.gen_bool(0.4) { std::mem::replace(&mut rem, TW::one()) } else { TW::one() };
            g.tr(q, *l, ol, tw, n);
            q = n;
        }
        while oi < o.len() { let n = g.add(); g.tr(q, 0, o[oi], TW::one(), n); oi += 1; q = n; }
        g.fin[q as usize] = Some(rem);
    }
    g
}
fn det_transducer(g: &G<TW>, t: DeterminizeType, v: usize) -> Res {
    let f = variant(g, v);
    let m: VectorFst<TW> = tri!(determinize_with_config(&f, DeterminizeConfig::default().with_det_type(t)));
    let h = read(&m);
    h.well_formed()?;
    let la = lang(g, 12, true);
    let got = lang(&h, 12, true);
    if t == DeterminizeType::DeterminizeDisambiguate {
        let mut best: BTreeMap<Vec<u32>, TW> = BTreeMap::new();
        for ((i, _), w) in &la { let e = best.entry(i.clone()).or_insert_with(TW::zero); *e = pl(e, w); }
        let mut seen = BTreeSet::new();
        for ((i, o), w) in &got {
            req!(seen.insert(i.clone()), "determinize (disambiguate): input {:?} has several outputs", i);
            req!(la.get(&(i.clone(), o.clone())) == Some(w) && best.get(i) == Some(w), "determinize (disambiguate): {:?}:{:?} has weight {:?}, best is {:?}", i, o, w, best.get(i));
        }
        req!(seen.len() == best.len(), "determinize (disambiguate) lost an input string");
        return Ok(());
    }
    // epsilon transitions that only emit the rest of the output are the permitted exception
    for q in 0..h.n() { let mut s = BTreeSet::new(); for a in &h.trs[q] { req!(a.i == 0 || s.insert(a.i), "determinize ({:?}): state {} has two transitions with input label {} in {}", t, q, a.i, h.show()); } }
    same_lang(&format!("determinize ({:?})", t), &got, &la)
}
/// Number of states of the minimal deterministic machine of the same (weighted) language: distinct residual languages up to scaling.
fn min_states(a: &G<TW>, k: usize) -> usize {
    let (x, y) = (a.accessible(), a.coaccessible());
    let keep: Vec<bool> = (0..a.n()).map(|q| x[q] && y[q]).collect();
    let t = restrict(a, &keep);
    let mut res: BTreeSet<String> = BTreeSet::new();
    for q in 0..t.n() {
        let mut h = t.clone();
        h.start = Some(q as u32);
        let l = lang(&h, k, true);
        let m = l.values().fold(TW::zero(), |m, w| pl(&m, w));
        let mut s = String::new();
        for ((i, _), w) in &l { s += &format!("{:?}/{};", i, w.value() - m.value()); }
        res.insert(s);
    }
    res.len()
}
fn dfa(r: &mut R, c: &Cfg) -> G<TW> {
    let mut g = gen::<TW>(r, &Cfg { acceptor: true, ..c.clone() });
    for t in g.trs.iter_mut() { let mut s = BTreeSet::new(); t.retain(|a| s.insert(a.i)); }
    g
}
fn mini(a: &G<TW>, v: usize, k: usize, nondet: bool) -> Res {
    let f = variant(a, v);
    let mut m = f.clone();
    tri!(minimize_with_config(&mut m, MinimizeConfig::default().with_allow_nondet(nondet)));
    let g = read(&m);
    g.well_formed()?;
    same_lang("minimize", &lang(&g, k, true), &lang(a, k, true))?;
    if !nondet {
        det_in("minimize", &g)?;
        // pushing towards the start state may need one more state when the start state is on a cycle
        let extra = if g.start.is_some() && a.trs.iter().flatten().any(|x| Some(x.n) == a.start) { 1 } else { 0 };
        let want = min_states(a, a.n() + 1);
        req!(g.n() >= want && g.n() <= want + extra, "minimize gave {} states, the minimal machine has {}: {}", g.n(), want, g.show());
    }
    Ok(())
}
fn mini_trans(a: &G<TW>, v: usize, k: usize) -> Res {
    let f = variant(a, v);
    let mut m = f.clone();
    tri!(minimize_with_config(&mut m, MinimizeConfig::default().with_allow_nondet(true)));
    let g = read(&m);
    g.well_formed()?;
    same_lang("minimize (transducer)", &lang(&g, k, true), &lang(a, k, true))
}
fn opt(a: &G<TW>, v: usize, k: usize) -> Res {
    let mut m = variant(a, v);
    tri!(optimize(&mut m));
    let g = read(&m);
    g.well_formed()?;
    same_lang("optimize", &lang(&g, k, true), &lang(a, k, true))
}
/// a deterministic acyclic acceptor: from state i, each label goes on to a later state with probability p
fn dag(r: &mut R, n: usize, labels: u32, p: f64) -> G<TW> {
    let mut g = G::<TW>::new();
    for _ in 0..n { g.add(); }
    g.start = Some(0);
    for q in 0..n {
        if q + 1 == n || r.gen_bool(0.3) { g.fin[q] = Some(TW::one()); }
        for l in 1..=labels { if q + 1 < n && r.gen_bool(p) { let d = r.gen_range(q + 1..n) as u32; g.trs[q].push(A { i: l, o: l, w: TW::one(), n: d }); } }
    }
    // states in any order
    let mut perm: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() { perm.swap(i, r.gen_range(0..=i)); }
    let mut h = G::<TW>::new();
    for _ in 0..n { h.add(); }
    h.start = Some(perm[0]);
    for q in 0..n { h.fin[perm[q] as usize] = g.fin[q].clone(); h.trs[perm[q] as usize] = g.trs[q].iter().map(|a| A { n: perm[a.n as usize], ..a.clone() }).collect(); }
    h
}
pub fn c10(c: &mut Ctx) {
    c.section("determinize acceptors, exhaustive 3 states, acyclic or unweighted");
    let mut i = 0;
    let step = if c.thorough { 1 } else { 7 };
    enumerate::<BooleanWeight>(2, 3, 2, true, &mut |b| {
        i += 1;
        if i % step != 0 { return true; }
        let g = G::<TW> { start: b.start, fin: b.fin.iter().map(|f| f.as_ref().map(|_| TW::one())).collect(), trs: b.trs.iter().map(|t| t.iter().map(|a| A { i: a.i, o: a.o, w: TW::one(), n: a.n }).collect()).collect() };
        c.case(g.show(), true, || det_acceptor(&g, i, 4))
    });
    c.section("determinize acceptors, random");
    let mut r = c.rng(101);
    for k in 0..c.n(5000, 80000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { acceptor: true, acyclic: k % 2 == 0, eps: 0.1, ..cf(k) }); let a = if k % 2 == 0 { a } else { unweight(&a) }; c.case(a.show(), a.ntrs() > 0, || det_acceptor(&a, k, 6)); }
    c.section("determinize transducers, random finite relations");
    let mut r = c.rng(102);
    for k in 0..c.n(3000, 60000) {
        if !c.go() { return; }
        let t = [DeterminizeType::DeterminizeFunctional, DeterminizeType::DeterminizeNonFunctional, DeterminizeType::DeterminizeDisambiguate][k % 3];
        let rel = relation(&mut r, k % 3 == 0);
        // input epsilons count as ordinary symbols for disambiguation: avoid them there
        let rel = if k % 3 == 2 { rel.into_iter().map(|(i, mut o, w)| { o.truncate(i.len()); (i, o, w) }).collect() } else { rel };
        let g = paths_machine(&rel, &mut r);
        c.case(format!("{:?} {}", t, g.show()), true, || det_transducer(&g, t, k));
    }
    c.section("minimize deterministic acceptors, random");
    let mut r = c.rng(103);
    for k in 0..c.n(6000, 100000) { if !c.go() { return; } let a = dfa(&mut r, &Cfg { eps: 0.0, states: 3 + k % 5, trs: 6 + k % 8, acyclic: k % 2 == 0, nostart: 0.02, ..cf(k) }); let a = if k % 3 == 0 { a } else { unweight(&a) }; c.case(a.show(), a.ntrs() > 0, || mini(&a, k, 5, false)); }
    c.section("minimize deterministic acyclic acceptors, larger");
    for k in 0..c.n(4000, 60000) { if !c.go() { return; } let a = dag(&mut r, 6 + k % 6, 2 + (k % 2) as u32, 0.75); c.case(a.show(), true, || mini(&a, k, 12, false)); }
    c.section("minimize nondeterministic acceptors and transducers, random");
    let mut r = c.rng(104);
    for k in 0..c.n(4000, 60000) {
        if !c.go() { return; }
        let a = gen::<TW>(&mut r, &Cfg { acceptor: true, acyclic: k % 2 == 0, ..cf(k) });
        c.case(a.show(), a.ntrs() > 0, || mini(&a, k, 4, true));
        let a = gen::<TW>(&mut r, &Cfg { acyclic: k % 3 != 0, ..cf(k) });
        c.case(a.show(), a.ntrs() > 0, || mini_trans(&a, k, 4));
    }
    c.section("optimize, random");
    let mut r = c.rng(105);
    for k in 0..c.n(2000, 30000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { acceptor: k % 2 == 0, acyclic: true, ..cf(k) }); c.case(a.show(), a.ntrs() > 0, || opt(&a, k, 5)); }
}

/// distance from the start state, sum over all paths: fixpoint for idempotent semirings, exact on acyclic machines otherwise
fn dist<W: Semiring>(g: &G<W>, from: Option<u32>, idem: bool) -> Vec<W> {
    let mut d = vec![W::zero(); g.n()];
    let s = match from { Some(s) => s, None => return d };
    if idem {
        d[s as usize] = W::one();
        loop {
            let mut ch = false;
            for q in 0..g.n() { for a in &g.trs[q] { let x = pl(&d[a.n as usize], &ti(&d[q], &a.w)); if x != d[a.n as usize] { d[a.n as usize] = x; ch = true; } } }
            if !ch { return d; }
        }
    }
    fn go<W: Semiring>(g: &G<W>, q: u32, w: &W, d: &mut Vec<W>) { d[q as usize] = pl(&d[q as usize], w); for a in &g.trs[q as usize] { go(g, a.n, &ti(w, &a.w), d) } }
    go(g, s, &W::one(), &mut d);
    d
}
fn flip<W: Semiring>(g: &G<W>) -> G<W> { // super state n: backwards distances (commutative semirings)
    let mut h = G::<W>::new();
    for _ in 0..=g.n() { h.add(); }
    let n = g.n() as u32;
    h.start = Some(n);
    for q in 0..g.n() { if let Some(w) = &g.fin[q] { h.tr(n, 0, 0, w.clone(), q as u32) } for a in &g.trs[q] { h.tr(a.n, a.i, a.o, a.w.clone(), q as u32) } }
    h
}
fn cmp_dist<W: Semiring>(what: &str, got: &[W], want: &[W]) -> Res {
    req!(got.len() <= want.len(), "{}: {} distances for {} states", what, got.len(), want.len());
    for q in 0..want.len() { let x = got.get(q).cloned().unwrap_or_else(W::zero); req!(x == want[q], "{}: state {} is at distance {:?}, not {:?}", what, q, want[q], x); }
    Ok(())
}
fn sd<W: GenW>(a: &G<W>, v: usize, idem: bool) -> Res {
    let f = variant(a, v);
    cmp_dist("shortest_distance", &tri!(shortest_distance(&f, false)), &dist(a, a.start, idem))?;
    let h = flip(a);
    let want = dist(&h, h.start, idem);
    cmp_dist("shortest_distance (reverse)", &tri!(shortest_distance(&f, true)), &want[..a.n()])
}
fn apsd<W: GenW + StarSemiring>(a: &G<W>, v: usize, idem: bool) -> Res {
    let f = variant(a, v);
    let d = tri!(all_pairs_shortest_distance(&f));
    req!(d.len() == a.n(), "all_pairs_shortest_distance: {} rows", d.len());
    for q in 0..a.n() { cmp_dist(&format!("all_pairs_shortest_distance from {}", q), &d[q], &dist(a, Some(q as u32), idem))?; }
    Ok(())
}
/// cyclic machines with small weights: series to convergence in f64
fn sd_log(a: &G<PW>, v: usize) -> Res {
    let n = a.n();
    let mut sum = vec![vec![0f64; n]; n];
    for q in 0..n { for t in &a.trs[q] { sum[q][t.n as usize] += *t.w.value() as f64; } }
    for q in 0..n { if sum[q].iter().sum::<f64>() > 0.9 { return Ok(()); } }
    let s = match a.start { Some(s) => s, None => return Ok(()) };
    let mut x = vec![0f64; n];
    x[s as usize] = 1.0;
    let mut want = x.clone();
    for _ in 0..400 { let mut y = vec![0f64; n]; for q in 0..n { for p in 0..n { y[p] += x[q] * sum[q][p]; } } x = y; for q in 0..n { want[q] += x[q]; } }
    let f = variant(a, v);
    let got = tri!(shortest_distance(&f, false));
    for q in 0..n { let g = got.get(q).map(|w| *w.value() as f64).unwrap_or(0.0); req!((g - want[q]).abs() < 1e-3 * (1.0 + want[q]), "shortest_distance (probability): state {} is at {} instead of {}", q, g, want[q]); }
    let mut all = vec![];
    for q0 in 0..n {
        let mut x = vec![0f64; n];
        x[q0] = 1.0;
        let mut w = x.clone();
        for _ in 0..400 { let mut y = vec![0f64; n]; for q in 0..n { for p in 0..n { y[p] += x[q] * sum[q][p]; } } x = y; for q in 0..n { w[q] += x[q]; } }
        all.push(w);
    }
    let got = tri!(all_pairs_shortest_distance(&f));
    for p in 0..n { for q in 0..n { let g = *got[p][q].value() as f64; req!((g - all[p][q]).abs() < 1e-3 * (1.0 + all[p][q]), "all_pairs_shortest_distance (probability): from {} to {} is {} instead of {}", p, q, g, all[p][q]); } }
    let lg = G::<LW> { start: a.start, fin: vec![None; n], trs: a.trs.iter().map(|t| t.iter().map(|b| A { i: b.i, o: b.o, w: LW::new(-b.w.value().ln()), n: b.n }).collect()).collect() };
    let got = tri!(all_pairs_shortest_distance(&variant(&lg, v)));
    for p in 0..n { for q in 0..n { let g = (-(*got[p][q].value() as f64)).exp(); req!((g - all[p][q]).abs() < 1e-3 * (1.0 + all[p][q]), "all_pairs_shortest_distance (log): from {} to {} is {} instead of {}", p, q, g, all[p][q]); } }
    let got = tri!(shortest_distance(&variant(&lg, v), false));
    for q in 0..n { let g = got.get(q).map(|w| (-(*w.value() as f64)).exp()).unwrap_or(0.0); req!((g - want[q]).abs() < 1e-3 * (1.0 + want[q]), "shortest_distance (log): state {} is at {} instead of {}", q, g, want[q]); }
    Ok(())
}
/// weights of the k best walks from start to a final state (each state is expanded at most k times)
fn kbest(g: &G<TW>, k: usize) -> Vec<f32> {
    let mut out = vec![];
    let s = match g.start { Some(s) => s, None => return out };
    let mut heap: Vec<(f32, Option<u32>)> = vec![(0.0, Some(s))];
    let mut cnt = vec![0; g.n()];
    while let Some(p) = (0..heap.len()).min_by(|a, b| heap[*a].0.partial_cmp(&heap[*b].0).unwrap()) {
        let (w, q) = heap.swap_remove(p);
        if w.is_infinite() { break; }
        match q {
            None => { out.push(w); if out.len() == k { break; } }
            Some(q) => {
                cnt[q as usize] += 1;
                if cnt[q as usize] > k { continue; }
                if let Some(f) = &g.fin[q as usize] { heap.push((w + f.value(), None)); }
                for a in &g.trs[q as usize] { heap.push((w + a.w.value(), Some(a.n))); }
            }
        }
    }
    out
}
/// all successful paths of an acyclic machine
fn all_paths(g: &G<TW>) -> Vec<(Vec<u32>, Vec<u32>, f32)> {
    fn go(g: &G<TW>, q: u32, i: &mut Vec<u32>, o: &mut Vec<u32>, w: f32, out: &mut Vec<(Vec<u32>, Vec<u32>, f32)>) {
        if let Some(f) = &g.fin[q as usize] { if !f.value().is_infinite() { out.push((i.clone(), o.clone(), w + f.value())); } }
        for a in &g.trs[q as usize] {
            if a.w.value().is_infinite() { continue; }
            if a.i != 0 { i.push(a.i) } if a.o != 0 { o.push(a.o) }
            go(g, a.n, i, o, w + a.w.value(), out);
            if a.i != 0 { i.pop(); } if a.o != 0 { o.pop(); }
        }
    }
    let mut out = vec![];
    if let Some(s) = g.start { go(g, s, &mut vec![], &mut vec![], 0.0, &mut out) }
    out
}
/// best weight of a path labelled i:o
fn pair_weight(g: &G<TW>, i: &[u32], o: &[u32]) -> f32 {
    let (x, y) = (i.len() + 1, o.len() + 1);
    let mut d = vec![f32::INFINITY; g.n() * x * y];
    let at = |q: usize, a: usize, b: usize| (q * x + a) * y + b;
    let s = match g.start { Some(s) => s as usize, None => return f32::INFINITY };
    d[at(s, 0, 0)] = 0.0;
    loop {
        let mut ch = false;
        for q in 0..g.n() { for t in &g.trs[q] { for a in 0..x { for b in 0..y {
            let w = d[at(q, a, b)] + t.w.value();
            if w.is_infinite() { continue; }
            let na = if t.i == 0 { a } else if a < i.len() && i[a] == t.i { a + 1 } else { continue };
            let nb = if t.o == 0 { b } else if b < o.len() && o[b] == t.o { b + 1 } else { continue };
            let e = &mut d[at(t.n as usize, na, nb)];
            if w < *e { *e = w; ch = true; }
        } } } }
        if !ch { break; }
    }
    (0..g.n()).map(|q| match &g.fin[q] { Some(f) => d[at(q, i.len(), o.len())] + f.value(), None => f32::INFINITY }).fold(f32::INFINITY, f32::min)
}
fn sp(a: &G<TW>, v: usize, n: usize) -> Res {
    let f = variant(a, v);
    let m: VectorFst<TW> = if n == 1 { tri!(shortest_path(&f)) } else { tri!(shortest_path_with_config(&f, ShortestPathConfig::default().with_nshortest(n))) };
    let g = read(&m);
    g.well_formed()?;
    req!(!g.cyclic(), "shortest_path gave a cyclic machine {}", g.show());
    let got = all_paths(&g);
    let want = kbest(a, n);
    let mut gw: Vec<f32> = got.iter().map(|p| p.2).collect();
    gw.sort_by(|x, y| x.partial_cmp(y).unwrap());
    req!(gw == want, "the {} best paths have weights {:?}, not {:?}", n, want, gw);
    for p in &got { req!(pair_weight(a, &p.0, &p.1) <= p.2, "path {:?} is not a path of the input", p); }
    if !a.cyclic() {
        let mut all: BTreeMap<String, i32> = BTreeMap::new();
        for p in all_paths(a) { *all.entry(format!("{:?}", p)).or_default() += 1; }
        for p in &got { let e = all.entry(format!("{:?}", p)).or_default(); *e -= 1; req!(*e >= 0, "path {:?} is not in the input as many times", p); }
    }
    if n == 1 { req!(g.trs.iter().all(|t| t.len() <= 1), "the shortest path {} branches", g.show()); }
    Ok(())
}
fn sp_unique(a: &G<TW>, v: usize, n: usize) -> Res {
    let mut f = variant(a, v);
    if v % 3 == 2 { f.set_properties(rustfst::fst_properties::FstProperties::ACCEPTOR); }
    let m: VectorFst<TW> = tri!(shortest_path_with_config(&f, ShortestPathConfig::default().with_nshortest(n).with_unique(true)));
    let g = read(&m);
    g.well_formed()?;
    let mut want: Vec<f32> = lang(a, 12, true).values().map(|w| *w.value()).collect();
    want.sort_by(|x, y| x.partial_cmp(y).unwrap());
    want.truncate(n);
    let got = all_paths(&g);
    let mut gw: Vec<f32> = got.iter().map(|p| p.2).collect();
    gw.sort_by(|x, y| x.partial_cmp(y).unwrap());
    req!(gw == want, "the {} best strings have weights {:?}, not {:?}", n, want, gw);
    let la = lang(a, 12, true);
    let mut seen = BTreeSet::new();
    for p in &got { req!(seen.insert(p.0.clone()), "string {:?} occurs twice", p.0); req!(la.get(&(p.0.clone(), p.1.clone())).map(|w| *w.value()) == Some(p.2), "string {:?} does not have weight {}", p.0, p.2); }
    Ok(())
}
/// A history of queue operations: 0 enqueue, 1 dequeue, 2 clear, 3 head, 4 update. `key` gives the discipline:
/// None = only the multiset is checked (states may repeat in fifo, lifo and heap queues).
#[derive(Clone, Copy, PartialEq, Debug)]
enum Disc { Fifo, Lifo, Heap, Order, Scc }
fn queue_hist(kind: Disc, n: u32, perm: &[u32], ops: &[(u8, u32)]) -> Res {
    use rustfst::algorithms::queues::*;
    use rustfst::algorithms::Queue;
    let inv: Vec<u32> = { let mut v = vec![0; n as usize]; for (i, p) in perm.iter().enumerate() { v[*p as usize] = i as u32 } v };
    // components for the meta queue: perm[s] / 2, alternately fifo, lifo, state order, trivial (one state only)
    let sccs: Vec<u32> = perm.iter().map(|p| p / 2).collect();
    let qs = |k: u32| -> Box<dyn Queue> { match k % 3 { 0 => Box::<FifoQueue>::default(), 1 => Box::<LifoQueue>::default(), _ => Box::<StateOrderQueue>::default() } };
    let mut q: Box<dyn Queue> = match kind {
        Disc::Fifo => Box::<FifoQueue>::default(),
        Disc::Lifo => Box::<LifoQueue>::default(),
        Disc::Heap => Box::new(NaturalShortestFirstQueue::new(perm.iter().map(|p| TW::new(*p as f32)).collect::<Vec<TW>>())),
        Disc::Order => if perm.iter().enumerate().all(|(i, p)| i as u32 == *p) { Box::<StateOrderQueue>::default() } else { Box::new(TopOrderQueue::from_precomputed_order(perm.to_vec())) },
        Disc::Scc => Box::new(SccQueue::new((0..n / 2 + 1).map(qs).collect(), sccs.clone())),
    };
    let mut m: Vec<u32> = vec![];
    let pick = |m: &Vec<u32>| -> Option<u32> {
        match kind {
            Disc::Fifo => m.first().cloned(),
            Disc::Lifo => m.last().cloned(),
            Disc::Heap => None,
            Disc::Order => m.iter().map(|s| perm[*s as usize]).min().map(|p| inv[p as usize]),
            Disc::Scc => m.iter().map(|s| sccs[*s as usize]).min().map(|c| { let v: Vec<u32> = m.iter().cloned().filter(|s| sccs[*s as usize] == c).collect(); match c % 3 { 0 => v[0], 1 => *v.last().unwrap(), _ => *v.iter().min().unwrap() } }),
        }
    };
    for (o, s) in ops {
        match o {
            0 => { if m.contains(s) { continue; } q.enqueue(*s); m.push(*s) }
            2 => { q.clear(); m.clear() }
            4 => if m.contains(s) { q.update(*s) },
            3 => { let h = q.head(); match kind { Disc::Heap => req!(h.is_some() != m.is_empty() && h.map_or(true, |s| m.contains(&s)), "head {:?} of {:?}", h, m), _ => req!(h == pick(&m), "head {:?}, should be {:?} of {:?}", h, pick(&m), m) } }
            _ => {
                let (h, d) = (q.head(), q.dequeue());
                req!(h == d, "head {:?} but dequeue {:?}", h, d);
                match kind { Disc::Heap => req!(d.is_some() != m.is_empty() && d.map_or(true, |s| m.contains(&s)), "dequeue {:?} of {:?}", d, m), _ => req!(d == pick(&m), "dequeue {:?}, should be {:?} of {:?}", d, pick(&m), m) }
                if let Some(d) = d { m.retain(|x| *x != d) }
            }
        }
        req!(q.is_empty() == m.is_empty(), "is_empty is {} but the queue holds {:?}", q.is_empty(), m);
    }
    let mut left = vec![];
    while let Some(s) = q.dequeue() { left.push(s); req!(left.len() <= m.len(), "more states come out than went in: {:?} of {:?}", left, m) }
    left.sort();
    m.sort();
    req!(left == m, "{:?} comes out, should be {:?}", left, m);
    Ok(())
}
pub fn c11(c: &mut Ctx) {
    c.section("histories of every queue");
    let mut r = c.rng(112);
    for k in 0..c.n(20000, 400000) {
        if !c.go() { return; }
        let n = 1 + (k % 7) as u32;
        let kind = [Disc::Fifo, Disc::Lifo, Disc::Heap, Disc::Order, Disc::Scc][k % 5];
        let mut perm: Vec<u32> = (0..n).collect();
        if k % 3 > 0 { for i in (1..n as usize).rev() { perm.swap(i, r.gen_range(0..=i)); } }
        let ops: Vec<(u8, u32)> = (0..r.gen_range(1..20)).map(|_| ([0u8, 0, 0, 0, 1, 1, 1, 3, 4, if r.gen_bool(0.3) { 2 } else { 1 }][r.gen_range(0..10)], r.gen_range(0..n))).collect();
        c.case(format!("{:?} order {:?} operations {:?}", kind, perm, ops), true, || queue_hist(kind, n, &perm, &ops));
    }
    c.section("shortest distance and path, exhaustive 2 states 3 transitions");
    let mut i = 0;
    let step = if c.thorough { 3 } else { 29 };
    enumerate::<TW>(2, 3, 0, false, &mut |g| { i += 1; if i % step != 0 { return true; } c.case(g.show(), true, || sd(g, i, true).and_then(|_| apsd(g, i, true)).and_then(|_| sp(g, i, 1)).and_then(|_| sp(g, i, 1 + i % 4))) });
    c.section("random, tropical");
    let mut r = c.rng(111);
    for k in 0..c.n(8000, 150000) {
        if !c.go() { return; }
        let a = gen::<TW>(&mut r, &Cfg { states: 3 + k % 5, trs: 5 + k % 9, acyclic: k % 2 == 0, zero: if k % 9 == 0 { 0.1 } else { 0.0 }, ..cf(k) });
        c.case(a.show(), a.ntrs() > 0, || sd(&a, k, true).and_then(|_| apsd(&a, k, true)).and_then(|_| sp(&a, k, 1)).and_then(|_| sp(&a, k, 1 + k % 6)));
    }
    c.section("random, tropical, larger");
    for k in 0..c.n(600, 10000) {
        if !c.go() { return; }
        let a = gen::<TW>(&mut r, &Cfg { states: 20, trs: 50, acyclic: k % 2 == 0, eps: 0.0, fin: 0.15, ..cf(k) });
        c.case(a.show(), a.ntrs() > 0, || sd(&a, k, true));
    }
    c.section("random acyclic, integer (sum over all paths)");
    for k in 0..c.n(5000, 80000) { if !c.go() { return; } let a = gen::<IW>(&mut r, &Cfg { states: 3 + k % 5, trs: 5 + k % 9, acyclic: true, ..cf(k) }); c.case(a.show(), a.ntrs() > 0, || sd(&a, k, false)); }
    c.section("random cyclic, probability and log");
    for k in 0..c.n(5000, 80000) { if !c.go() { return; } let a = gen::<PW>(&mut r, &Cfg { states: 2 + k % 4, trs: 3 + k % 5, ..cf(k) }); c.case(a.show(), a.ntrs() > 0, || sd_log(&a, k)); }
    c.section("n best distinct strings, random acyclic acceptors");
    for k in 0..c.n(3000, 50000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { acceptor: true, acyclic: true, eps: 0.0, ..cf(k) }); c.case(a.show(), a.ntrs() > 0, || sp_unique(&a, k, 2 + k % 4)); }
}

fn rw(a: &G<TW>, v: usize, pot: &[TW]) -> Res {
    let want = lang(a, 4, true);
    for t in [ReweightType::ReweightToInitial, ReweightType::ReweightToFinal] {
        let mut m = variant(a, v);
        tri!(reweight(&mut m, pot, t));
        let g = read(&m);
        g.well_formed()?;
        same_lang(&format!("reweight (to initial: {}) with {:?}", t == ReweightType::ReweightToInitial, pot), &lang(&g, 4, true), &want)?;
    }
    Ok(())
}
fn scaled(l: &Lang<TW>, w: &TW) -> Lang<TW> { l_map(l, |i, o, x| (i.clone(), o.clone(), TW::new(x.value() - w.value()))) }
fn push_w(a: &G<TW>, v: usize) -> Res {
    let want = lang(a, 4, true);
    let h = flip(a);
    let back = dist(&h, h.start, true);
    let fwd = dist(a, a.start, true);
    let total = a.start.map(|s| back[s as usize].clone()).unwrap_or_else(TW::zero);
    for init in [true, false] {
        let t = || if init { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal };
        let mut m = variant(a, v);
        tri!(push_weights(&mut m, t()));
        let g = read(&m);
        g.well_formed()?;
        same_lang(&format!("push_weights (to initial: {})", init), &lang(&g, 4, true), &want)?;
        // the weights are really pushed
        for q in 0..a.n() {
            if back[q].is_zero() || fwd[q].is_zero() { continue; }
            if init {
                if Some(q as u32) == g.start { continue; }
                let m = g.trs[q].iter().map(|x| *x.w.value()).chain(g.fin[q].iter().map(|x| *x.value())).fold(f32::INFINITY, f32::min);
                req!(m == 0.0, "push_weights to initial: the least weight leaving state {} is {} in {}", q, m, g.show());
            } else {
                if Some(q as u32) == a.start { continue; }
                let m = (0..g.n()).flat_map(|p| g.trs[p].iter().filter(move |x| x.n == q as u32)).map(|x| *x.w.value()).fold(f32::INFINITY, f32::min);
                req!(m == 0.0, "push_weights to final: the least weight entering state {} is {} in {}", q, m, g.show());
            }
        }
        let mut m = variant(a, v);
        tri!(push_weights_with_config(&mut m, t(), PushWeightsConfig::default().with_remove_total_weight(true)));
        let w2 = if total.is_zero() { want.clone() } else { scaled(&want, &total) };
        same_lang(&format!("push_weights removing the total weight (to initial: {})", init), &lang(&read(&m), 4, true), &w2)?;
    }
    Ok(())
}
fn push_l(a: &G<TW>, v: usize, pt: PushType, init: bool) -> Res {
    let f = variant(a, v);
    let k = 5;
    let m: VectorFst<TW> = tri!(push(&f, if init { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal }, pt));
    let g = read(&m);
    g.well_formed()?;
    let mut want = lang(a, k, true);
    if pt.contains(PushType::REMOVE_TOTAL_WEIGHT) && pt.intersects(PushType::PUSH_WEIGHTS) {
        let h = flip(a);
        let total = a.start.map(|s| dist(&h, h.start, true)[s as usize].clone()).unwrap_or_else(TW::zero);
        if !total.is_zero() { want = scaled(&want, &total); }
    }
    if pt.contains(PushType::REMOVE_COMMON_AFFIX | PushType::PUSH_LABELS) && a.cyclic() { return Ok(()); }
    if pt.contains(PushType::REMOVE_COMMON_AFFIX | PushType::PUSH_LABELS) && !want.is_empty() {
        let full = lang(a, 30, true);
        let outs: Vec<Vec<u32>> = full.keys().map(|x| if init { x.1.clone() } else { let mut o = x.1.clone(); o.reverse(); o }).collect();
        let mut n = outs[0].len();
        for o in &outs { n = n.min(o.iter().zip(&outs[0]).take_while(|(x, y)| x == y).count()); }
        let strip = |o: &Vec<u32>| if init { o[n..].to_vec() } else { o[..o.len() - n].to_vec() };
        let mut base = full;
        if pt.contains(PushType::REMOVE_TOTAL_WEIGHT) && pt.intersects(PushType::PUSH_WEIGHTS) { let t = base.values().fold(TW::zero(), |m, w| pl(&m, w)); base = scaled(&base, &t); }
        let want = l_map(&base, |i, o, w| (i.clone(), strip(o), w.clone()));
        return same_lang(&format!("push {:?} (to initial: {})", pt, init), &lang(&g, 30, true), &want);
    }
    same_lang(&format!("push {:?} (to initial: {})", pt, init), &lang(&g, k, true), &want)
}
/// what the successful paths of an acyclic machine read and weigh, step by step (steps that read and weigh nothing left out)
fn steps(g: &G<TW>) -> Vec<Vec<(u32, u32)>> {
    fn go(g: &G<TW>, q: u32, p: &mut Vec<(u32, u32)>, out: &mut Vec<Vec<(u32, u32)>>) {
        if out.len() > 3000 { return; }
        if let Some(f) = &g.fin[q as usize] { if !f.is_zero() { let mut x = p.clone(); if !f.is_one() { x.push((0, f.value().to_bits())) } out.push(x); } }
        for a in &g.trs[q as usize] { if a.w.is_zero() { continue; } let e = a.i == 0 && a.w.is_one(); if !e { p.push((a.i, a.w.value().to_bits())); } go(g, a.n, p, out); if !e { p.pop(); } }
    }
    let mut o = vec![];
    if let Some(s) = g.start { go(g, s, &mut vec![], &mut o); }
    o.sort();
    o
}
/// label pushing alone leaves the weights where they are
fn push_keeps_weights(a: &G<TW>, v: usize, init: bool) -> Res {
    let want = steps(a);
    if want.len() > 2000 { return Ok(()); }
    let m: VectorFst<TW> = tri!(push(&variant(a, v), if init { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal }, PushType::PUSH_LABELS));
    let got = steps(&read(&m));
    req!(got == want, "push of the labels (to initial: {}) moved weights: {}", init, read(&m).show());
    Ok(())
}
/// on an input-deterministic acyclic machine: after every input prefix, exactly what all its continuations have in common has been emitted
fn push_prefix(a: &G<TW>, v: usize, weights: bool) -> Res {
    let l = lang(a, 30, true);
    if l.is_empty() { return Ok(()); }
    let pt = if weights { PushType::PUSH_LABELS | PushType::PUSH_WEIGHTS } else { PushType::PUSH_LABELS };
    let m: VectorFst<TW> = tri!(push(&variant(a, v), ReweightType::ReweightToInitial, pt));
    let g = read(&m);
    same_lang("push (prefixes)", &lang(&g, 30, true), &l)?;
    for (x, _, _) in l.iter().map(|((i, o), w)| (i.clone(), o, w)) {
        let mut due = 0;
        for n in 1..=x.len() {
            let pre = &x[..n];
            let ext: Vec<(&Vec<u32>, f32)> = l.iter().filter(|((i, _), _)| i.starts_with(pre)).map(|((_, o), w)| (o, *w.value())).collect();
            let mut c = ext[0].0.len();
            for (o, _) in &ext { c = c.min(o.iter().zip(ext[0].0.iter()).take_while(|(p, q)| p == q).count()); }
            let wmin = ext.iter().map(|e| e.1).fold(f32::INFINITY, f32::min);
            // the longest output emitted once pre has been read, before anything else is read
            let (mut best, mut bw): (Option<Vec<u32>>, f32) = (None, 0.0);
            let mut todo = vec![(g.start.unwrap(), 0usize, Vec::<u32>::new(), 0.0f32)];
            while let Some((q, j, o, w)) = todo.pop() {
                if j == n && best.as_ref().map(|b| o.len() >= b.len()).unwrap_or(true) { best = Some(o.clone()); bw = w; }
                for t in &g.trs[q as usize] {
                    let j2 = if t.i == 0 { j } else if j < n && t.i == pre[j] { j + 1 } else { continue };
                    let mut o2 = o.clone(); if t.o != 0 { o2.push(t.o); }
                    todo.push((t.n, j2, o2, w + t.w.value()));
                }
            }
            // a final state may emit what is left of its own string
            // (a transition carries one output label, so what is due is emitted one label per input label)
            due = c.min(due + 1);
            let c = due;
            let got = best.unwrap_or_default();
            req!(got.len() >= c && got[..c] == ext[0].0[..c], "after {:?} the pushed machine has emitted {:?}, all continuations share {:?}: {}", pre, got, &ext[0].0[..c], g.show());
            if weights && !l.keys().any(|(i, _)| i[..] == pre[..]) { req!(bw == wmin, "after {:?} the pushed machine weighs {}, the least continuation {}: {}", pre, bw, wmin, g.show()); }
        }
    }
    Ok(())
}
pub fn c17(c: &mut Ctx) {
    c.section("reweight by arbitrary potentials, random");
    let mut r = c.rng(171);
    for k in 0..c.n(5000, 80000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { acyclic: k % 2 == 0, ..cf(k) }); let n = a.n(); let pot: Vec<TW> = (0..n).map(|_| TW::new(r.gen_range(-3..6) as f32)).collect(); c.case(format!("{} {:?}", a.show(), pot), a.ntrs() > 0, || rw(&a, k, &pot)); }
    c.section("push_weights, exhaustive 2 states 2 transitions");
    let mut i = 0;
    enumerate::<TW>(2, 2, 1, false, &mut |g| { i += 1; if i % 5 != 0 { return true; } c.case(g.show(), true, || push_w(g, i)) });
    c.section("push_weights, random");
    for k in 0..c.n(5000, 80000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { acyclic: k % 2 == 0, ..cf(k) }); c.case(a.show(), a.ntrs() > 0, || push_w(&a, k)); }
    c.section("push weights and labels, random");
    for k in 0..c.n(4000, 60000) {
        if !c.go() { return; }
        let a = gen::<TW>(&mut r, &Cfg { states: 4, trs: 5, acyclic: k % 3 != 0, eps: 0.2, nostart: 0.0, ..cf(k) });
        if a.start.is_none() { continue; }
        let pt = [PushType::PUSH_WEIGHTS, PushType::PUSH_LABELS, PushType::PUSH_WEIGHTS | PushType::PUSH_LABELS, PushType::PUSH_WEIGHTS | PushType::REMOVE_TOTAL_WEIGHT, PushType::PUSH_LABELS | PushType::REMOVE_COMMON_AFFIX, PushType::PUSH_WEIGHTS | PushType::PUSH_LABELS | PushType::REMOVE_TOTAL_WEIGHT | PushType::REMOVE_COMMON_AFFIX, PushType::empty(), PushType::PUSH_WEIGHTS | PushType::PUSH_LABELS | PushType::REMOVE_TOTAL_WEIGHT, PushType::PUSH_WEIGHTS | PushType::PUSH_LABELS | PushType::REMOVE_COMMON_AFFIX][k % 9];
        c.case(format!("{:?} initial {} {}", pt, k % 2 == 0, a.show()), a.ntrs() > 0, || push_l(&a, k, pt, k % 2 == 0));
    }
    c.section("push labels alone, random acyclic");
    for k in 0..c.n(2500, 40000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { states: 4, trs: 6, acyclic: true, nostart: 0.0, zero: 0.0, ..cf(k) }); if a.start.is_none() { continue; } c.case(a.show(), a.ntrs() > 0, || push_keeps_weights(&a, k, k % 2 == 0)); }
    c.section("push labels to initial, deterministic acyclic");
    for k in 0..c.n(2500, 40000) { if !c.go() { return; } let mut a = dag(&mut r, 3 + k % 4, 2, 0.8); for t in a.trs.iter_mut().flatten() { t.o = [0, 1, 1, 2][r.gen_range(0..4)]; t.w = TW::new(r.gen_range(0..4) as f32); } c.case(a.show(), a.ntrs() > 0, || push_prefix(&a, k, k % 2 == 0)); }
}
