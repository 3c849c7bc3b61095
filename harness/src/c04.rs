//! C04 union, concatenation, closure; C05 inversion, projection, reversal; C06 connect, sorts, condensation; C07 transition sorts and merges; C08 epsilon removal.
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::algorithms::closure::{closure, ClosureFst, ClosureType};
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::rm_epsilon::{rm_epsilon, RmEpsilonFst};
use rustfst::algorithms::union::{union, UnionFst};
use rustfst::algorithms::*;
use rustfst::prelude::*;

fn cfg(k: usize) -> Cfg { Cfg { states: 3 + k % 3, trs: 4 + k % 5, acyclic: k % 2 == 0, acceptor: k % 7 == 0, nostart: 0.06, labels: 2 + (k % 2) as u32, eps: [0.0, 0.2, 0.5][k % 3], zero: if k % 11 == 0 { 0.1 } else { 0.0 }, ..Default::default() } }
fn lz<W: Semiring, F: Fst<W>>(f: &F, k: usize, idem: bool) -> Result<Lang<W>, String> { let g = expand(f, 3000)?; g.well_formed()?; Ok(lang(&g, k, idem)) }
fn st<W: Semiring, F: ExpandedFst<W>>(f: &F, k: usize, idem: bool) -> Result<Lang<W>, String> { let g = read(f); g.well_formed()?; Ok(lang(&g, k, idem)) }

fn rational<W: GenW>(a: &G<W>, b: &G<W>, v: usize, k: usize, idem: bool) -> Res {
    let (la, lb) = (lang(a, k, idem), lang(b, k, idem));
    let (fa, fb) = (variant(a, v), variant(b, v / 3));
    let want = l_union(&la, &lb);
    let mut u = fa.clone();
    tri!(union(&mut u, &fb));
    same_lang("union", &st(&u, k, idem)?, &want)?;
    let cst: ConstFst<W> = fb.clone().into();
    let mut u2 = fa.clone();
    tri!(union(&mut u2, &cst));
    same_lang("union with a ConstFst", &st(&u2, k, idem)?, &want)?;
    let lu = tri!(UnionFst::<W, VectorFst<W>>::new(fa.clone(), fb.clone()));
    same_lang("UnionFst", &lz(&lu, k, idem)?, &want)?;
    let ec: VectorFst<W> = tri!(lu.compute());
    same_lang("UnionFst::compute", &st(&ec, k, idem)?, &want)?;
    let want = l_concat(&la, &lb, k);
    let mut u = fa.clone();
    tri!(concat(&mut u, &fb));
    same_lang("concat", &st(&u, k, idem)?, &want)?;
    let lc = tri!(ConcatFst::<W, VectorFst<W>>::new(fa.clone(), fb.clone()));
    same_lang("ConcatFst", &lz(&lc, k, idem)?, &want)?;
    let ec: VectorFst<W> = tri!(lc.compute());
    same_lang("ConcatFst::compute", &st(&ec, k, idem)?, &want)?;
    req!(read(&fb) == *b, "the second operand was modified");
    Ok(())
}
fn clos(a: &G<TW>, v: usize, k: usize) -> Res {
    let fa = variant(a, v);
    let plus = l_plus(&lang(a, k, true), k);
    let star = l_union(&plus, &l_eps());
    for (t, want) in [(ClosureType::ClosurePlus, &plus), (ClosureType::ClosureStar, &star)] {
        let mut m = fa.clone();
        let d = format!("{:?}", matches!(t, ClosureType::ClosureStar));
        let t2 = if matches!(t, ClosureType::ClosureStar) { ClosureType::ClosureStar } else { ClosureType::ClosurePlus };
        closure(&mut m, t);
        same_lang(&format!("closure (star: {})", d), &st(&m, k, true)?, want)?;
        let l = tri!(ClosureFst::<TW, VectorFst<TW>>::new(fa.clone(), t2));
        same_lang(&format!("ClosureFst (star: {})", d), &lz(&l, k, true)?, want)?;
        let m: VectorFst<TW> = tri!(l.compute());
        same_lang(&format!("ClosureFst::compute (star: {})", d), &st(&m, k, true)?, want)?;
    }
    Ok(())
}
pub fn c04(c: &mut Ctx) {
    c.section("union and concat, exhaustive pairs of machines with 2 states and 1 transition");
    let mut small = vec![];
    enumerate::<TW>(2, 1, 1, false, &mut |g| { small.push(g.clone()); true });
    let step = if c.thorough { 1 } else { 7 };
    for (x, a) in small.iter().enumerate() { for (y, b) in small.iter().enumerate() { if (x + y) % step != 0 { continue; } if !c.go() { return; } c.case(format!("{} / {}", a.show(), b.show()), true, || rational(a, b, x + y, 3, true)); } }
    c.section("union and concat, random, tropical");
    let mut r = c.rng(41);
    for k in 0..c.n(4000, 80000) { if !c.go() { return; } let (a, b) = (gen::<TW>(&mut r, &cfg(k)), gen::<TW>(&mut r, &cfg(k / 2))); c.case(format!("{} / {}", a.show(), b.show()), a.ntrs() + b.ntrs() > 0, || rational(&a, &b, k, 4, true)); }
    c.section("union and concat, random acyclic, integer (non-idempotent)");
    let mut r = c.rng(42);
    for k in 0..c.n(3000, 60000) { if !c.go() { return; } let cf = Cfg { acyclic: true, ..cfg(k) }; let (a, b) = (gen::<IW>(&mut r, &cf), gen::<IW>(&mut r, &cf)); c.case(format!("{} / {}", a.show(), b.show()), a.ntrs() + b.ntrs() > 0, || rational(&a, &b, k, 12, false)); }
    c.section("closure, exhaustive 2 states 2 transitions");
    let mut i = 0;
    enumerate::<TW>(2, 2, 1, false, &mut |g| { i += 1; if i % 5 != 0 { return true; } c.case(g.show(), true, || clos(g, i, 3)) });
    c.section("closure, random");
    let mut r = c.rng(43);
    for k in 0..c.n(3000, 60000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &cfg(k)); c.case(a.show(), a.ntrs() > 0, || clos(&a, k, 4)); }
}

fn inv(a: &G<TW>, v: usize) -> Res {
    let f = variant(a, v);
    let map = |w: fn(&A<TW>) -> A<TW>| G { start: a.start, fin: a.fin.clone(), trs: a.trs.iter().map(|t| t.iter().map(w).collect()).collect() };
    let mut m = f.clone(); invert(&mut m);
    req!(read(&m) == map(|x| A { i: x.o, o: x.i, ..x.clone() }), "invert gave {}", read(&m).show());
    let mut m2 = m.clone(); invert(&mut m2);
    req!(read(&m2) == *a, "invert twice gave {}", read(&m2).show());
    let mut m = f.clone(); project(&mut m, ProjectType::ProjectInput);
    req!(read(&m) == map(|x| A { o: x.i, ..x.clone() }), "project input gave {}", read(&m).show());
    let mut m = f.clone(); project(&mut m, ProjectType::ProjectOutput);
    req!(read(&m) == map(|x| A { i: x.o, ..x.clone() }), "project output gave {}", read(&m).show());
    for q in 0..a.n() as u32 {
        req!(tri!(m.num_input_epsilons(q)) == read(&m).trs[q as usize].iter().filter(|x| x.i == 0).count() && tri!(m.num_output_epsilons(q)) == read(&m).trs[q as usize].iter().filter(|x| x.o == 0).count(), "project output leaves wrong epsilon counts at state {}", q);
    }
    Ok(())
}
fn rev<W: GenW>(a: &G<W>, v: usize, k: usize, idem: bool) -> Res {
    let f = variant(a, v);
    let m: VectorFst<W::ReverseWeight> = tri!(reverse(&f));
    let la = if idem { lang(a, k, true) } else { lang_paths(a) };
    let want: Lang<W::ReverseWeight> = l_map(&la, |i, o, w| { let (mut i, mut o) = (i.clone(), o.clone()); i.reverse(); o.reverse(); (i, o, w.reverse().unwrap()) });
    let lg = |f: &VectorFst<W::ReverseWeight>| -> Result<Lang<W::ReverseWeight>, String> { if idem { st(f, k, true) } else { let g = read(f); g.well_formed()?; Ok(lang_paths(&g)) } };
    same_lang("reverse", &lg(&m)?, &want)?;
    req!(read(&f) == *a, "reverse modified its argument");
    let c: ConstFst<W> = f.clone().into();
    let m: VectorFst<W::ReverseWeight> = tri!(reverse(&c));
    same_lang("reverse of a ConstFst", &lg(&m)?, &want)?;
    for q in 0..m.num_states() as u32 { let t = read(&m); req!(tri!(m.num_input_epsilons(q)) == t.trs[q as usize].iter().filter(|x| x.i == 0).count(), "reverse leaves a wrong epsilon count at state {}", q); }
    Ok(())
}
impl GenW for StringWeightLeft {
    fn gen(r: &mut R) -> Self { let n = r.gen_range(0..3); StringWeightLeft::from((0..n).map(|_| r.gen_range(1..3)).collect::<Vec<u32>>()) }
    fn small() -> Vec<Self> { vec![Self::one(), StringWeightLeft::from(vec![1u32]), StringWeightLeft::from(vec![1u32, 2])] }
}
pub fn c05(c: &mut Ctx) {
    c.section("invert and project, exhaustive 2 states 2 transitions");
    let mut i = 0;
    enumerate::<TW>(2, 2, 1, false, &mut |g| { i += 1; if i % 3 != 0 { return true; } c.case(g.show(), true, || inv(g, i)) });
    c.section("invert and project, random");
    let mut r = c.rng(51);
    for k in 0..c.n(5000, 80000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { states: 8, trs: 20, ..cfg(k) }); c.case(a.show(), a.ntrs() > 0, || inv(&a, k)); }
    c.section("reverse, exhaustive 2 states 2 transitions");
    let mut i = 0;
    enumerate::<TW>(2, 2, 1, false, &mut |g| { i += 1; if i % 3 != 0 { return true; } c.case(g.show(), true, || rev(g, i, 3, true)) });
    c.section("reverse, random, tropical");
    let mut r = c.rng(52);
    for k in 0..c.n(5000, 80000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &cfg(k)); c.case(a.show(), a.ntrs() > 0, || rev(&a, k, 4, true)); }
    c.section("reverse, random acyclic, integer and left-string (non-commutative)");
    for k in 0..c.n(5000, 80000) { if !c.go() { return; } let cf = Cfg { acyclic: true, ..cfg(k) }; let a = gen::<IW>(&mut r, &cf); c.case(a.show(), a.ntrs() > 0, || rev(&a, k, 12, false)); let a = gen::<StringWeightLeft>(&mut r, &cf); c.case(a.show(), a.ntrs() > 0, || rev(&a, k, 12, false)); }
}

fn conn(a: &G<TW>, v: usize) -> Res {
    let f = variant(a, v);
    let mut m = f.clone();
    tri!(connect(&mut m));
    let (x, y) = (a.accessible(), a.coaccessible());
    let keep: Vec<bool> = (0..a.n()).map(|q| x[q] && y[q]).collect();
    let want = restrict(a, &keep);
    let got = read(&m);
    req!(got == want, "connect gave {} instead of {}", got.show(), want.show());
    Ok(())
}
fn sorts(a: &G<TW>, v: usize, r: &mut R) -> Res {
    let f = variant(a, v);
    let n = a.n();
    let mut perm: Vec<u32> = (0..n as u32).collect();
    for i in (1..n).rev() { perm.swap(i, r.gen_range(0..=i)); }
    let mut m = f.clone();
    tri!(state_sort(&mut m, &perm));
    req!(read(&m) == permute(a, &perm), "state_sort by {:?} gave {}", perm, read(&m).show());
    let mut m = f.clone();
    tri!(top_sort(&mut m));
    let got = read(&m);
    got.well_formed()?;
    if a.cyclic() { req!(got == *a, "top_sort changed a cyclic machine to {}", got.show()); } else {
        req!((0..got.n()).all(|q| got.trs[q].iter().all(|t| t.n as usize > q)), "top_sort gave {}, which is not in topological order", got.show());
        req!(isomorphic_g(a, &got), "top_sort gave {}, which is not a renumbering", got.show());
    }
    let mut wrong = perm.clone(); wrong.push(0);
    let mut m = f.clone();
    req!(state_sort(&mut m, &wrong).is_err() && read(&m) == *a, "state_sort with an order of the wrong size");
    Ok(())
}
fn cond(a: &G<TW>, v: usize) -> Res {
    let f = variant(a, v);
    let (scc, m): (Vec<i32>, VectorFst<TW>) = tri!(condense(&f));
    let got = read(&m);
    got.well_formed()?;
    let rp = a.reach_plus();
    req!(scc.len() == a.n(), "condense returned {} component numbers for {} states", scc.len(), a.n());
    let nc = scc.iter().map(|x| *x + 1).max().unwrap_or(0) as usize;
    req!(got.n() == nc, "condense: {} states for {} components", got.n(), nc);
    for p in 0..a.n() { for q in 0..a.n() {
        let same = p == q || (rp[p][q] && rp[q][p]);
        req!((scc[p] == scc[q]) == same, "condense: components of states {} and {} are {} and {}", p, q, scc[p], scc[q]);
    } }
    let mut want = G::<TW>::new();
    for _ in 0..nc { want.add(); }
    want.start = a.start.map(|s| scc[s as usize] as u32);
    for q in 0..a.n() {
        let cq = scc[q] as usize;
        if let Some(w) = &a.fin[q] { want.fin[cq] = Some(match &want.fin[cq] { Some(v) => pl(v, w), None => w.clone() }); }
        for t in &a.trs[q] { let nt = scc[t.n as usize] as u32; if nt as usize != cq { want.trs[cq].push(A { n: nt, ..t.clone() }) } }
    }
    req!(got.start == want.start && got.fin == want.fin && (0..nc).all(|q| multiset(&got.trs[q]) == multiset(&want.trs[q])), "condense gave {} instead of {}", got.show(), want.show());
    req!(!got.cyclic(), "the condensation {} is cyclic", got.show());
    Ok(())
}
pub fn c06(c: &mut Ctx) {
    c.section("exhaustive 3 states 2 transitions");
    let mut i = 0;
    let mut r = c.rng(61);
    let step = if c.thorough { 2 } else { 37 };
    enumerate::<BooleanWeight>(3, 3, 0, false, &mut |b| {
        i += 1;
        if i % step != 0 { return true; }
        let g = G::<TW> { start: b.start, fin: b.fin.iter().map(|f| f.as_ref().map(|_| TW::new(1.0))).collect(), trs: b.trs.iter().map(|t| t.iter().map(|a| A { i: 1, o: 1, w: TW::new(0.5), n: a.n }).collect()).collect() };
        c.case(g.show(), true, || conn(&g, i).and_then(|_| sorts(&g, i, &mut r)).and_then(|_| cond(&g, i)))
    });
    c.section("random");
    let mut r = c.rng(62);
    for k in 0..c.n(12000, 200000) {
        if !c.go() { return; }
        let a = gen::<TW>(&mut r, &Cfg { states: 4 + k % 5, trs: 4 + k % 11, nostart: 0.1, fin: 0.3, ..cfg(k) });
        let mut r2 = r.clone();
        c.case(a.show(), a.ntrs() > 0, || conn(&a, k).and_then(|_| sorts(&a, k, &mut r2)).and_then(|_| cond(&a, k)));
        let _: u32 = r.gen();
    }
    c.section("random, large and sparse");
    let mut r = c.rng(63);
    for k in 0..c.n(300, 5000) {
        if !c.go() { return; }
        let a = gen::<TW>(&mut r, &Cfg { states: 60, trs: 90, nostart: 0.02, fin: 0.1, acyclic: k % 2 == 0, ..cfg(k) });
        c.case(a.show(), a.ntrs() > 0, || conn(&a, k).and_then(|_| cond(&a, k)));
    }
}

fn trs_alg<W: GenW>(a: &G<W>, v: usize) -> Res {
    let f = variant(a, v);
    let same_rest = |m: &G<W>| m.start == a.start && m.fin == a.fin && m.n() == a.n();
    let eps = |what: &str, m: &VectorFst<W>| -> Res { let g = read(m); for q in 0..g.n() { req!(tri!(m.num_input_epsilons(q as u32)) == g.trs[q].iter().filter(|x| x.i == 0).count() && tri!(m.num_output_epsilons(q as u32)) == g.trs[q].iter().filter(|x| x.o == 0).count(), "{}: wrong epsilon counts at state {}", what, q); } Ok(()) };
    let mut m = f.clone(); tr_sort(&mut m, ILabelCompare {});
    let g = read(&m);
    req!(same_rest(&g) && (0..a.n()).all(|q| multiset(&g.trs[q]) == multiset(&a.trs[q]) && g.trs[q].windows(2).all(|w| w[0].i <= w[1].i)), "tr_sort by input gave {}", g.show());
    eps("tr_sort", &m)?;
    let mut m = f.clone(); tr_sort(&mut m, OLabelCompare {});
    let g = read(&m);
    req!(same_rest(&g) && (0..a.n()).all(|q| multiset(&g.trs[q]) == multiset(&a.trs[q]) && g.trs[q].windows(2).all(|w| w[0].o <= w[1].o)), "tr_sort by output gave {}", g.show());
    let mut m = f.clone(); tr_unique(&mut m);
    let g = read(&m);
    req!(same_rest(&g) && (0..a.n()).all(|q| { let mut w = multiset(&a.trs[q]); w.dedup(); multiset(&g.trs[q]) == w }), "tr_unique gave {}", g.show());
    eps("tr_unique", &m)?;
    let mut m = f.clone(); tr_sum(&mut m);
    let g = read(&m);
    req!(same_rest(&g), "tr_sum gave {}", g.show());
    eps("tr_sum", &m)?;
    for q in 0..a.n() {
        let mut want: std::collections::BTreeMap<(u32, u32, u32), W> = Default::default();
        for t in &a.trs[q] { let e = want.entry((t.i, t.o, t.n)).or_insert_with(W::zero); *e = pl(e, &t.w); }
        let mut wl: Vec<A<W>> = want.into_iter().map(|((i, o, n), w)| A { i, o, w, n }).collect();
        let w = { wl.sort_by_key(|x| key(x)); multiset(&wl) };
        req!(multiset(&g.trs[q]) == w, "tr_sum at state {} gave {}", q, g.show());
    }
    Ok(())
}
pub fn c07(c: &mut Ctx) {
    let few = Cfg { states: 3, trs: 14, labels: 2, eps: 0.25, ..Default::default() };
    c.section("random, tropical");
    let mut r = c.rng(71);
    for k in 0..c.n(12000, 300000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { states: 1 + k % 4, acceptor: k % 5 == 0, zero: if k % 6 == 0 { 0.15 } else { 0.0 }, ..few.clone() }); c.case(a.show(), a.ntrs() > 0, || trs_alg(&a, k)); }
    c.section("random, integer");
    for k in 0..c.n(6000, 100000) { if !c.go() { return; } let a = gen::<IW>(&mut r, &Cfg { states: 1 + k % 4, ..few.clone() }); c.case(a.show(), a.ntrs() > 0, || trs_alg(&a, k)); }
    c.section("random, many transitions per state");
    for k in 0..c.n(500, 10000) { if !c.go() { return; } let a = gen::<IW>(&mut r, &Cfg { states: 2, trs: 120, labels: 5, ..few.clone() }); c.case(a.show(), true, || trs_alg(&a, k)); }
}

fn noeps<W: Semiring>(what: &str, g: &G<W>) -> Res { req!(g.trs.iter().flatten().all(|t| t.i != 0 || t.o != 0), "{}: the result {} has epsilon transitions", what, g.show()); Ok(()) }
fn rmeps<W: GenW>(a: &G<W>, v: usize, k: usize, idem: bool) -> Res {
    let f = variant(a, v);
    let want = lang(a, k, idem);
    let mut m = f.clone();
    tri!(rm_epsilon(&mut m));
    if a.start.is_some() { noeps("rm_epsilon", &read(&m))?; }
    same_lang("rm_epsilon", &st(&m, k, idem)?, &want)?;
    let l = tri!(RmEpsilonFst::<W, VectorFst<W>, _>::new(f.clone()));
    let g = expand(&l, 2000)?;
    noeps("RmEpsilonFst", &g)?;
    same_lang("RmEpsilonFst", &lang(&g, k, idem), &want)?;
    let m: VectorFst<W> = tri!(l.compute());
    same_lang("RmEpsilonFst::compute", &st(&m, k, idem)?, &want)?;
    Ok(())
}
fn finals<W: GenW>(a: &G<W>, v: usize, k: usize, idem: bool) -> Res {
    let f = variant(a, v);
    let want = lang(a, k, idem);
    let mut m = f.clone();
    tri!(rm_final_epsilon(&mut m));
    same_lang("rm_final_epsilon", &st(&m, k, idem)?, &want)?;
    let mut m = f.clone();
    add_super_final_state(&mut m);
    same_lang("add_super_final_state", &st(&m, k, idem)?, &want)?;
    let g = read(&m);
    req!((0..g.n()).filter(|q| g.is_fin(*q)).count() <= 1, "add_super_final_state leaves several final states: {}", g.show());
    Ok(())
}
pub fn c08(c: &mut Ctx) {
    c.section("exhaustive 2 states 2 transitions, tropical");
    let mut i = 0;
    enumerate::<TW>(2, 2, 1, false, &mut |g| { i += 1; if i % 3 != 0 { return true; } c.case(g.show(), true, || rmeps(g, i, 3, true).and_then(|_| finals(g, i, 3, true))) });
    c.section("random, tropical, many epsilons");
    let mut r = c.rng(81);
    for k in 0..c.n(6000, 100000) { if !c.go() { return; } let a = gen::<TW>(&mut r, &Cfg { states: 3 + k % 4, trs: 5 + k % 6, eps: 0.6, nostart: 0.03, ..cfg(k) }); c.case(a.show(), a.ntrs() > 0, || rmeps(&a, k, 4, true).and_then(|_| finals(&a, k, 4, true))); }
    c.section("random acyclic, integer (non-idempotent)");
    for k in 0..c.n(6000, 100000) { if !c.go() { return; } let a = gen::<IW>(&mut r, &Cfg { states: 3 + k % 4, trs: 5 + k % 6, eps: 0.6, acyclic: true, nostart: 0.03, ..cfg(k) }); c.case(a.show(), a.ntrs() > 0, || rmeps(&a, k, 12, false).and_then(|_| finals(&a, k, 12, false))); }
}
