//! C18: linear machines and path enumeration.
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::prelude::*;
use rustfst::utils::{acceptor, decode_linear_fst, epsilon_machine, transducer};
use rustfst::{check_path_in_fst, FstPath, StringPath};
use std::sync::Arc;

type P<W> = (Vec<u32>, Vec<u32>, W);
/// every successful path by depth first search (acyclic machines), with its number of transitions
fn paths<W: Semiring>(g: &G<W>) -> Vec<(usize, P<W>)> {
    fn go<W: Semiring>(g: &G<W>, q: u32, d: usize, p: &P<W>, out: &mut Vec<(usize, P<W>)>) {
        if let Some(f) = &g.fin[q as usize] { out.push((d, (p.0.clone(), p.1.clone(), ti(&p.2, f)))); }
        for a in &g.trs[q as usize] {
            let mut n = (p.0.clone(), p.1.clone(), ti(&p.2, &a.w));
            if a.i != 0 { n.0.push(a.i) }
            if a.o != 0 { n.1.push(a.o) }
            go(g, a.n, d + 1, &n, out);
        }
    }
    let mut out = vec![];
    if let Some(s) = g.start { go(g, s, 0, &(vec![], vec![], W::one()), &mut out) }
    out
}
fn keyp<W: Semiring>(p: &P<W>) -> String { format!("{:?}", p) }
fn pof<W: Semiring>(p: &FstPath<W>) -> P<W> { (p.ilabels.clone(), p.olabels.clone(), p.weight.clone()) }

fn lin<W: GenW>(c: &mut Ctx, tag: u64, n: usize) {
    let mut r = c.rng(tag);
    for _ in 0..n {
        if !c.go() { return; }
        let mk = |r: &mut R| -> Vec<u32> { let l = r.gen_range(0..6); (0..l).map(|_| [0, 1, 2, 3, 70_000, u32::MAX - 1][{ let m = if r.gen_bool(0.9) { 4 } else { 6 }; r.gen_range(0..m) }]).collect() };
        let (i, o) = (mk(&mut r), mk(&mut r));
        let w = W::gen(&mut r);
        c.case(format!("transducer({:?}, {:?}, {:?})", i, o, w), !i.is_empty(), || {
            let f: VectorFst<W> = transducer(&i, &o, w.clone());
            let g = read(&f);
            let m = i.len().max(o.len());
            req!(g.n() == m + 1 && g.start == Some(0), "{} states, start {:?}", g.n(), g.start);
            for q in 0..=m {
                req!(g.fin[q] == if q == m { Some(w.clone()) } else { None }, "final weight of state {} is {:?}", q, g.fin[q]);
                let want: Vec<A<W>> = if q < m { vec![A { i: i.get(q).copied().unwrap_or(0), o: o.get(q).copied().unwrap_or(0), w: W::one(), n: q as u32 + 1 }] } else { vec![] };
                req!(g.trs[q] == want, "transitions of state {} are {:?}", q, g.trs[q]);
            }
            let p = tri!(decode_linear_fst(&f));
            let ne = |v: &Vec<u32>| v.iter().copied().filter(|l| *l != 0).collect::<Vec<_>>();
            req!(pof(&p) == (ne(&i), ne(&o), w.clone()), "decode_linear_fst gives {:?}", p);
            req!(check_path_in_fst(&f, &p), "check_path_in_fst does not find {:?}", p);
            let b: VectorFst<W> = acceptor(&i, w.clone());
            let t: VectorFst<W> = transducer(&i, &i, w.clone());
            req!(read(&b) == read(&t) && b == t, "acceptor(l) differs from transducer(l, l)");
            let mut q = p.clone();
            let more = FstPath::new(vec![9], vec![], W::one());
            tri!(q.concat(more));
            req!(q.ilabels.len() == p.ilabels.len() + 1 && q.olabels == p.olabels, "concat gives {:?}", q);
            req!(!check_path_in_fst(&f, &q), "check_path_in_fst finds {:?}", q);
            Ok(())
        });
    }
    c.case("epsilon_machine".into(), false, || {
        let f: VectorFst<W> = tri!(epsilon_machine());
        let g = read(&f);
        req!(g == G { start: Some(0), fin: vec![Some(W::one())], trs: vec![vec![]] }, "epsilon_machine is {}", g.show());
        let p = tri!(decode_linear_fst(&f));
        req!(p.is_empty() && p == FstPath::default(), "its path is {:?}", p);
        Ok(())
    });
}

fn chk<W: GenW>(g: &G<W>) -> Res {
    let f = g.vfst();
    let want = paths(g);
    let got: Vec<FstPath<W>> = f.paths_iter().take(want.len() + 5).collect();
    req!(got.len() == want.len(), "paths_iter gives {} paths, the machine has {}: {:?}", got.len(), want.len(), got);
    let mut a: Vec<String> = got.iter().map(|p| keyp(&pof(p))).collect();
    let mut b: Vec<String> = want.iter().map(|p| keyp(&p.1)).collect();
    a.sort();
    b.sort();
    req!(a == b, "paths_iter gives {:?}, the machine has {:?}", a, b);
    // shorter paths first
    let mut by: Vec<(usize, String)> = want.iter().map(|(d, p)| (*d, keyp(p))).collect();
    by.sort();
    let mut rest = by.clone();
    for p in &got {
        let k = keyp(&pof(p));
        let m = rest[0].0;
        match rest.iter().position(|x| x.0 == m && x.1 == k) { Some(j) => { rest.remove(j); } None => return Err(format!("path {:?} comes before a path of {} transitions", p, m)) }
    }
    // the set of paths, and const machines
    let cf: ConstFst<W> = f.clone().into();
    req!(cf.paths_iter().collect::<Vec<_>>() == got, "the paths of the ConstFst differ");
    match decode_linear_fst(&f) {
        Ok(p) => { req!(want.len() <= 1, "decode_linear_fst accepts {} paths", want.len()); req!(pof(&p) == want.first().map(|x| x.1.clone()).unwrap_or((vec![], vec![], W::one())), "decode_linear_fst gives {:?}", p) }
        Err(_) => req!(want.len() > 1, "decode_linear_fst rejects a machine with {} paths", want.len()),
    }
    let fs: Vec<u32> = f.final_states_iter().collect();
    req!(fs == (0..g.n() as u32).filter(|q| g.is_fin(*q as usize)).collect::<Vec<_>>(), "final_states_iter gives {:?}", fs);
    if g.start.is_some() {
        for p in &got { req!(check_path_in_fst(&f, p), "check_path_in_fst does not find {:?}", p) }
        // near misses
        for p in got.iter().take(6) {
            let all = |q: &FstPath<W>| want.iter().any(|x| x.1 == pof(q));
            let mut v = vec![];
            let mut q = p.clone(); q.ilabels.push(1); v.push(q);
            let mut q = p.clone(); q.olabels.push(1); v.push(q);
            let mut q = p.clone(); q.ilabels.pop(); v.push(q);
            let mut q = p.clone(); q.olabels.pop(); v.push(q);
            for j in 0..p.olabels.len() { let mut q = p.clone(); q.olabels[j] = q.olabels[j] % 3 + 1; v.push(q); }
            for j in 0..p.ilabels.len() { let mut q = p.clone(); q.ilabels[j] = q.ilabels[j] % 3 + 1; v.push(q); }
            let mut q = p.clone(); q.weight = W::small()[0].clone(); v.push(q);
            let mut q = p.clone(); q.olabels.reverse(); v.push(q);
            for q in &v { req!(check_path_in_fst(&f, q) == all(q), "check_path_in_fst({:?}) is {}", q, !all(q)) }
        }
    }
    // with symbols
    let mut t = SymbolTable::new();
    for k in 1..4 { t.add_symbol(format!("s{}", k)); }
    let t = Arc::new(t);
    let mut f2 = f.clone();
    req!(f2.string_paths_iter().is_err(), "string_paths_iter without symbols is not an error");
    f2.set_input_symbols(Arc::clone(&t));
    f2.set_output_symbols(Arc::clone(&t));
    let sp: Vec<StringPath<W>> = tri!(f2.string_paths_iter()).collect();
    req!(sp.len() == got.len(), "string_paths_iter gives {} paths", sp.len());
    for (s, p) in sp.iter().zip(&got) {
        req!(s.ilabels() == &p.ilabels[..] && s.olabels() == &p.olabels[..] && s.weight() == &p.weight, "string path {:?} for {:?}", s, p);
        let j = |v: &[u32]| -> Option<String> { v.iter().map(|l| if *l < 4 { Some(format!("s{}", l)) } else { None }).collect::<Option<Vec<_>>>().map(|x| x.join(" ")) };
        req!(s.istring().ok() == j(&p.ilabels), "istring {:?} of {:?}", s.istring(), p);
        req!(s.ostring().ok() == j(&p.olabels), "ostring {:?} of {:?}", s.ostring(), p);
    }
    Ok(())
}

pub fn c18(c: &mut Ctx) {
    c.section("linear machines, tropical");
    let n = c.n(300, 5000);
    lin::<TW>(c, 1801, n);
    c.section("linear machines, integer");
    lin::<IW>(c, 1802, n);
    c.section("enumerated small acyclic machines");
    let lim = c.n(4000, 40_000) as u64;
    let e0 = c.evals;
    enumerate::<TW>(2, 2, 1, false, &mut |g| { if !g.cyclic() { c.case(g.show(), g.ntrs() > 0, || chk(g)); } c.go() && c.evals - e0 < lim });
    c.section("random acyclic machines, tropical");
    let mut r = c.rng(1803);
    for _ in 0..c.n(1500, 30_000) {
        if !c.go() { return; }
        let g: G<TW> = gen(&mut r, &Cfg { states: 5, trs: 8, acyclic: true, big: 0.03, zero: 0.05, ..Default::default() });
        c.case(g.show(), g.ntrs() > 0, || chk(&g));
    }
    c.section("random acyclic machines, integer");
    for _ in 0..c.n(800, 20_000) {
        if !c.go() { return; }
        let g: G<IW> = gen(&mut r, &Cfg { states: 5, trs: 8, acyclic: true, big: 0.03, ..Default::default() });
        c.case(g.show(), g.ntrs() > 0, || chk(&g));
    }
    c.section("cyclic machines: the first paths");
    for _ in 0..c.n(300, 5000) {
        if !c.go() { return; }
        let g: G<TW> = gen(&mut r, &Cfg { states: 4, trs: 6, ..Default::default() });
        // a path to a final state has to exist or the enumeration does not end
        let co = g.coaccessible();
        if !g.accessible().iter().zip(&co).all(|(a, b)| !a || *b) || g.start.is_none() || g.fin.iter().flatten().any(|w| w.is_zero()) { continue; }
        c.case(g.show(), g.cyclic(), || {
            let f = g.vfst();
            // breadth first enumeration of all paths with at most 4 transitions
            let mut level: Vec<(u32, P<TW>)> = vec![(g.start.unwrap(), (vec![], vec![], TW::one()))];
            let mut want: Vec<Vec<String>> = vec![];
            for _ in 0..5 {
                let mut w = vec![];
                let mut next = vec![];
                for (q, p) in &level {
                    if let Some(x) = &g.fin[*q as usize] { w.push(keyp(&(p.0.clone(), p.1.clone(), ti(&p.2, x)))) }
                    for a in &g.trs[*q as usize] { let mut n = (p.0.clone(), p.1.clone(), ti(&p.2, &a.w)); if a.i != 0 { n.0.push(a.i) } if a.o != 0 { n.1.push(a.o) } next.push((a.n, n)) }
                }
                w.sort();
                want.push(w);
                level = next;
                if level.len() > 2000 { break; }
            }
            let mut it = f.paths_iter();
            for (d, w) in want.iter().enumerate() {
                let mut got: Vec<String> = it.by_ref().take(w.len()).map(|p| keyp(&pof(&p))).collect();
                got.sort();
                req!(&got == w, "the paths of {} transitions are {:?} instead of {:?}", d, got, w);
            }
            Ok(())
        });
    }
}
