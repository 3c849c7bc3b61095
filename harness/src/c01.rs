//! C01: histories of VectorFst operations against an abstract machine.
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::prelude::*;

#[derive(Clone, Debug)]
pub enum Op {
    AddState, AddStates(usize), SetStart(u32), SetFinal(u32, u8), DelFinal(u32), TakeFinal(u32),
    AddTr(u32, u32, u32, u8, u32), EmplaceTr(u32, u32, u32, u8, u32), DelState(u32), DelStates(Vec<u32>), DelAll,
    DelTrs(u32), PopTrs(u32), DelTrsId(u32, Vec<usize>), SetTrs(u32, Vec<(u32, u32, u8, u32)>),
    Sort(u32, bool), Unique(u32), Sum(u32),
    ItSetI(u32, usize, u32), ItSetO(u32, usize, u32), ItSetIO(u32, usize, u32, u32), ItSetW(u32, usize, u8), ItSetN(u32, usize, u32), ItSetTr(u32, usize, u32, u32, u8, u32),
    Reserve,
}
pub fn wt<W: GenW>(k: u8) -> W { if k == 0 { W::one() } else if k == 1 { W::zero() } else { W::small()[(k as usize) % W::small().len()].clone() } }

pub fn gen_op<W: GenW>(r: &mut R, g: &G<W>, bad: bool) -> Op {
    let n = g.n() as u32;
    let lab = |r: &mut R| if r.gen_bool(0.3) { 0 } else { r.gen_range(1..4u32) };
    let st = |r: &mut R| if n == 0 || (bad && r.gen_bool(0.1)) { n + r.gen_range(0..3) } else { r.gen_range(0..n) };
    let wk = |r: &mut R| if r.gen_bool(0.08) { 1 } else { [0u8, 2, 3][r.gen_range(0..3)] };
    loop {
        let s = st(r);
        let d = if n == 0 { 0 } else { r.gen_range(0..n) };
        let len = if s < n { g.trs[s as usize].len() } else { 0 };
        let ix = |r: &mut R| if len == 0 || (bad && r.gen_bool(0.1)) { len } else { r.gen_range(0..len) };
        return match r.gen_range(0..34) {
            0..=2 => Op::AddState, 3 => Op::AddStates(r.gen_range(0..4)),
            4 | 5 => Op::SetStart(s), 6 | 7 => Op::SetFinal(s, wk(r)), 8 => Op::DelFinal(s), 9 => Op::TakeFinal(s),
            10..=15 if n > 0 => Op::AddTr(s, lab(r), lab(r), wk(r), d), 16 if n > 0 => Op::EmplaceTr(s, lab(r), lab(r), wk(r), d),
            17 => Op::DelState(s),
            18 => { let k = r.gen_range(0..3); let v: Vec<u32> = (0..k).filter_map(|_| if n > 0 { Some(r.gen_range(0..n)) } else { None }).collect(); Op::DelStates(v) }
            19 if r.gen_bool(0.1) => Op::DelAll, 20 if r.gen_bool(0.5) => Op::DelTrs(s), 21 if r.gen_bool(0.5) => Op::PopTrs(s),
            22 if s < n => { let v: Vec<usize> = (0..len).filter(|_| r.gen_bool(0.4)).collect(); Op::DelTrsId(s, v) }
            23 if s < n => { let k = r.gen_range(0..4); Op::SetTrs(s, (0..k).map(|_| (lab(r), lab(r), wk(r), r.gen_range(0..n))).collect()) }
            24 if s < n => Op::Sort(s, r.gen_bool(0.5)), 25 if s < n => Op::Unique(s), 26 if s < n => Op::Sum(s),
            27 => Op::ItSetI(s, ix(r), lab(r)), 28 => Op::ItSetO(s, ix(r), lab(r)), 29 if s < n && len > 0 => Op::ItSetIO(s, r.gen_range(0..len), lab(r), lab(r)),
            30 => Op::ItSetW(s, ix(r), wk(r)), 31 if n > 0 => Op::ItSetN(s, ix(r), d), 32 if n > 0 => Op::ItSetTr(s, ix(r), lab(r), lab(r), wk(r), d),
            33 => Op::Reserve,
            _ => continue,
        };
    }
}
fn ltr<W: Semiring>(a: &A<W>) -> Tr<W> { Tr::new(a.i, a.o, a.w.clone(), a.n) }
fn la<W: Semiring>(t: &Tr<W>) -> A<W> { A { i: t.ilabel, o: t.olabel, w: t.weight.clone(), n: t.nextstate } }
fn key<W>(a: &A<W>) -> (u32, u32, u32) { (a.i, a.o, a.n) }

/// Applies `op` to both; returns an error when the outcome (result, error or new state) differs.
/// The transition order within a state after unique/sum is left open; the model then adopts the order found.
pub fn apply<W: GenW>(f: &mut VectorFst<W>, g: &mut G<W>, op: &Op, unchecked: bool) -> Res {
    let n = g.n() as u32;
    macro_rules! exist { ($s:expr, $e:expr) => {{ let ok = $s < n; let r = $e; req!(r.is_ok() == ok, "{:?}: state exists = {}, call returned {}", op, ok, if r.is_ok() { "Ok" } else { "an error" }); if !ok { return Ok(()); } r.unwrap() }} }
    match op.clone() {
        Op::AddState => { let id = f.add_state(); let m = g.add(); req!(id == m, "add_state returned {} instead of {}", id, m) }
        Op::AddStates(k) => { f.add_states(k); for _ in 0..k { g.add(); } }
        Op::SetStart(s) => { if unchecked && s < n { unsafe { f.set_start_unchecked(s) } } else { exist!(s, f.set_start(s)); } g.start = Some(s) }
        Op::SetFinal(s, w) => { let w: W = wt(w); if unchecked && s < n { unsafe { f.set_final_unchecked(s, w.clone()) } } else { exist!(s, f.set_final(s, w.clone())); } g.fin[s as usize] = Some(w) }
        Op::DelFinal(s) => { if unchecked && s < n { unsafe { f.delete_final_weight_unchecked(s) } } else { exist!(s, f.delete_final_weight(s)); } g.fin[s as usize] = None }
        Op::TakeFinal(s) => { let r = if unchecked && s < n { unsafe { f.take_final_weight_unchecked(s) } } else { exist!(s, f.take_final_weight(s)) }; let m = g.fin[s as usize].take(); req!(r == m, "take_final_weight returned {:?} instead of {:?}", r, m) }
        Op::AddTr(s, i, o, w, d) => { let w: W = wt(w); let t = Tr::new(i, o, w.clone(), d); if unchecked && s < n { unsafe { f.add_tr_unchecked(s, t) } } else { exist!(s, f.add_tr(s, t)); } g.tr(s, i, o, w, d) }
        Op::EmplaceTr(s, i, o, w, d) => { let w: W = wt(w); if unchecked && s < n { unsafe { f.emplace_tr_unchecked(s, i, o, w.clone(), d) } } else { exist!(s, f.emplace_tr(s, i, o, w.clone(), d)); } g.tr(s, i, o, w, d) }
        Op::DelState(s) => { exist!(s, f.del_state(s)); mdel(g, &[s]) }
        Op::DelStates(v) => { tri!(f.del_states(v.clone())); mdel(g, &v) }
        Op::DelAll => { f.del_all_states(); *g = G::new() }
        Op::DelTrs(s) => { exist!(s, f.delete_trs(s)); g.trs[s as usize].clear() }
        Op::PopTrs(s) => { let r = if unchecked && s < n { unsafe { f.pop_trs_unchecked(s) } } else { exist!(s, f.pop_trs(s)) }; let m = std::mem::take(&mut g.trs[s as usize]); req!(r.iter().map(la).collect::<Vec<_>>() == m, "pop_trs returned {:?} instead of {:?}", r, m) }
        Op::DelTrsId(s, v) => { unsafe { f.del_trs_id_sorted_unchecked(s, &v) }; for k in v.iter().rev() { g.trs[s as usize].remove(*k); } }
        Op::SetTrs(s, v) => { let l: Vec<A<W>> = v.iter().map(|(i, o, w, d)| A { i: *i, o: *o, w: wt(*w), n: *d }).collect(); unsafe { f.set_trs_unchecked(s, l.iter().map(ltr).collect()) }; g.trs[s as usize] = l }
        Op::Sort(s, inp) => {
            if inp { f.sort_trs_unchecked(s, |a, b| a.ilabel.cmp(&b.ilabel)); g.trs[s as usize].sort_by(|a, b| a.i.cmp(&b.i)) }
            else { f.sort_trs_unchecked(s, |a, b| a.olabel.cmp(&b.olabel)); g.trs[s as usize].sort_by(|a, b| a.o.cmp(&b.o)) }
        }
        Op::Unique(s) => {
            unsafe { f.unique_trs_unchecked(s) };
            let got: Vec<A<W>> = tri!(f.get_trs(s)).trs().iter().map(la).collect();
            let mut want: Vec<A<W>> = vec![];
            for a in &g.trs[s as usize] { if !want.contains(a) { want.push(a.clone()) } }
            req!(got.len() == want.len() && want.iter().all(|a| got.contains(a)), "unique_trs: {:?} became {:?}", g.trs[s as usize], got);
            g.trs[s as usize] = got;
        }
        Op::Sum(s) => {
            unsafe { f.sum_trs_unchecked(s) };
            let got: Vec<A<W>> = tri!(f.get_trs(s)).trs().iter().map(la).collect();
            let mut want: Vec<A<W>> = vec![];
            for a in &g.trs[s as usize] { match want.iter_mut().find(|b| key(b) == key(a)) { Some(b) => b.w = pl(&b.w, &a.w), None => want.push(a.clone()) } }
            req!(got.len() == want.len() && want.iter().all(|a| got.contains(a)), "sum_trs: {:?} became {:?}", g.trs[s as usize], got);
            g.trs[s as usize] = got;
        }
        Op::ItSetI(s, k, l) => it(f, g, s, k, unchecked, op, |t, k| t.set_ilabel(k, l), |t, k| unsafe { t.set_ilabel_unchecked(k, l) }, |a| a.i = l)?,
        Op::ItSetO(s, k, l) => it(f, g, s, k, unchecked, op, |t, k| t.set_olabel(k, l), |t, k| unsafe { t.set_olabel_unchecked(k, l) }, |a| a.o = l)?,
        Op::ItSetIO(s, k, l, m) => { unsafe { tri!(f.tr_iter_mut(s)).set_labels_unchecked(k, l, m) }; let a = &mut g.trs[s as usize][k]; a.i = l; a.o = m }
        Op::ItSetW(s, k, w) => { let w: W = wt(w); it(f, g, s, k, unchecked, op, |t, k| t.set_weight(k, w.clone()), |t, k| unsafe { t.set_weight_unchecked(k, w.clone()) }, |a| a.w = w.clone())? }
        Op::ItSetN(s, k, d) => it(f, g, s, k, unchecked, op, |t, k| t.set_nextstate(k, d), |t, k| unsafe { t.set_nextstate_unchecked(k, d) }, |a| a.n = d)?,
        Op::ItSetTr(s, k, i, o, w, d) => { let x = A { i, o, w: wt::<W>(w), n: d }; it(f, g, s, k, unchecked, op, |t, k| t.set_tr(k, ltr(&x)), |t, k| unsafe { t.set_tr_unchecked(k, ltr(&x)) }, |a| *a = x.clone())? }
        Op::Reserve => { f.reserve_states(3); if n > 0 { tri!(f.reserve_trs(0, 2)); tri!(f.shrink_to_fit_trs(0)); } f.shrink_to_fit(); f.shrink_to_fit_states(); }
    }
    Ok(())
}
fn it<W: GenW>(f: &mut VectorFst<W>, g: &mut G<W>, s: u32, k: usize, unchecked: bool, op: &Op,
    chk: impl FnOnce(&mut rustfst::trs_iter_mut::TrsIterMut<W>, usize) -> anyhow::Result<()>, unc: impl FnOnce(&mut rustfst::trs_iter_mut::TrsIterMut<W>, usize), m: impl FnOnce(&mut A<W>)) -> Res {
    let ok = (s as usize) < g.n();
    let r = f.tr_iter_mut(s);
    req!(r.is_ok() == ok, "{:?}: tr_iter_mut on state {} (exists: {}) returned {}", op, s, ok, r.is_ok());
    if !ok { return Ok(()); }
    let mut t = r.unwrap();
    let len = g.trs[s as usize].len();
    req!(t.len() == len && t.is_empty() == (len == 0), "tr_iter_mut({}).len() = {} instead of {}", s, t.len(), len);
    for j in 0..len { req!(t.get(j).map(la).as_ref() == Some(&g.trs[s as usize][j]), "tr_iter_mut({}).get({}) is wrong", s, j); }
    req!(t.get(len).is_none(), "tr_iter_mut get past the end");
    if unchecked && k < len { unc(&mut t, k) } else {
        let r = chk(&mut t, k);
        req!(r.is_ok() == (k < len), "{:?}: index {} of {} returned ok={}", op, k, len, r.is_ok());
        if k >= len { return Ok(()); }
    }
    m(&mut g.trs[s as usize][k]);
    Ok(())
}
pub fn mdel<W: Semiring>(g: &mut G<W>, v: &[u32]) {
    let mut map = vec![None; g.n()];
    let mut k = 0;
    for q in 0..g.n() { if !v.contains(&(q as u32)) { map[q] = Some(k); k += 1; } }
    let old = std::mem::replace(g, G::new());
    for q in 0..old.n() { if map[q].is_some() { let s = g.add(); g.fin[s as usize] = old.fin[q].clone(); g.trs[s as usize] = old.trs[q].iter().filter_map(|a| map[a.n as usize].map(|n| A { n, ..a.clone() })).collect(); } }
    g.start = old.start.and_then(|s| map[s as usize]);
}
pub fn agree<W: Semiring>(f: &VectorFst<W>, g: &G<W>) -> Res {
    let got = read(f);
    req!(&got == g, "machine is {} instead of {}", got.show(), g.show());
    let n = g.n() as u32;
    for q in 0..n {
        let t = &g.trs[q as usize];
        req!(tri!(f.num_trs(q)) == t.len(), "num_trs({})", q);
        let ie = t.iter().filter(|a| a.i == 0).count();
        let oe = t.iter().filter(|a| a.o == 0).count();
        req!(tri!(f.num_input_epsilons(q)) == ie, "num_input_epsilons({}) = {} instead of {}", q, f.num_input_epsilons(q).unwrap(), ie);
        req!(tri!(f.num_output_epsilons(q)) == oe, "num_output_epsilons({}) = {} instead of {}", q, f.num_output_epsilons(q).unwrap(), oe);
        unsafe { req!(f.num_trs_unchecked(q) == t.len() && f.final_weight_unchecked(q) == g.fin[q as usize] && f.get_trs_unchecked(q).trs().iter().map(la).collect::<Vec<_>>() == *t, "unchecked accessors disagree on state {}", q); }
        req!(f.is_start(q) == (g.start == Some(q)), "is_start({})", q);
        req!(tri!(f.is_final(q)) == g.is_fin(q as usize), "is_final({})", q);
    }
    for q in n..n + 2 { req!(f.num_trs(q).is_err() && f.final_weight(q).is_err() && f.get_trs(q).is_err() && f.num_input_epsilons(q).is_err() && f.num_output_epsilons(q).is_err(), "accessors accept missing state {}", q); }
    req!(f.states_iter().collect::<Vec<_>>() == (0..n).collect::<Vec<_>>() && f.states_range() == (0..n), "states_iter/states_range");
    let it: Vec<_> = f.fst_iter().map(|d| (d.state_id, d.trs.trs().iter().map(la).collect::<Vec<_>>(), d.final_weight.clone(), d.num_trs)).collect();
    req!(it == (0..n).map(|q| (q, g.trs[q as usize].clone(), g.fin[q as usize].clone(), g.trs[q as usize].len())).collect::<Vec<_>>(), "fst_iter disagrees with the accessors");
    Ok(())
}

fn run<W: GenW>(c: &mut Ctx, tag: u64, runs: usize, len: usize) {
    let mut r = c.rng(tag);
    for k in 0..runs {
        if !c.go() { return; }
        let unchecked = k % 3 == 0;
        let mut g = G::<W>::new();
        let mut f = VectorFst::<W>::new();
        let mut ops: Vec<Op> = vec![];
        let mut keep: Option<(VectorFst<W>, G<W>)> = None;
        let mut snaps: Vec<(TrsVec<W>, Vec<A<W>>)> = vec![];
        for step in 0..len {
            let op = gen_op(&mut r, &g, true);
            ops.push(op.clone());
            if step % 5 == 2 { keep = Some((f.clone(), g.clone())); }
            if step % 4 == 1 && g.n() > 0 { let q = r.gen_range(0..g.n()); snaps.push((f.get_trs(q as u32).unwrap(), g.trs[q].clone())); }
            let (fr, gr, kr, sr) = (&mut f, &mut g, &keep, &snaps);
            let ok = c.case(format!("unchecked={} history {:?}", unchecked, ops), step + 1 == len, move || {
                apply(fr, gr, &op, unchecked)?;
                agree(fr, gr)?;
                if let Some((kf, kg)) = kr { agree(kf, kg).map_err(|e| format!("an earlier clone changed: {}", e))?; }
                for (t, m) in sr { req!(t.trs().iter().map(la).collect::<Vec<_>>() == *m, "a transition list read earlier changed under mutation"); }
                let g2 = read(&fr.clone());
                req!(g2 == *gr, "clone differs from its source");
                Ok(())
            });
            if !ok { return; }
        }
    }
}
pub fn c01(c: &mut Ctx) {
    c.section("histories, tropical");
    let (a, b) = (c.n(1000, 20000), if c.thorough { 120 } else { 40 });
    run::<TW>(c, 11, a, b);
    c.section("histories, integer");
    run::<IW>(c, 12, a / 4, b);
}
