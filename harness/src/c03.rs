//! C03: the weights are the semirings they say they are.
use crate::core::*;
use crate::{req, tri};
use rand::Rng;
use rustfst::prelude::*;
use std::fmt::Debug;

const D: f32 = 1.0 / 512.0;
type SL = StringWeightLeft;
type SR = StringWeightRight;
type SX = StringWeightRestrict;
fn eq<W: Semiring>(a: &W, b: &W) -> bool { a.approx_equal(b, D) }

/// The laws that hold of any weight and those the flags of the type promise, on every triple.
fn laws<W: Semiring>(c: &mut Ctx, name: &str, v: &[W], plus_ok: &dyn Fn(&W, &W) -> bool)
where W::ReverseWeight: ReverseBack<W> + Debug {
    let p = W::properties();
    let (z, o) = (W::zero(), W::one());
    for a in v {
        if !c.go() { return; }
        c.case(format!("{}: laws of {:?}", name, a), true, || {
            let tm = |x: &W, y: &W| x.times(y).map_err(|e| format!("times({:?}, {:?}) returned an error: {:?}", x, y, e));
            let pm = |x: &W, y: &W| x.plus(y).map_err(|e| format!("plus({:?}, {:?}) returned an error: {:?}", x, y, e));
            req!(z.is_zero() && o.is_one() && !z.is_one() && !o.is_zero(), "is_zero and is_one of zero and one");
            req!(eq(&pm(&z, a)?, a) && eq(&pm(a, &z)?, a), "zero is not neutral for plus: {:?} {:?}", pm(&z, a), pm(a, &z));
            req!(eq(&tm(&o, a)?, a) && eq(&tm(a, &o)?, a), "one is not neutral for times: {:?} {:?}", tm(&o, a), tm(a, &o));
            req!(tm(&z, a)?.is_zero() && tm(a, &z)?.is_zero(), "zero does not annihilate: {:?} {:?}", tm(&z, a), tm(a, &z));
            let r = tri!(a.reverse());
            let b: W = tri!(r.reverse_back());
            req!(eq(&b, a), "reverse_back(reverse({:?})) = {:?}", a, b);
            let mut w = a.clone();
            w.set_value(o.value().clone());
            req!(eq(&w, &o), "set_value");
            req!(eq(&W::new(a.value().clone()), a) && eq(&W::new(a.clone().take_value()), a), "new(value) of {:?}", a);
            if p.contains(SemiringProperties::IDEMPOTENT) && plus_ok(a, a) { req!(eq(&pm(a, a)?, a), "flag IDEMPOTENT, but plus(a, a) = {:?}", pm(a, a)); }
            for b in v {
                let mut t = a.clone(); tri!(t.times_assign(b));
                req!(eq(&t, &tm(a, b)?), "times and times_assign differ on {:?}, {:?}: {:?} {:?}", a, b, tm(a, b), t);
                if p.contains(SemiringProperties::COMMUTATIVE) { req!(eq(&t, &tm(b, a)?), "flag COMMUTATIVE, but a b = {:?}, b a = {:?} for b = {:?}", t, tm(b, a), b); }
                req!(eq(&tri!(t.reverse()), &tri!(tri!(b.reverse()).times(tri!(a.reverse())))), "reverse of a b is not reverse(b) reverse(a) for b = {:?}", b);
                if plus_ok(a, b) {
                    let mut s = a.clone(); tri!(s.plus_assign(b));
                    req!(eq(&s, &pm(a, b)?), "plus and plus_assign differ on {:?}, {:?}: {:?} {:?}", a, b, pm(a, b), s);
                    req!(eq(&s, &pm(b, a)?), "plus does not commute: {:?} and {:?} for b = {:?}", s, pm(b, a), b);
                    req!(eq(&tri!(s.reverse()), &tri!(tri!(a.reverse()).plus(tri!(b.reverse())))), "reverse of a + b is not reverse(a) + reverse(b) for b = {:?}", b);
                    if p.contains(SemiringProperties::PATH) { req!(eq(&s, a) || eq(&s, b), "flag PATH, but a + b = {:?} for b = {:?}", s, b); }
                }
                for x in v {
                    let l = tm(&t, x)?; let r = tm(a, &tm(b, x)?)?;
                    req!(eq(&l, &r), "times is not associative: {:?} and {:?} for b = {:?}, c = {:?}", l, r, b, x);
                    if plus_ok(a, b) && plus_ok(b, x) && plus_ok(a, x) {
                        let s = pm(a, b)?;
                        let u = pm(b, x)?;
                        if plus_ok(&s, x) && plus_ok(a, &u) { let l = pm(&s, x)?; let r = pm(a, &u)?; req!(eq(&l, &r), "plus is not associative: {:?} and {:?} for b = {:?}, c = {:?}", l, r, b, x); }
                        if p.contains(SemiringProperties::LEFT_SEMIRING) { let l = tm(a, &u)?; let r = pm(&tm(a, b)?, &tm(a, x)?)?; req!(eq(&l, &r), "flag LEFT_SEMIRING, but a(b + c) = {:?}, ab + ac = {:?} for b = {:?}, c = {:?}", l, r, b, x); }
                        if p.contains(SemiringProperties::RIGHT_SEMIRING) { let l = tm(&u, a)?; let r = pm(&tm(b, a)?, &tm(x, a)?)?; req!(eq(&l, &r), "flag RIGHT_SEMIRING, but (b + c)a = {:?}, ba + ca = {:?} for b = {:?}, c = {:?}", l, r, b, x); }
                    }
                }
            }
            Ok(())
        });
    }
}

/// The operations against their definition, through an independent reading `f` of the weight.
fn defs<W: Semiring, T: Debug>(c: &mut Ctx, name: &str, v: &[W], plus_ok: &dyn Fn(&W, &W) -> bool, f: &dyn Fn(&W) -> T, sum: &dyn Fn(T, T) -> T, prod: &dyn Fn(T, T) -> T, same: &dyn Fn(&T, &T) -> bool) {
    for a in v {
        if !c.go() { return; }
        c.case(format!("{}: plus and times of {:?}", name, a), true, || {
            for b in v {
                let t = f(&tri!(a.times(b)));
                req!(same(&t, &prod(f(a), f(b))), "times with {:?} is {:?}, not {:?}", b, t, prod(f(a), f(b)));
                if plus_ok(a, b) {
                    let t = f(&tri!(a.plus(b)));
                    req!(same(&t, &sum(f(a), f(b))), "plus with {:?} is {:?}, not {:?}", b, t, sum(f(a), f(b)));
                }
            }
            Ok(())
        });
    }
}

/// Division undoes the product: b \ (b a) = a on the left, (a b) / b = a on the right; and what a sum gives can be divided out.
fn divs<W: WeaklyDivisibleSemiring>(c: &mut Ctx, name: &str, v: &[W], left: bool, right: bool, any: bool, plus_ok: &dyn Fn(&W, &W) -> bool) {
    for a in v {
        if !c.go() { return; }
        c.case(format!("{}: division of {:?}", name, a), true, || {
            for b in v {
                if b.is_zero() { continue; }
                let (ba, ab) = (tri!(b.times(a)), tri!(a.times(b)));
                if left { let q = tri!(ba.divide(b, DivideType::DivideLeft)); req!(eq(&q, a), "b \\ (b a) = {:?} for b = {:?}", q, b); }
                if right { let q = tri!(ab.divide(b, DivideType::DivideRight)); req!(eq(&q, a), "(a b) / b = {:?} for b = {:?}", q, b); }
                if any { let q = tri!(ab.divide(b, DivideType::DivideAny)); req!(eq(&q, a), "(a b) / b = {:?} for b = {:?}", q, b); }
                if plus_ok(a, b) {
                    let s = tri!(a.plus(b));
                    if s.is_zero() { continue; }
                    if left { let q = tri!(a.divide(&s, DivideType::DivideLeft)); let r = tri!(s.times(&q)); req!(eq(&r, a), "(a + b) ((a + b) \\ a) = {:?} for b = {:?}", r, b); }
                    if right { let q = tri!(a.divide(&s, DivideType::DivideRight)); let r = tri!(q.times(&s)); req!(eq(&r, a), "(a / (a + b)) (a + b) = {:?} for b = {:?}", r, b); }
                }
                let mut w = ba.clone();
                let t = if left { DivideType::DivideLeft } else { DivideType::DivideRight };
                let r1 = ba.divide(b, t).map_err(|e| e.to_string());
                let r2 = w.divide_assign(b, t).map(|_| w).map_err(|e| e.to_string());
                match (r1, r2) { (Ok(x), Ok(y)) => { req!(eq(&x, &y), "divide and divide_assign differ") } (Err(_), Err(_)) => {}, (x, y) => return Err(format!("divide {:?}, divide_assign {:?}", x, y)) }
            }
            Ok(())
        });
    }
}

fn star<W: StarSemiring>(c: &mut Ctx, name: &str, v: &[W]) {
    for a in v {
        if !c.go() { return; }
        c.case(format!("{}: closure of {:?}", name, a), true, || {
            let s = a.closure();
            let r = tri!(W::one().plus(tri!(a.times(&s))));
            req!(eq(&s, &r), "closure = {:?}, but one + a closure = {:?}", s, r);
            Ok(())
        });
    }
}

fn strings(r: &mut R, n: usize) -> Vec<Vec<u32>> {
    let mut v = vec![vec![], vec![1], vec![2], vec![1, 2], vec![2, 1], vec![1, 1], vec![1, 2, 1]];
    while v.len() < n { let l = r.gen_range(0..6); v.push((0..l).map(|_| if r.gen_bool(0.05) { u32::MAX } else { r.gen_range(1..4) }).collect()); }
    v
}
macro_rules! sval { ($v:expr) => { { let v = $v; if v.is_infinity() { None } else { Some(v.unwrap_labels().clone()) } } }; }
fn lcp(a: Option<Vec<u32>>, b: Option<Vec<u32>>) -> Option<Vec<u32>> { match (a, b) { (None, x) | (x, None) => x, (Some(a), Some(b)) => Some(a.iter().zip(&b).take_while(|(x, y)| x == y).map(|(x, _)| *x).collect()) } }
fn rv(a: Option<Vec<u32>>) -> Option<Vec<u32>> { a.map(|mut v| { v.reverse(); v }) }
fn cat(a: Option<Vec<u32>>, b: Option<Vec<u32>>) -> Option<Vec<u32>> { match (a, b) { (Some(mut a), Some(b)) => { a.extend(b); Some(a) } _ => None } }
fn feq(a: &f64, b: &f64) -> bool { a == b || (a - b).abs() < D as f64 }
fn all<W>(_: &W, _: &W) -> bool { true }

pub fn c03(c: &mut Ctx) {
    let rounds = c.n(3, 30);
    let mut r = c.rng(3);
    for round in 0..rounds {
        if !c.go() { return; }
        let k = if round == 0 { 9 } else { 12 };
        // ---- numbers
        c.section("numbers");
        let fl: Vec<f32> = (0..k).map(|_| r.gen_range(-64i32..256) as f32 / 8.0).collect();
        let bv = [BooleanWeight::new(true), BooleanWeight::new(false)];
        laws(c, "Boolean", &bv, &all);
        defs(c, "Boolean", &bv, &all, &|w| *w.value(), &|a, b| a || b, &|a, b| a && b, &|a, b| a == b);
        star(c, "Boolean", &bv);
        let iv: Vec<IntegerWeight> = (0..k).map(|_| IntegerWeight::new(r.gen_range(-50..51))).collect();
        laws(c, "Integer", &iv, &all);
        defs(c, "Integer", &iv, &all, &|w| *w.value() as i64, &|a, b| a + b, &|a, b| a * b, &|a, b| a == b);
        let mut tv: Vec<TropicalWeight> = fl.iter().map(|f| TropicalWeight::new(*f)).collect();
        tv.push(TropicalWeight::zero()); tv.push(TropicalWeight::one());
        laws(c, "Tropical", &tv, &all);
        defs(c, "Tropical", &tv, &all, &|w| *w.value() as f64, &|a, b| a.min(b), &|a, b| a + b, &feq);
        divs(c, "Tropical", &tv, true, true, true, &all);
        star(c, "Tropical", &tv.iter().copied().filter(|w| *w.value() >= 0.0).collect::<Vec<_>>());
        let mut lv: Vec<LogWeight> = fl.iter().map(|f| LogWeight::new(*f)).collect();
        lv.push(LogWeight::zero()); lv.push(LogWeight::one());
        laws(c, "Log", &lv, &all);
        defs(c, "Log", &lv, &all, &|w| *w.value() as f64, &|a, b| if a.is_infinite() && b.is_infinite() { a } else { let m = a.min(b); m - ((m - a).exp() + (m - b).exp()).ln() }, &|a, b| a + b, &feq);
        divs(c, "Log", &lv, true, true, true, &all);
        star(c, "Log", &lv.iter().copied().filter(|w| *w.value() > 0.0625).collect::<Vec<_>>());
        let mut pv: Vec<ProbabilityWeight> = (0..k).map(|_| ProbabilityWeight::new(r.gen_range(1..65) as f32 / 64.0)).collect();
        pv.push(ProbabilityWeight::zero()); pv.push(ProbabilityWeight::one());
        laws(c, "Probability", &pv, &all);
        defs(c, "Probability", &pv, &all, &|w| *w.value() as f64, &|a, b| a + b, &|a, b| a * b, &feq);
        divs(c, "Probability", &pv, true, true, true, &all);
        star(c, "Probability", &pv.iter().copied().filter(|w| *w.value() < 0.9).collect::<Vec<_>>());
        // ---- pairs
        c.section("pairs");
        type PW = ProductWeight<TropicalWeight, LogWeight>;
        let qv: Vec<PW> = (0..k).map(|i| PW::new((tv[i], lv[(i * 5 + 1) % lv.len()]))).chain([PW::zero(), PW::one()]).collect();
        laws(c, "Product(Tropical, Log)", &qv, &all);
        defs(c, "Product(Tropical, Log)", &qv, &all, &|w| { req_pair(w) }, &|a, b| (a.0.plus(b.0).unwrap(), a.1.plus(b.1).unwrap()), &|a, b| (a.0.times(b.0).unwrap(), a.1.times(b.1).unwrap()), &|a, b| eq(&a.0, &b.0) && eq(&a.1, &b.1));
        let dv: Vec<PW> = qv.iter().filter(|w| !(w.value1().is_zero() || w.value2().is_zero())).cloned().collect();
        divs(c, "Product(Tropical, Log)", &dv, true, true, true, &all);
        type PS = ProductWeight<StringWeightLeft, TropicalWeight>;
        // ---- strings
        c.section("strings");
        let st = strings(&mut r, k);
        let mut a: Vec<SL> = st.iter().map(|s| SL::from(s.clone())).collect(); a.push(SL::zero());
        laws(c, "StringLeft", &a, &all);
        defs(c, "StringLeft", &a, &all, &|w| sval!(w.value()), &|a, b| lcp(a, b), &|a, b| cat(a, b), &|a, b| a == b);
        divs(c, "StringLeft", &a, true, false, false, &all);
        let mut b: Vec<SR> = st.iter().map(|s| SR::from(s.clone())).collect(); b.push(SR::zero());
        laws(c, "StringRight", &b, &all);
        defs(c, "StringRight", &b, &all, &|w| sval!(w.value()), &|a, b| rv(lcp(rv(a), rv(b))), &|a, b| cat(a, b), &|a, b| a == b);
        divs(c, "StringRight", &b, false, true, false, &all);
        let mut x: Vec<SX> = st.iter().map(|s| SX::from(s.clone())).collect(); x.push(SX::zero());
        let sx = |a: &SX, b: &SX| a.is_zero() || b.is_zero() || a == b;
        laws(c, "StringRestrict", &x, &sx);
        defs(c, "StringRestrict", &x, &sx, &|w| sval!(w.value()), &|a, b| a.or(b), &|a, b| cat(a, b), &|a, b| a == b);
        for (i, a) in x.iter().enumerate() { for b in &x[i..] {
            if !sx(a, b) { c.case(format!("StringRestrict: {:?} + {:?}", a, b), true, || { req!(a.plus(b).is_err(), "two different strings have no sum"); Ok(()) }); }
        } }
        divs(c, "StringRestrict", &x, true, true, false, &sx);
        let psv: Vec<PS> = (0..k).map(|i| PS::new((a[(i * 3 + 1) % a.len()].clone(), tv[i]))).chain([PS::zero(), PS::one()]).collect();
        laws(c, "Product(StringLeft, Tropical)", &psv, &all);
        // ---- Gallic weights
        c.section("Gallic");
        type GL = GallicWeightLeft<TropicalWeight>;
        type GR = GallicWeightRight<TropicalWeight>;
        type GX = GallicWeightRestrict<TropicalWeight>;
        let nz = |i: usize| TropicalWeight::new(fl[i % fl.len()]);
        let mut gl: Vec<GL> = (0..k).map(|i| GL::from((st[i].clone(), nz(i)))).collect();
        laws(c, "GallicLeft", &with(&gl, GL::zero(), GL::one()), &all);
        divs(c, "GallicLeft", &gl, true, false, false, &all);
        gl.push(GL::zero());
        defs(c, "GallicLeft", &gl, &all, &|w| (sval!(w.value1().value()), *w.value2()), &|a, b| (lcp(a.0, b.0), a.1.plus(b.1).unwrap()), &|a, b| (cat(a.0, b.0), a.1.times(b.1).unwrap()), &|a, b| a.0 == b.0 && eq(&a.1, &b.1));
        let mut gr: Vec<GR> = (0..k).map(|i| GR::from((st[i].clone(), nz(i)))).collect();
        laws(c, "GallicRight", &with(&gr, GR::zero(), GR::one()), &all);
        divs(c, "GallicRight", &gr, false, true, false, &all);
        gr.push(GR::zero());
        defs(c, "GallicRight", &gr, &all, &|w| (sval!(w.value1().value()), *w.value2()), &|a, b| (rv(lcp(rv(a.0), rv(b.0))), a.1.plus(b.1).unwrap()), &|a, b| (cat(a.0, b.0), a.1.times(b.1).unwrap()), &|a, b| a.0 == b.0 && eq(&a.1, &b.1));
        let gx: Vec<GX> = (0..k).map(|i| GX::from((st[i % 4].clone(), nz(i)))).collect();
        let gxo = |a: &GX, b: &GX| sx(a.value1(), b.value1());
        laws(c, "GallicRestrict", &with(&gx, GX::zero(), GX::one()), &gxo);
        divs(c, "GallicRestrict", &gx, true, true, false, &gxo);
        // the Gallic weight: finitely many strings, each with a weight
        type GW = GallicWeight<TropicalWeight>;
        let mut gw = vec![GW::zero(), GW::one()];
        while gw.len() < k {
            let mut w = GW::zero();
            for _ in 0..r.gen_range(1..4) { let s: Vec<u32> = (0..r.gen_range(0..3)).map(|_| r.gen_range(1..3)).collect(); let x = GW::from((s, nz(r.gen_range(0..64)))); w = w.plus(&x).unwrap(); }
            gw.push(w);
        }
        laws(c, "Gallic", &gw, &all);
        type M = std::collections::BTreeMap<Vec<u32>, TropicalWeight>;
        let rd = |w: &GW| -> (bool, M) { let mut m = M::new(); for e in w.iter() { m.insert(sval!(e.value1().value()).unwrap(), *e.value2()); } (m.len() == w.len(), m) };
        let put = |m: &mut M, k: Vec<u32>, w: TropicalWeight| { let e = m.entry(k).or_insert_with(TropicalWeight::zero); *e = e.plus(w).unwrap(); };
        defs(c, "Gallic", &gw, &all, &rd, &|a, b| { let mut m = a.1.clone(); for (k, w) in b.1 { put(&mut m, k, w); } (a.0 && b.0, m) },
            &|a, b| { let mut m = M::new(); for (k, w) in &a.1 { for (l, x) in &b.1 { let mut s = k.clone(); s.extend(l); put(&mut m, s, w.times(x).unwrap()); } } (a.0 && b.0, m) },
            &|a, b| a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| x.0 == y.0 && eq(x.1, y.1)));
        let one: Vec<GW> = gw.iter().filter(|w| w.len() == 1).cloned().collect();
        for b in &one { for a in &gw { if a.is_zero() { continue; }
            c.case(format!("Gallic: {:?} divided by {:?}", a, b), true, || {
                let q = tri!(tri!(b.times(a)).divide(b, DivideType::DivideLeft)); req!(eq(&q, a), "b \\ (b a) = {:?}", q);
                let q = tri!(tri!(a.times(b)).divide(b, DivideType::DivideRight)); req!(eq(&q, a), "(a b) / b = {:?}", q);
                Ok(())
            });
        } }
        type GM = GallicWeightMin<TropicalWeight>;
        // distinct second values, so that the minimum is determined
        let mut gm: Vec<GM> = (0..k).map(|i| GM::from((st[i].clone(), TropicalWeight::new((i as f32) * 1.5 - 4.0)))).collect(); gm.push(GM::zero());
        defs(c, "GallicMin", &gm, &all, &|w| (sval!(w.value1().value()), *w.value().value2()), &|a, b| if a.1.value() < b.1.value() { a } else { b }, &|a, b| (cat(a.0, b.0), a.1.times(b.1).unwrap()), &|a, b| a.0 == b.0 && eq(&a.1, &b.1));
    }
}
fn req_pair(w: &ProductWeight<TropicalWeight, LogWeight>) -> (TropicalWeight, LogWeight) { (*w.value1(), *w.value2()) }
fn with<W: Clone>(v: &[W], a: W, b: W) -> Vec<W> { let mut v = v.to_vec(); v.push(a); v.push(b); v }
