//! Generators, abstract machines and brute-force semantics shared by every bounded contract check.
//! Nothing here calls an algorithm of rustfst: machines are read and built only through the state,
//! transition and final-weight accessors.
use rand::Rng;
use rand::SeedableRng;
pub use rand_chacha::ChaCha8Rng as R;
use rustfst::prelude::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type TW = TropicalWeight;
pub type IW = IntegerWeight;
pub type Res = Result<(), String>;

#[macro_export]
macro_rules! req {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! tri {
    ($e:expr) => { match $e { Ok(v) => v, Err(e) => return Err(format!("{} returned an error: {}", stringify!($e), e)) } };
}

#[derive(Clone, PartialEq, Debug)]
pub struct A<W> { pub i: u32, pub o: u32, pub w: W, pub n: u32 }

/// The abstract machine.
#[derive(Clone, PartialEq, Debug)]
pub struct G<W> { pub start: Option<u32>, pub fin: Vec<Option<W>>, pub trs: Vec<Vec<A<W>>> }

impl<W: Semiring> G<W> {
    pub fn new() -> Self { G { start: None, fin: vec![], trs: vec![] } }
    pub fn n(&self) -> usize { self.fin.len() }
    pub fn add(&mut self) -> u32 { self.fin.push(None); self.trs.push(vec![]); (self.fin.len() - 1) as u32 }
    pub fn tr(&mut self, s: u32, i: u32, o: u32, w: W, n: u32) { self.trs[s as usize].push(A { i, o, w, n }) }
    pub fn ntrs(&self) -> usize { self.trs.iter().map(|t| t.len()).sum() }
    pub fn show(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "start={:?} ", self.start);
        for q in 0..self.n() {
            let _ = write!(s, "| {}", q);
            if let Some(w) = &self.fin[q] { let _ = write!(s, "(final {:?})", w); }
            for a in &self.trs[q] { let _ = write!(s, " -{}:{}/{:?}->{}", a.i, a.o, a.w, a.n); }
            s.push(' ');
        }
        s
    }
    pub fn reach(&self, from: &[u32]) -> Vec<bool> {
        let mut seen = vec![false; self.n()];
        let mut st: Vec<u32> = from.to_vec();
        while let Some(q) = st.pop() {
            if (q as usize) < seen.len() && !seen[q as usize] {
                seen[q as usize] = true;
                for a in &self.trs[q as usize] { st.push(a.n) }
            }
        }
        seen
    }
    pub fn accessible(&self) -> Vec<bool> { match self.start { Some(s) => self.reach(&[s]), None => vec![false; self.n()] } }
    pub fn is_fin(&self, q: usize) -> bool { matches!(&self.fin[q], Some(w) if !w.is_zero()) }
    pub fn coaccessible(&self) -> Vec<bool> {
        let mut c: Vec<bool> = (0..self.n()).map(|q| self.is_fin(q)).collect();
        loop {
            let mut ch = false;
            for q in 0..self.n() { if !c[q] && self.trs[q].iter().any(|a| c[a.n as usize]) { c[q] = true; ch = true } }
            if !ch { return c; }
        }
    }
    /// reach1[q] = states reachable by a non-empty path
    pub fn reach_plus(&self) -> Vec<Vec<bool>> {
        (0..self.n()).map(|q| { let f: Vec<u32> = self.trs[q].iter().map(|a| a.n).collect(); self.reach(&f) }).collect()
    }
    pub fn cyclic(&self) -> bool { let r = self.reach_plus(); (0..self.n()).any(|q| r[q][q]) }
    pub fn eps_cyclic_in(&self) -> bool { let mut g = self.clone(); for t in g.trs.iter_mut() { t.retain(|a| a.i == 0) } g.cyclic() }
    pub fn well_formed(&self) -> Res {
        if let Some(s) = self.start { req!((s as usize) < self.n(), "start state {} does not exist", s) }
        for q in 0..self.n() { for a in &self.trs[q] { req!((a.n as usize) < self.n(), "transition of state {} leads to missing state {}", q, a.n) } }
        Ok(())
    }
    pub fn vfst(&self) -> VectorFst<W> {
        let mut f = VectorFst::<W>::new();
        for _ in 0..self.n() { f.add_state(); }
        if let Some(s) = self.start { f.set_start(s).unwrap(); }
        for q in 0..self.n() {
            if let Some(w) = &self.fin[q] { f.set_final(q as u32, w.clone()).unwrap(); }
            for a in &self.trs[q] { f.add_tr(q as u32, Tr::new(a.i, a.o, a.w.clone(), a.n)).unwrap(); }
        }
        f
    }
}

/// Reads a machine through its public accessors.
pub fn read<W: Semiring, F: ExpandedFst<W>>(f: &F) -> G<W> {
    let n = f.num_states();
    let mut g = G { start: f.start(), fin: vec![], trs: vec![] };
    for q in 0..n as u32 {
        g.fin.push(f.final_weight(q).unwrap());
        g.trs.push(f.get_trs(q).unwrap().trs().iter().map(|t| A { i: t.ilabel, o: t.olabel, w: t.weight.clone(), n: t.nextstate }).collect());
    }
    g
}
/// Expands any (possibly lazy) machine by exploring it from its start state through the public accessors.
/// States keep their numbers; unexplored numbers are empty states.
pub fn expand<W: Semiring, F: Fst<W>>(f: &F, cap: usize) -> Result<G<W>, String> {
    let mut g = G { start: f.start(), fin: vec![], trs: vec![] };
    let mut seen = BTreeSet::new();
    let mut st: Vec<u32> = g.start.into_iter().collect();
    while let Some(q) = st.pop() {
        if !seen.insert(q) { continue; }
        req!(seen.len() <= cap, "machine has more than {} states", cap);
        while g.n() <= q as usize { g.add(); }
        g.fin[q as usize] = tri!(f.final_weight(q));
        let trs = tri!(f.get_trs(q));
        g.trs[q as usize] = trs.trs().iter().map(|t| A { i: t.ilabel, o: t.olabel, w: t.weight.clone(), n: t.nextstate }).collect();
        req!(tri!(f.num_trs(q)) == g.trs[q as usize].len(), "num_trs({}) disagrees with the transitions", q);
        for a in &g.trs[q as usize] { st.push(a.n) }
    }
    let m = g.trs.iter().flatten().map(|a| a.n + 1).max().unwrap_or(0) as usize;
    while g.n() < m { g.add(); }
    Ok(g)
}

pub type Lang<W> = BTreeMap<(Vec<u32>, Vec<u32>), W>;
pub fn pl<W: Semiring>(a: &W, b: &W) -> W { a.plus(b).unwrap() }
pub fn ti<W: Semiring>(a: &W, b: &W) -> W { a.times(b).unwrap() }

/// Weight of every pair of strings of length <= k, by dynamic programming over
/// (state, input read, output written). `idem`: the semiring is idempotent and weights are
/// non-decreasing along paths (tropical, non-negative), so a fixpoint is reached on cyclic machines;
/// otherwise the machine must be acyclic.
pub fn lang<W: Semiring>(g: &G<W>, k: usize, idem: bool) -> Lang<W> {
    let mut out: Lang<W> = BTreeMap::new();
    let s = match g.start { Some(s) => s, None => return out };
    let mut total: BTreeMap<(u32, Vec<u32>, Vec<u32>), W> = BTreeMap::new();
    let mut cur: BTreeMap<(u32, Vec<u32>, Vec<u32>), W> = BTreeMap::new();
    cur.insert((s, vec![], vec![]), W::one());
    total.insert((s, vec![], vec![]), W::one());
    let mut rounds = 0;
    while !cur.is_empty() {
        rounds += 1;
        assert!(idem || rounds <= g.n() + 1, "lang: cyclic machine in a non-idempotent semiring");
        let mut next: BTreeMap<(u32, Vec<u32>, Vec<u32>), W> = BTreeMap::new();
        for ((q, i, o), w) in &cur {
            for a in &g.trs[*q as usize] {
                let mut i2 = i.clone();
                let mut o2 = o.clone();
                if a.i != 0 { i2.push(a.i) }
                if a.o != 0 { o2.push(a.o) }
                if i2.len() > k || o2.len() > k { continue; }
                let w2 = ti(w, &a.w);
                if w2.is_zero() { continue; }
                let key = (a.n, i2, o2);
                let e = next.entry(key).or_insert_with(W::zero);
                *e = pl(e, &w2);
            }
        }
        cur = BTreeMap::new();
        for (key, w) in next {
            let old = total.get(&key).cloned().unwrap_or_else(W::zero);
            let new = pl(&old, &w);
            if idem { if new != old { total.insert(key.clone(), new.clone()); cur.insert(key, new); } }
            else { total.insert(key.clone(), new); cur.insert(key, w); }
        }
    }
    for ((q, i, o), w) in total {
        if let Some(f) = &g.fin[q as usize] {
            let w2 = ti(&w, f);
            if w2.is_zero() { continue; }
            let e = out.entry((i, o)).or_insert_with(W::zero);
            *e = pl(e, &w2);
        }
    }
    out.retain(|_, w| !w.is_zero());
    out
}
pub fn show_lang<W: Semiring>(l: &Lang<W>) -> String {
    l.iter().take(12).map(|((i, o), w)| format!("{:?}:{:?}/{:?}", i, o, w)).collect::<Vec<_>>().join(" ")
}
pub fn same_lang<W: Semiring>(what: &str, got: &Lang<W>, want: &Lang<W>) -> Res {
    if got == want { return Ok(()); }
    for (k, w) in want { match got.get(k) { Some(v) if v == w => {}, v => return Err(format!("{}: pair {:?} should have weight {:?} but has {:?}", what, k, w, v)) } }
    for (k, w) in got { if !want.contains_key(k) { return Err(format!("{}: pair {:?} should not be accepted but has weight {:?}", what, k, w)) } }
    Ok(())
}

#[derive(Clone)]
pub struct Cfg { pub states: usize, pub trs: usize, pub labels: u32, pub eps: f64, pub acyclic: bool, pub acceptor: bool, pub nostart: f64, pub zero: f64, pub fin: f64, pub big: f64 }
impl Default for Cfg { fn default() -> Self { Cfg { states: 4, trs: 7, labels: 3, eps: 0.25, acyclic: false, acceptor: false, nostart: 0.05, zero: 0.0, fin: 0.4, big: 0.1 } } }

pub trait GenW: Semiring { fn gen(r: &mut R) -> Self; fn small() -> Vec<Self>; }
impl GenW for TW {
    fn gen(r: &mut R) -> Self { TW::new([0.0, 0.0, 1.0, 2.0, 3.0, 5.0][r.gen_range(0..6)]) }
    fn small() -> Vec<Self> { vec![TW::new(0.0), TW::new(1.0)] }
}
impl GenW for IW {
    fn gen(r: &mut R) -> Self { IW::new([1, 1, 2, 3, 5][r.gen_range(0..5)]) }
    fn small() -> Vec<Self> { vec![IW::new(1), IW::new(2)] }
}
impl GenW for BooleanWeight { fn gen(_: &mut R) -> Self { BooleanWeight::new(true) } fn small() -> Vec<Self> { vec![BooleanWeight::new(true)] } }

pub fn gen<W: GenW>(r: &mut R, c: &Cfg) -> G<W> {
    let n = r.gen_range(0..=c.states).max(if r.gen_bool(0.9) { 1 } else { 0 });
    let mut g = G::new();
    for _ in 0..n { g.add(); }
    if n == 0 { return g; }
    if !r.gen_bool(c.nostart) { g.start = Some(if r.gen_bool(0.7) { 0 } else { r.gen_range(0..n) as u32 }); }
    for q in 0..n { if r.gen_bool(c.fin) { g.fin[q] = Some(if c.zero > 0.0 && r.gen_bool(c.zero) { W::zero() } else { W::gen(r) }); } }
    if r.gen_bool(0.8) && !g.fin.iter().any(|f| f.is_some()) { let q = r.gen_range(0..n); g.fin[q] = Some(W::gen(r)); }
    // states are renumbered so that acyclic machines are not always in topological order
    let mut perm: Vec<u32> = (0..n as u32).collect();
    if r.gen_bool(0.5) { for i in (1..n).rev() { perm.swap(i, r.gen_range(0..=i)); } }
    for _ in 0..r.gen_range(0..=c.trs) {
        let (mut s, mut t) = (r.gen_range(0..n), r.gen_range(0..n));
        if c.acyclic { if s == t { continue; } if s > t { std::mem::swap(&mut s, &mut t) } }
        let i = if r.gen_bool(c.eps) { 0 } else { r.gen_range(1..=c.labels) };
        let o = if c.acceptor { i } else if r.gen_bool(c.eps) { 0 } else { r.gen_range(1..=c.labels) };
        let w = if c.zero > 0.0 && r.gen_bool(c.zero) { W::zero() } else { W::gen(r) };
        g.tr(perm[s], i, o, w, perm[t]);
    }
    // sometimes spread the labels over a wide range (hash and range boundaries)
    if c.big > 0.0 && r.gen_bool(c.big) {
        let m = [0u32, 2, 300, 70_000, 1 << 20, 2_000_000_000];
        for a in g.trs.iter_mut().flatten() { a.i = m[(a.i as usize).min(5)]; a.o = m[(a.o as usize).min(5)]; }
    }
    g
}

/// Every machine with at most `ns` states and `nt` transitions over labels 0..=nl and the weights W::small().
pub fn enumerate<W: GenW>(ns: usize, nt: usize, nl: u32, acceptor: bool, f: &mut dyn FnMut(&G<W>) -> bool) {
    let ws = W::small();
    for n in 0..=ns {
        let mut arcs: Vec<(u32, A<W>)> = vec![];
        for s in 0..n as u32 { for t in 0..n as u32 { for i in 0..=nl { for o in 0..=nl { if acceptor && i != o { continue; } for w in &ws { arcs.push((s, A { i, o, w: w.clone(), n: t })); } } } } }
        let fopts: Vec<Option<W>> = std::iter::once(None).chain(ws.iter().cloned().map(Some)).collect();
        let nf = fopts.len().pow(n as u32);
        for start in std::iter::once(None).chain((0..n as u32).map(Some)) {
            for fi in 0..nf {
                let mut base = G::<W>::new();
                let mut x = fi;
                for q in 0..n { base.add(); base.fin[q] = fopts[x % fopts.len()].clone(); x /= fopts.len(); }
                base.start = start;
                let mut idx: Vec<usize> = vec![];
                loop {
                    let mut g = base.clone();
                    for &k in &idx { let (s, a) = &arcs[k]; g.trs[*s as usize].push(a.clone()); }
                    if !f(&g) { return; }
                    // next sequence of arc indices, in length-lexicographic order
                    let mut p = idx.len();
                    let mut done = false;
                    loop {
                        if p == 0 { if idx.len() >= nt || arcs.is_empty() { done = true } else { let l = idx.len() + 1; idx = vec![0; l]; } break; }
                        p -= 1;
                        idx[p] += 1;
                        if idx[p] < arcs.len() { break; }
                        idx[p] = 0;
                    }
                    if done { break; }
                }
            }
        }
    }
}

pub struct Fail { pub case: String, pub msg: String }
pub struct Ctx {
    pub prop: String, pub seed: u64, pub thorough: bool,
    pub evals: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>, pub fail: Option<Fail>,
    pub known: BTreeSet<String>, pub sections: Vec<(String, u64, f64)>,
    watch: Arc<(AtomicU64, Mutex<String>)>, start: Instant, sec: (String, u64, Instant), pub limit: Duration, trace: Option<String>,
}
pub const CASE_TIMEOUT: u64 = 120;

impl Ctx {
    pub fn new(prop: &str, seed: u64, thorough: bool) -> Self {
        let watch = Arc::new((AtomicU64::new(0), Mutex::new(String::new())));
        let w2 = watch.clone();
        let p2 = prop.to_string();
        std::thread::spawn(move || {
            let mut last = (0u64, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let c = w2.0.load(Ordering::SeqCst);
                if c != last.0 { last = (c, Instant::now()); continue; }
                if c % 2 == 1 && last.1.elapsed() > Duration::from_secs(CASE_TIMEOUT) {
                    let case = w2.1.lock().unwrap().clone();
                    println!("{{\"property\":{},\"ok\":false,\"evaluations\":{},\"distinct\":{},\"samples\":[],\"sections\":[],\"known\":[],\"fail\":{{\"case\":{},\"msg\":{}}}}}", js(&p2), c / 2 + 1, c / 2 + 1, js(&case), js(&format!("the call did not return within {} s", CASE_TIMEOUT)));
                    std::process::exit(0);
                }
            }
        });
        std::panic::set_hook(Box::new(|_| {}));
        Ctx { prop: prop.into(), seed, thorough, evals: 0, distinct: HashSet::new(), samples: vec![], fail: None, known: BTreeSet::new(), sections: vec![], watch, start: Instant::now(), sec: ("".into(), 0, Instant::now()), limit: Duration::from_secs(if thorough { 1500 } else { 90 }), trace: std::env::var("VH_TRACE").ok() }
    }
    pub fn rng(&self, tag: u64) -> R { R::seed_from_u64(self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ tag) }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough * 2 } else { quick * 4 } }
    pub fn go(&self) -> bool { self.fail.is_none() && self.start.elapsed() < self.limit }
    pub fn section(&mut self, name: &str) {
        let s = std::mem::replace(&mut self.sec, (name.to_string(), self.evals, Instant::now()));
        if s.0.is_empty() { return; }
        let (n, t) = (self.evals - s.1, s.2.elapsed().as_secs_f64());
        match self.sections.iter_mut().find(|x| x.0 == s.0) { Some(x) => { x.1 += n; x.2 += t; } None => self.sections.push((s.0, n, t)) }
    }
    /// One evaluation: the contract `f` on the case `desc`. A panic of the code under test is a failure.
    pub fn case(&mut self, desc: String, nontrivial: bool, f: impl FnOnce() -> Res) -> bool {
        if self.fail.is_some() { return false; }
        self.evals += 1;
        let desc = format!("[{}] {}", self.sec.0, desc);
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.distinct.insert(h.finish()) && self.samples.len() < 12 && self.distinct.len() % 997 == 1 { self.samples.push(desc.clone()); }
        }
        *self.watch.1.lock().unwrap() = desc.clone();
        if let Some(p) = &self.trace { let _ = std::fs::write(p, &desc); }
        self.watch.0.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.watch.0.fetch_add(1, Ordering::SeqCst);
        let msg = match r {
            Ok(Ok(())) => return true,
            Ok(Err(m)) => m,
            Err(p) => format!("panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())),
        };
        if let Some(k) = msg.strip_prefix("KNOWN:") { self.known.insert(k.split(' ').next().unwrap().to_string()); return true; }
        if std::env::var("VH_ALL").is_ok() {
            // triage mode: list the first failure of each kind and go on
            let k = format!("{}|{}", self.sec.0, msg.split(|c: char| c == ':' || c == '(').next().unwrap());
            if self.known.insert(k) { eprintln!("FAIL {}\n   {}\n", desc, msg); }
            return true;
        }
        self.fail = Some(Fail { case: desc, msg });
        false
    }
    pub fn report(&mut self) -> String {
        self.section("");
        let secs: Vec<String> = self.sections.iter().map(|(n, e, t)| format!("{{\"name\":{},\"evaluations\":{},\"wall_s\":{:.2}}}", js(n), e, t)).collect();
        let f = match &self.fail { None => "null".into(), Some(f) => format!("{{\"case\":{},\"msg\":{}}}", js(&f.case), js(&f.msg)) };
        format!("{{\"property\":{},\"ok\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"sections\":[{}],\"known\":[{}],\"truncated\":{},\"fail\":{}}}",
            js(&self.prop), self.fail.is_none(), self.evals, self.distinct.len(),
            self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), secs.join(","),
            self.known.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), self.start.elapsed() >= self.limit, f)
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

/// Three ways the same machine reaches an algorithm: flags as construction leaves them, all flags known, no flags known.
pub fn variant<W: Semiring>(g: &G<W>, k: usize) -> VectorFst<W> {
    let mut f = g.vfst();
    match k % 3 { 0 => {} 1 => f.set_properties(crate::c02::truth(g)), _ => f.set_properties(rustfst::fst_properties::FstProperties::empty()) }
    f
}
pub fn l_union<W: Semiring>(a: &Lang<W>, b: &Lang<W>) -> Lang<W> {
    let mut o = a.clone();
    for (k, w) in b { let e = o.entry(k.clone()).or_insert_with(W::zero); *e = pl(e, w); }
    o.retain(|_, w| !w.is_zero());
    o
}
pub fn l_concat<W: Semiring>(a: &Lang<W>, b: &Lang<W>, k: usize) -> Lang<W> {
    let mut o: Lang<W> = BTreeMap::new();
    for ((i, p), w) in a { for ((j, q), v) in b {
        if i.len() + j.len() > k || p.len() + q.len() > k { continue; }
        let key = ([&i[..], &j[..]].concat(), [&p[..], &q[..]].concat());
        let x = ti(w, v);
        let e = o.entry(key).or_insert_with(W::zero);
        *e = pl(e, &x);
    } }
    o.retain(|_, w| !w.is_zero());
    o
}
/// a+ : sum of the powers of a, idempotent semirings
pub fn l_plus<W: Semiring>(a: &Lang<W>, k: usize) -> Lang<W> {
    let mut tot = a.clone();
    let mut pw = a.clone();
    loop {
        pw = l_concat(&pw, a, k);
        let n = l_union(&tot, &pw);
        if n == tot { return tot; }
        tot = n;
    }
}
pub fn l_eps<W: Semiring>() -> Lang<W> { let mut m = BTreeMap::new(); m.insert((vec![], vec![]), W::one()); m }
pub fn l_map<W: Semiring, V: Semiring>(a: &Lang<W>, f: impl Fn(&Vec<u32>, &Vec<u32>, &W) -> (Vec<u32>, Vec<u32>, V)) -> Lang<V> {
    let mut o: Lang<V> = BTreeMap::new();
    for ((i, p), w) in a { let (x, y, v) = f(i, p, w); let e = o.entry((x, y)).or_insert_with(V::zero); *e = pl(e, &v); }
    o.retain(|_, w| !w.is_zero());
    o
}
/// The machine on the states in `keep`, in order.
pub fn restrict<W: Semiring>(g: &G<W>, keep: &[bool]) -> G<W> {
    let v: Vec<u32> = (0..g.n() as u32).filter(|q| !keep[*q as usize]).collect();
    let mut h = g.clone();
    crate::c01::mdel(&mut h, &v);
    h
}
/// The machine with state q renamed to perm[q].
pub fn permute<W: Semiring>(g: &G<W>, perm: &[u32]) -> G<W> {
    let mut h = g.clone();
    h.start = g.start.map(|s| perm[s as usize]);
    for q in 0..g.n() {
        h.fin[perm[q] as usize] = g.fin[q].clone();
        h.trs[perm[q] as usize] = g.trs[q].iter().map(|a| A { n: perm[a.n as usize], ..a.clone() }).collect();
    }
    h
}
pub fn key<W: Semiring>(a: &A<W>) -> (u32, u32, u32, String) { (a.i, a.o, a.n, format!("{:?}", a.w)) }
pub fn multiset<W: Semiring>(t: &[A<W>]) -> Vec<(u32, u32, u32, String)> { let mut v: Vec<_> = t.iter().map(key).collect(); v.sort(); v }
/// Is there a bijection of states that carries a to b (start, final weights, multisets of transitions)? Small machines.
pub fn isomorphic_g<W: Semiring>(a: &G<W>, b: &G<W>) -> bool {
    if a.n() != b.n() || a.start.is_some() != b.start.is_some() || a.ntrs() != b.ntrs() { return false; }
    fn go<W: Semiring>(a: &G<W>, b: &G<W>, m: &mut Vec<u32>, used: &mut Vec<bool>) -> bool {
        let q = m.len();
        if q == a.n() { let p = permute(a, m); return p.start == b.start && p.fin == b.fin && (0..b.n()).all(|s| multiset(&p.trs[s]) == multiset(&b.trs[s])); }
        for t in 0..b.n() {
            if used[t] || a.fin[q] != b.fin[t] || a.trs[q].len() != b.trs[t].len() || (a.start == Some(q as u32)) != (b.start == Some(t as u32)) { continue; }
            used[t] = true; m.push(t as u32);
            if go(a, b, m, used) { return true; }
            m.pop(); used[t] = false;
        }
        false
    }
    go(a, b, &mut vec![], &mut vec![false; b.n()])
}

/// Weight of every pair of strings as the sum over single paths (acyclic machines; no distributivity needed).
pub fn lang_paths<W: Semiring>(g: &G<W>) -> Lang<W> {
    fn go<W: Semiring>(g: &G<W>, q: u32, i: &mut Vec<u32>, o: &mut Vec<u32>, w: &W, out: &mut Lang<W>) {
        if let Some(f) = &g.fin[q as usize] { let x = ti(w, f); if !x.is_zero() { let e = out.entry((i.clone(), o.clone())).or_insert_with(W::zero); *e = pl(e, &x); } }
        for a in &g.trs[q as usize] {
            if a.i != 0 { i.push(a.i) } if a.o != 0 { o.push(a.o) }
            go(g, a.n, i, o, &ti(w, &a.w), out);
            if a.i != 0 { i.pop(); } if a.o != 0 { o.pop(); }
        }
    }
    let mut out = BTreeMap::new();
    if let Some(s) = g.start { go(g, s, &mut vec![], &mut vec![], &W::one(), &mut out) }
    out.retain(|_, w| !w.is_zero());
    out
}
