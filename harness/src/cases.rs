//! One case = one evaluation of a contract against the real crate on generated inputs.
use crate::ck;
use crate::util::*;
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter, Value, ValueRef};
use radixdb::store::{BlobStore, Detached, MemStore, NoError, PagedFileStore};
use radixdb::RadixTree;
use std::fmt::Write;

/// what a case gets: randomness, a size hint, the index for exhaustive modes, and a log for the report
pub struct Cx {
    pub r: Rng,
    pub size: usize,
    pub log: String,
    /// forced (a, b) key sets in the exhaustive part
    pub small: Option<(u64, u64)>,
}

pub const SMALL: [&[u8]; 7] = [b"", b"a", b"b", b"aa", b"ab", b"ba", b"aab"];

pub fn small_map(bits: u64, tag: u8) -> M {
    let mut m = M::new();
    for (i, k) in SMALL.iter().enumerate() {
        if bits >> i & 1 == 1 { m.insert(k.to_vec(), if i % 3 == 2 { vec![] } else { vec![tag, i as u8] }); }
    }
    m
}

impl Cx {
    pub fn pair(&mut self) -> (M, M, Style) {
        if let Some((a, b)) = self.small {
            let st = Style::fixed(0);
            return (small_map(a, 1), small_map(b, 2), st);
        }
        let st = Style::new(&mut self.r);
        let a = gen(&mut self.r, &st, self.size);
        let mut b = if self.r.chance(1, 2) { perturb(&mut self.r, &a, &st, self.size) } else { gen(&mut self.r, &st, self.size) };
        if self.r.chance(1, 3) {
            // values of the same length, but different
            for (k, v) in b.iter_mut() { if let Some(w) = a.get(k) { if self.r.chance(2, 3) { *v = w.iter().map(|x| x ^ 0x20).collect(); } } }
        }
        if self.r.chance(1, 4) { (b, a, st) } else { (a, b, st) }
    }
    fn how<S: St>(&mut self) -> usize {
        self.r.below(S::hows())
    }
    fn mk<S: St>(&mut self, s: &S, m: &M, name: &str) -> R<RT<S>> {
        let how = self.how::<S>();
        let _ = writeln!(self.log, "{} = {} tree, construction {}, content {}", name, S::NAME, how, hm(m));
        s.mk(m, how, &mut self.r)
    }
    pub fn uni(&mut self, ms: &[&M], extra: &[K]) -> Vec<K> {
        universe(&mut self.r, ms, extra)
    }
}

macro_rules! stores {
    ($c:expr, $f:ident) => {
        match $c.r.below(8) {
            0..=3 => $f::<Detached>($c),
            4..=5 => $f::<MemStore>($c),
            6 => $f::<VStore>($c),
            _ => $f::<PagedFileStore>($c),
        }
    };
}
macro_rules! stores_attached {
    ($c:expr, $f:ident) => {
        match $c.r.below(4) {
            0..=1 => $f::<MemStore>($c),
            2 => $f::<VStore>($c),
            _ => $f::<PagedFileStore>($c),
        }
    };
}

// ------------------------------------------------------------------ map semantics
pub fn map_ops(c: &mut Cx) -> R { stores!(c, map_ops_s) }
fn map_ops_s<S: St>(c: &mut Cx) -> R {
    let (a, b, st) = c.pair();
    let s = S::fresh(&mut c.r);
    let mut t = c.mk(&s, &a, "t")?;
    let mut m = a.clone();
    let u = c.uni(&[&a, &b], &[]);
    same::<S>(&t, &m, &u, "initial content")?;
    let bk: Vec<(K, Vec<u8>)> = b.into_iter().collect();
    let n = if st_big(&m) { 4 } else { 2 + c.r.below(c.size + 2) };
    for _ in 0..n {
        match c.r.below(5) {
            0 | 1 => {
                let k = if !bk.is_empty() && c.r.chance(2, 3) { c.r.pick(&bk).0.clone() } else { c.r.pick(&u).clone() };
                let tag = c.r.next();
                let v = val(&mut c.r, tag);
                let _ = writeln!(c.log, "insert({}, {})", h(&k), h(&v));
                S::insert(&mut t, &k, &v)?;
                m.insert(k, v);
            }
            2 | 3 => {
                let k = if !m.is_empty() && c.r.chance(3, 4) { let i = c.r.below(m.len()); m.keys().nth(i).unwrap().clone() } else { c.r.pick(&u).clone() };
                let _ = writeln!(c.log, "remove({})", h(&k));
                S::remove(&mut t, &k)?;
                m.remove(&k);
            }
            _ => {
                let k = st.key(&mut c.r);
                let _ = writeln!(c.log, "get/contains({})", h(&k));
                ck!(S::get(&t, &k)?.as_ref() == m.get(&k), "get({}) wrong", h(&k));
            }
        }
        if !st_big(&m) || c.r.chance(1, 4) {
            same::<S>(&t, &m, &u, "after operation")?;
            for k in &u {
                let x = S::contains(&t, k)?;
                ck!(x == m.contains_key(k), "contains_key({}) = {} expected {}", h(k), x, m.contains_key(k));
            }
            ck!(t.is_empty() == m.is_empty(), "is_empty() = {} for {}", t.is_empty(), hm(&m));
        }
    }
    same::<S>(&t, &m, &u, "final content")?;
    for (k, v) in &m {
        ck!(S::get(&t, k)?.as_ref() == Some(v), "get({}) lost", h(k));
        ck!(S::contains(&t, k)?, "contains_key({}) false", h(k));
    }
    Ok(())
}
fn st_big(m: &M) -> bool { m.len() > 30 }

// ------------------------------------------------------------------ ordered traversal
pub fn ordered(c: &mut Cx) -> R { stores!(c, ordered_s) }
fn ordered_s<S: St>(c: &mut Cx) -> R {
    let (a, _, _) = c.pair();
    let s = S::fresh(&mut c.r);
    let t = c.mk(&s, &a, "t")?;
    let exp: Vec<(K, Vec<u8>)> = a.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let es = S::entries(&t)?;
    ck!(es == exp, "iter: {} expected {}", hv(&es), hv(&exp));
    let vs = S::vals(&t)?;
    ck!(vs == exp.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "values: {:?}", vs.iter().map(|x| h(x)).collect::<Vec<_>>());
    let p: Vec<u8> = (0..c.r.below(4)).map(|i| i as u8 + 100).collect();
    let ends = S::ends(&t, &p)?;
    let add = |x: Option<&(K, Vec<u8>)>| x.map(|(k, v)| { let mut q = p.clone(); q.extend(k); (q, v.clone()) });
    ck!(ends[0] == add(exp.first()), "first_entry {:?}", ends[0]);
    ck!(ends[1] == add(exp.last()), "last_entry {:?}", ends[1]);
    ck!(ends[2].as_ref().map(|x| &x.1) == exp.first().map(|x| &x.1), "first_value {:?}", ends[2]);
    ck!(ends[3].as_ref().map(|x| &x.1) == exp.last().map(|x| &x.1), "last_value {:?}", ends[3]);
    Ok(())
}

// ------------------------------------------------------------------ prefix queries
pub fn prefix(c: &mut Cx) -> R { stores!(c, prefix_s) }
fn prefix_s<S: St>(c: &mut Cx) -> R {
    let (a, b, _) = c.pair();
    let s = S::fresh(&mut c.r);
    let t = c.mk(&s, &a, "t")?;
    let mut u = c.uni(&[&a, &b], &[]);
    if u.len() > 60 { c.r.shuffle(&mut u); u.truncate(60); }
    for p in &u {
        let exp: Vec<(K, Vec<u8>)> = a.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
        let x = S::has_prefix(&t, p)?;
        ck!(x == !exp.is_empty(), "has_prefix({}) = {} on {}", h(p), x, hm(&a));
        let sc = S::scan(&t, p)?;
        ck!(sc == exp, "scan_prefix({}) = {} expected {}", h(p), hv(&sc), hv(&exp));
        let sub: Vec<u8> = match c.r.below(4) { 0 => vec![], 1 => p.clone(), 2 => vec![b'X'], _ => { let n = *c.r.pick(&[2usize, 8, 9, 127, 128, 130]); vec![7u8; n] } };
        let f = S::filter(&t, p, &sub)?;
        let fm: M = exp.iter().map(|(k, v)| { let mut q = sub.clone(); q.extend(&k[p.len()..]); (q, v.clone()) }).collect();
        let fu = c.uni(&[&fm], &[sub.clone(), p.clone()]);
        same::<S>(&f, &fm, &fu, &format!("filter_prefix({}, {})", h(p), h(&sub)))?;
        // the result must be an ordinary tree: insert into it
        let mut f2 = f.clone();
        let k = c.r.pick(&fu).clone();
        S::insert(&mut f2, &k, b"new")?;
        let mut fm2 = fm.clone();
        fm2.insert(k.clone(), b"new".to_vec());
        same::<S>(&f2, &fm2, &fu, &format!("filter_prefix({}, {}) then insert({})", h(p), h(&sub), h(&k)))?;
        let mut g = t.clone();
        S::remove_prefix(&mut g, p)?;
        let gm: M = a.iter().filter(|(k, _)| !k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect();
        same::<S>(&g, &gm, &u, &format!("remove_prefix({})", h(p)))?;
    }
    same::<S>(&t, &a, &u, "receiver changed by prefix queries")?;
    Ok(())
}

// ------------------------------------------------------------------ combines
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op { Outer, Inner, Left }

fn fmodel(fv: usize, a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    match fv {
        0 => Some(a.to_vec()),
        1 => Some(b.to_vec()),
        2 => None,
        3 => { let mut v = a.to_vec(); v.extend_from_slice(b); Some(v) }
        _ => if (a.len() + b.len()) % 2 == 0 { None } else { Some(b.to_vec()) },
    }
}
fn pmodel(pv: usize, a: &[u8], b: &[u8]) -> bool {
    match pv { 0 => true, 1 => false, 2 => a != b, _ => (a.len() + b.len()) % 2 == 0 }
}
fn model(op: Op, a: &M, b: &M, fv: usize) -> M {
    let mut o = M::new();
    for (k, v) in a {
        match b.get(k) {
            Some(w) => if let Some(x) = fmodel(fv, v, w) { o.insert(k.clone(), x); },
            None => if op != Op::Inner { o.insert(k.clone(), v.clone()); },
        }
    }
    if op == Op::Outer {
        for (k, w) in b { if !a.contains_key(k) { o.insert(k.clone(), w.clone()); } }
    }
    o
}
fn load<S: BlobStore>(v: &ValueRef<S>, s: &S) -> Vec<u8> {
    v.to_owned().load(s).map_err(|e| format!("{:?}", e)).expect("value load").to_vec()
}
fn mkval(x: Vec<u8>) -> Value {
    // a detached value with the given bytes
    RadixTree::single("", x).get("").unwrap()
}

fn combine2<A: St, B: St>(c: &mut Cx, op: Op, sa: A, sb: B) -> R
where
    anyhow::Error: From<A::Error> + From<B::Error>,
{
    let (am, bm, _) = c.pair();
    let a = c.mk(&sa, &am, "a")?;
    let b = c.mk(&sb, &bm, "b")?;
    let u = c.uni(&[&am, &bm], &[]);
    let fv = c.r.below(5);
    let _ = writeln!(c.log, "{:?} combine, f variant {}", op, fv);
    let f = |x: &ValueRef<A>, y: &ValueRef<B>| -> anyhow::Result<Option<Value>> { Ok(fmodel(fv, &load(x, &sa), &load(y, &sb)).map(mkval)) };
    let r = e(match op {
        Op::Outer => a.try_outer_combine(&b, f),
        Op::Inner => a.try_inner_combine(&b, f),
        Op::Left => a.try_left_combine(&b, f),
    })?;
    let exp = model(op, &am, &bm, fv);
    same::<Detached>(&r, &exp, &u, "combine result")?;
    same::<A>(&a, &am, &u, "left operand changed")?;
    same::<B>(&b, &bm, &u, "right operand changed")?;
    let pv = c.r.below(4);
    let p = |x: &ValueRef<A>, y: &ValueRef<B>| -> anyhow::Result<bool> { Ok(pmodel(pv, &load(x, &sa), &load(y, &sb))) };
    match op {
        Op::Inner => {
            let x = e(a.try_inner_combine_pred(&b, p))?;
            let y = am.iter().any(|(k, v)| bm.get(k).map(|w| pmodel(pv, v, w)).unwrap_or(false));
            ck!(x == y, "inner_combine_pred (variant {}) = {} expected {}", pv, x, y);
        }
        Op::Left => {
            let x = e(a.try_left_combine_pred(&b, p))?;
            let y = am.iter().any(|(k, v)| bm.get(k).map(|w| pmodel(pv, v, w)).unwrap_or(true));
            ck!(x == y, "left_combine_pred (variant {}) = {} expected {}", pv, x, y);
        }
        _ => {}
    }
    // the result must be an ordinary tree
    canon(&r, &exp, "combine result")
}

fn inplace<A: St, B: St, C: radixdb::node::NodeConverter<B, A> + Clone>(c: &mut Cx, op: Op, sa: A, sb: B, cv: C) -> R
where
    A::Error: From<B::Error> + From<NoError>,
{
    let (am, bm, _) = c.pair();
    let mut a = c.mk(&sa, &am, "a")?;
    let b = c.mk(&sb, &bm, "b")?;
    let u = c.uni(&[&am, &bm], &[]);
    let fv = c.r.below(5);
    let _ = writeln!(c.log, "{:?} combine_with in place, f variant {}", op, fv);
    let f = |x: &mut Value<A>, y: &ValueRef<B>| -> Result<(), A::Error> {
        let xv = x.load(&sa).map_err(|e| format!("{:?}", e)).expect("value load").to_vec();
        match fmodel(fv, &xv, &load(y, &sb)) {
            None => x.set(None),
            Some(_) if fv == 0 => {}
            Some(v) => { let t = RadixTree::single("", &v); let w = t.value().unwrap(); x.set(Some(w.downcast::<A>())); }
        }
        Ok(())
    };
    let keep = a.clone();
    e(match op {
        Op::Outer => a.try_outer_combine_with(&b, cv, f),
        Op::Inner => a.try_inner_combine_with(&b, cv, f),
        Op::Left => a.try_left_combine_with(&b, cv, f),
    })?;
    let exp = model(op, &am, &bm, fv);
    same::<A>(&a, &exp, &u, "combine_with result")?;
    same::<B>(&b, &bm, &u, "argument changed")?;
    same::<A>(&keep, &am, &u, "earlier clone of receiver changed")?;
    canon(&A::detach(&a)?, &exp, "combine_with result")
}

fn wrappers(c: &mut Cx, op: Op) -> R {
    // the infallible wrappers on detached trees
    let (am, bm, _) = c.pair();
    let mut a = c.mk(&Detached, &am, "a")?;
    let b = c.mk(&Detached, &bm, "b")?;
    let u = c.uni(&[&am, &bm], &[]);
    let fv = c.r.below(5);
    let pv = c.r.below(4);
    let _ = writeln!(c.log, "{:?} infallible wrappers, f variant {}, predicate variant {}", op, fv, pv);
    let f = |x: &ValueRef, y: &ValueRef| fmodel(fv, x.data().unwrap(), y.data().unwrap()).map(mkval);
    let p = |x: &ValueRef, y: &ValueRef| pmodel(pv, x.data().unwrap(), y.data().unwrap());
    let g = |x: &mut Value, y: &ValueRef| {
        let v = fmodel(fv, x.as_ref(), y.data().unwrap());
        match v { None => x.set(None), Some(_) if fv == 1 => x.set(Some(y)), Some(v) => { let t = RadixTree::single("", &v); let w = t.value().unwrap(); x.set(Some(&w)); } }
    };
    let exp = model(op, &am, &bm, fv);
    let r = match op { Op::Outer => a.outer_combine(&b, f), Op::Inner => a.inner_combine(&b, f), Op::Left => a.left_combine(&b, f) };
    same::<Detached>(&r, &exp, &u, "wrapper result")?;
    match op {
        Op::Inner => { let y = am.iter().any(|(k, v)| bm.get(k).map(|w| pmodel(pv, v, w)).unwrap_or(false)); ck!(a.inner_combine_pred(&b, p) == y, "inner_combine_pred wrapper"); }
        Op::Left => { let y = am.iter().any(|(k, v)| bm.get(k).map(|w| pmodel(pv, v, w)).unwrap_or(true)); ck!(a.left_combine_pred(&b, p) == y, "left_combine_pred wrapper"); }
        _ => {}
    }
    match op { Op::Outer => a.outer_combine_with(&b, g), Op::Inner => a.inner_combine_with(&b, g), Op::Left => a.left_combine_with(&b, g) }
    same::<Detached>(&a, &exp, &u, "in place wrapper result")?;
    ck!(a == r, "in place and functional combine differ structurally: {}", hm(&exp));
    Ok(())
}

fn combine(c: &mut Cx, op: Op) -> R {
    let m = MemStore::default();
    match c.r.below(16) {
        0 => wrappers(c, op),
        1 | 2 => combine2(c, op, Detached, Detached),
        3 => combine2(c, op, m.clone(), Detached),
        4 => combine2(c, op, Detached, m),
        5 => combine2(c, op, m.clone(), m),
        6 => { let v = VStore::fresh(&mut c.r); combine2(c, op, m, v) }
        7 => { let v = PagedFileStore::fresh(&mut c.r); combine2(c, op, v.clone(), v) }
        8 | 9 => inplace(c, op, Detached, Detached, DetachConverter),
        10 => inplace(c, op, Detached, Detached, IdentityConverter),
        11 => inplace(c, op, m, Detached, DowncastConverter),
        12 => inplace(c, op, m.clone(), m, IdentityConverter),
        13 => inplace(c, op, m, MemStore::default(), DetachConverter),
        14 => { let v = VStore::fresh(&mut c.r); inplace(c, op, Detached, v, DetachConverter) }
        _ => { let v = PagedFileStore::fresh(&mut c.r); inplace(c, op, v, m, DetachConverter) }
    }
}
pub fn outer(c: &mut Cx) -> R { combine(c, Op::Outer) }
pub fn inner(c: &mut Cx) -> R { combine(c, Op::Inner) }
pub fn left(c: &mut Cx) -> R { combine(c, Op::Left) }

// ------------------------------------------------------------------ retain / remove by prefix set
fn bulk2<A: St, B: St>(c: &mut Cx, sa: A, sb: B) -> R
where
    A::Error: From<B::Error> + From<NoError>,
{
    let (am, bm, _) = c.pair();
    let a = c.mk(&sa, &am, "a")?;
    let b = c.mk(&sb, &bm, "b")?;
    let u = c.uni(&[&am, &bm], &[]);
    let fv = c.r.below(4);
    let pm = |v: &[u8]| match fv { 0 => true, 1 => false, 2 => v.len() % 2 == 0, _ => v.is_empty() };
    let f = |v: &ValueRef<B>| -> Result<bool, A::Error> { Ok(pm(&load(v, &sb))) };
    let _ = writeln!(c.log, "retain/remove_prefix_with, predicate variant {}", fv);
    let hit = |k: &[u8]| (0..=k.len()).any(|n| bm.get(&k[..n]).map(|v| pm(v)).unwrap_or(false));
    for keep in [true, false] {
        let mut t = a.clone();
        e(if keep { t.try_retain_prefix_with(&b, f) } else { t.try_remove_prefix_with(&b, f) })?;
        let exp: M = am.iter().filter(|(k, _)| hit(k) == keep).map(|(k, v)| (k.clone(), v.clone())).collect();
        let n = if keep { "retain_prefix_with" } else { "remove_prefix_with" };
        same::<A>(&t, &exp, &u, n)?;
        canon(&A::detach(&t)?, &exp, n)?;
    }
    same::<A>(&a, &am, &u, "earlier clone changed")?;
    same::<B>(&b, &bm, &u, "argument changed")
}
pub fn bulk(c: &mut Cx) -> R {
    let m = MemStore::default();
    match c.r.below(8) {
        0..=2 => bulk2(c, Detached, Detached),
        3 => {
            let (am, bm, _) = c.pair();
            let a = c.mk(&Detached, &am, "a")?;
            let b = c.mk(&Detached, &bm, "b")?;
            let u = c.uni(&[&am, &bm], &[]);
            let hit = |k: &[u8]| (0..=k.len()).any(|n| bm.get(&k[..n]).map(|v| v.len() != 1).unwrap_or(false));
            let (mut x, mut y) = (a.clone(), a.clone());
            x.retain_prefix_with(&b, |v| v.data().unwrap().len() != 1);
            y.remove_prefix_with(&b, |v| v.data().unwrap().len() != 1);
            same::<Detached>(&x, &am.iter().filter(|(k, _)| hit(k)).map(|(k, v)| (k.clone(), v.clone())).collect(), &u, "retain wrapper")?;
            same::<Detached>(&y, &am.iter().filter(|(k, _)| !hit(k)).map(|(k, v)| (k.clone(), v.clone())).collect(), &u, "remove wrapper")
        }
        4 => bulk2(c, m, Detached),
        5 => bulk2(c, m.clone(), m),
        6 => { let v = VStore::fresh(&mut c.r); bulk2(c, Detached, v) }
        _ => { let v = VStore::fresh(&mut c.r); bulk2(c, m, v) }
    }
}

// ------------------------------------------------------------------ group_by
pub fn group(c: &mut Cx) -> R { stores!(c, group_s) }
fn group_s<S: St>(c: &mut Cx) -> R {
    let (am, _, _) = c.pair();
    let s = S::fresh(&mut c.r);
    let t = c.mk(&s, &am, "t")?;
    let lim = c.r.below(5);
    let mode = c.r.below(4);
    let _ = writeln!(c.log, "group_by mode {} limit {}", mode, lim);
    let desc = |p: &[u8]| -> bool { match mode { 0 => p.len() < lim, 1 => true, 2 => false, _ => p.len() * 7 % 3 != 1 } };
    let seen = std::cell::RefCell::new(Vec::<K>::new());
    let mut groups: Vec<RT<S>> = vec![];
    for g in t.try_group_by(|p, _| { seen.borrow_mut().push(p.to_vec()); Ok(desc(p)) }).take(LIMIT) { groups.push(e(g)?); }
    // every entry in exactly one group, in key order
    let mut all = vec![];
    for g in &groups {
        let es = S::entries(g)?;
        if am.is_empty() { continue; }
        ck!(!es.is_empty(), "empty group");
        // a group is an ordinary tree
        let gm: M = es.iter().cloned().collect();
        let gu: Vec<K> = gm.keys().cloned().collect();
        same::<S>(g, &gm, &gu, "group")?;
        // either a single entry at a descended branch, or everything below a branch not descended into
        let p = common(&es);
        let below = am.iter().filter(|(k, _)| k.starts_with(&p)).count();
        let whole = es.len() == below && !desc(&p);
        let single = es.len() == 1 && desc(&p);
        ck!(whole || single, "group {} with prefix {} is neither a complete branch nor a single entry", hv(&es), h(&p));
        all.extend(es);
    }
    let exp: Vec<(K, Vec<u8>)> = am.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ck!(all == exp, "groups put together: {} expected {}", hv(&all), hv(&exp));
    // all branch paths above a group were descended into
    for g in &groups {
        let es = S::entries(g)?;
        let p = common(&es);
        for q in seen.borrow().iter() {
            ck!(am.is_empty() || !(p.starts_with(q) && q.len() < p.len()) || desc(q), "descended below {} although the predicate said no", h(q));
        }
    }
    Ok(())
}
fn common(es: &[(K, Vec<u8>)]) -> K {
    if es.is_empty() { return vec![]; }
    let (a, b) = (&es[0].0, &es[es.len() - 1].0);
    let n = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    a[..n].to_vec()
}

// ------------------------------------------------------------------ canonical form / equality
pub fn canon(t: &RadixTree, m: &M, what: &str) -> R {
    let p = plain(m);
    ck!(t == &p, "{}: tree with content {} differs from a tree built by inserting that content", what, hm(m));
    ck!(&p == t, "{}: equality not symmetric", what);
    Ok(())
}
pub fn equality(c: &mut Cx) -> R {
    let (am, bm, _) = c.pair();
    let a = c.mk(&Detached, &am, "a")?;
    let a2 = c.mk(&Detached, &am, "a2")?;
    let mut bm = bm;
    if c.r.chance(1, 2) {
        // minimal difference
        bm = am.clone();
        if !bm.is_empty() {
            let k = { let i = c.r.below(bm.len()); bm.keys().nth(i).unwrap().clone() };
            match c.r.below(4) {
                0 => { bm.remove(&k); }
                1 => { bm.insert(k, vec![]); }
                2 => { let mut q = k.clone(); q.push(0); bm.insert(q, vec![]); }
                _ => { let mut q = k.clone(); let n = c.r.below(q.len() + 1); q.truncate(n); bm.entry(q).or_insert(vec![]); }
            }
        } else { bm.insert(vec![], vec![]); }
    }
    let b = c.mk(&Detached, &bm, "b")?;
    ck!(a == a2 && a2 == a, "trees with equal content are not equal");
    ck!((a == b) == (am == bm), "a == b is {} but contents {} / {}", a == b, hm(&am), hm(&bm));
    ck!((b == a) == (am == bm), "b == a is {}", b == a);
    // histories: every mutating operation leaves the canonical tree
    let mut t = a.clone();
    let mut m = am.clone();
    for _ in 0..3 {
        match c.r.below(5) {
            0 => { for (k, v) in &bm { t.insert(k, v); m.insert(k.clone(), v.clone()); } }
            1 => { for k in bm.keys() { t.remove(k); m.remove(k); } }
            2 => { if let Some(k) = bm.keys().next() { let n = c.r.below(k.len() + 1); t.remove_prefix(&k[..n]); m.retain(|q, _| !q.starts_with(&k[..n])); } }
            3 => { let s = MemStore::default(); let mut x = e(t.try_attached(s.clone()))?; if c.r.chance(1, 2) { let id = e(x.try_reattach())?; x = e(RadixTree::try_load(s, Some(id)))?; } t = e(x.try_detached())?; }
            _ => { let p: Vec<u8> = bm.keys().next().map(|k| k[..c.r.below(k.len() + 1)].to_vec()).unwrap_or_default(); t = t.filter_prefix(&p, b"s"); m = m.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| { let mut q = b"s".to_vec(); q.extend(&k[p.len()..]); (q, v.clone()) }).collect(); }
        }
        canon(&t, &m, "after operation history")?;
        ck!(t.is_empty() == m.is_empty(), "is_empty");
    }
    let d: RadixTree = t.clone();
    for k in m.keys() { t.remove(k); }
    ck!(t == RadixTree::default() && RadixTree::default() == t && t.is_empty(), "removing everything does not give the empty tree");
    ck!((d == t) == m.is_empty(), "nonempty equals empty");
    Ok(())
}

// ------------------------------------------------------------------ persistence
pub fn persist(c: &mut Cx) -> R { stores_attached!(c, persist_s) }
fn persist_s<S: St>(c: &mut Cx) -> R {
    let (am, bm, _) = c.pair();
    let s = S::fresh(&mut c.r);
    let u = c.uni(&[&am, &bm], &[]);
    let t = c.mk(&s, &am, "t")?;
    // some unrelated blobs in between
    for i in 0..c.r.below(4) { e(s.write(&vec![i as u8; 10 * i]))?; }
    let mut w = t.clone();
    let id = e(w.try_reattach())?;
    same::<S>(&w, &am, &u, "after reattach")?;
    let l = e(RadixTree::try_load(s.clone(), Some(&id)))?;
    same::<S>(&l, &am, &u, "after try_load")?;
    canon(&S::detach(&l)?, &am, "loaded tree")?;
    canon(&S::detach(&w)?, &am, "reattached tree")?;
    same::<S>(&t, &am, &u, "clone of receiver changed by reattach")?;
    // second generation: modify, persist again, both versions stay readable
    let mut x = l.clone();
    let mut m = am.clone();
    for (k, v) in &bm {
        if c.r.chance(1, 3) { S::remove(&mut x, k)?; m.remove(k); } else { S::insert(&mut x, k, v)?; m.insert(k.clone(), v.clone()); }
    }
    let id2 = e(x.try_reattach())?;
    let l2 = e(RadixTree::try_load(s.clone(), Some(&id2)))?;
    same::<S>(&l2, &m, &u, "second generation")?;
    let l1 = e(RadixTree::try_load(s.clone(), Some(&id)))?;
    same::<S>(&l1, &am, &u, "first generation read again")?;
    // detach / attach to another store
    let d = S::detach(&l2)?;
    canon(&d, &m, "detached")?;
    let s2 = VStore::with(9);
    let a2 = e(d.try_attached(s2.clone()))?;
    same::<VStore>(&a2, &m, &u, "attached to second store")?;
    let e0 = e(RadixTree::try_load(s, Option::<Vec<u8>>::None))?;
    same::<S>(&e0, &M::new(), &u, "load None")
}

// ------------------------------------------------------------------ snapshot isolation
pub fn snapshot(c: &mut Cx) -> R { stores!(c, snapshot_s) }
fn snapshot_s<S: St>(c: &mut Cx) -> R {
    let (am, bm, _) = c.pair();
    let s = S::fresh(&mut c.r);
    let u = c.uni(&[&am, &bm], &[]);
    let mut versions: Vec<(RT<S>, M)> = vec![(c.mk(&s, &am, "t")?, am.clone())];
    let t0 = versions[0].0.clone();
    let mut it = t0.try_iter();
    let mut got = vec![];
    let vals: Vec<(Vec<u8>, Value<S>)> = { let mut v = vec![]; for x in t0.try_iter().take(50) { let (k, x) = e(x)?; v.push((k.to_vec(), x)); } v };
    drop(t0);
    let keys: Vec<K> = bm.keys().cloned().collect();
    for i in 0..3 + c.size / 2 {
        if let Some(x) = it.next() { let (k, v) = e(x)?; got.push((k, v)); }
        let j = c.r.below(versions.len());
        let (mut t, mut m) = versions[j].clone();
        let k = if !keys.is_empty() && c.r.chance(1, 2) { c.r.pick(&keys).clone() } else { c.r.pick(&u).clone() };
        match c.r.below(6) {
            0 | 1 => { let v = match m.get(&k) { Some(w) if c.r.chance(1, 2) => w.iter().map(|x| x ^ 0x11).collect(), _ => val(&mut c.r, i as u64 + 77) }; S::insert(&mut t, &k, &v)?; m.insert(k, v); }
            2 => { S::remove(&mut t, &k)?; m.remove(&k); }
            3 => { S::remove_prefix(&mut t, &k)?; m.retain(|q, _| !q.starts_with(&k)); }
            _ => {
                let mut b = c.mk(&s, &bm, "b")?;
                if S::NAME != "Detached" && c.r.chance(1, 3) { e(b.try_reattach())?; }
                let fv = c.r.below(3);
                let g = |x: &mut Value<S>, y: &ValueRef<S>| -> Result<(), S::Error> { match fv { 0 => {} 1 => x.set(Some(y)), _ => x.set(None) } Ok(()) };
                let o = *c.r.pick(&[Op::Outer, Op::Outer, Op::Inner, Op::Left]);
                let _ = writeln!(c.log, "{:?} combine_with in place, f variant {}", o, fv);
                e(match o { Op::Outer => t.try_outer_combine_with(&b, IdentityConverter, g), Op::Inner => t.try_inner_combine_with(&b, IdentityConverter, g), Op::Left => t.try_left_combine_with(&b, IdentityConverter, g) })?;
                m = model(o, &m, &bm, fv);
                same::<S>(&b, &bm, &u, "argument changed")?;
            }
        }
        versions.push((t, m));
        if c.r.chance(1, 4) { let i = c.r.below(versions.len()); if versions.len() > 1 { versions.swap_remove(i); } }
        if versions.len() > 8 { versions.swap_remove(0); }
        for (t, m) in &versions { if m.len() < 40 || c.r.chance(1, 8) { same::<S>(t, m, &u, "a retained version changed")?; } }
    }
    for x in it.take(LIMIT) { let (k, v) = e(x)?; got.push((k, v)); }
    let mut g = vec![];
    for (k, v) in got { g.push((k.to_vec(), e(v.load(&s))?.to_vec())); }
    let exp: Vec<(K, Vec<u8>)> = am.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ck!(g == exp, "iterator over an earlier version yields {} expected {}", hv(&g), hv(&exp));
    for (k, v) in vals { let b = e(v.load(&s))?.to_vec(); ck!(am.get(&k) == Some(&b), "value handle for {} changed to {}", h(&k), h(&b)); }
    Ok(())
}

// ------------------------------------------------------------------ blob stores
pub fn blobs(c: &mut Cx) -> R {
    let n = 1 + c.r.below(4 + c.size * 4);
    match c.r.below(4) {
        0 => blob_hist(c, MemStore::default(), 5000, n),
        _ => {
            let page = if let Some(x) = special(&mut c.r, 1 << 20).filter(|x| *x >= 16) { (x - x % 8) as u64 } else if c.r.chance(1, 20) { *c.r.pick(&[65536u64, 131072, 1 << 20]) } else { *c.r.pick(&[16u64, 24, 64, 128, 1000, 1024, 4096, 16384]) };
            let mut f = tmpfile();
            let mut hist: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            let gens = 1 + c.r.below(3);
            let _ = writeln!(c.log, "PagedFileStore page size {} generations {}", page, gens);
            for g in 0..gens {
                let s = e(PagedFileStore::new(e(f.try_clone())?, page))?;
                let last = s.last_id();
                ck!(last.map(|x| x.to_vec()) == hist.last().map(|x| x.0.clone()), "last_id after (re)open {:?}, expected {:?}", last, hist.last().map(|x| &x.0));
                for (id, d) in &hist { let x = e(s.read(id))?; ck!(x.as_ref() == &d[..], "generation {}: blob {} reads {} expected {}", g, h(id), h(&x), h(d)); }
                blob_hist2(c, &s, page as usize, n, &mut hist, page)?;
                ck!(s.last_id().map(|x| x.to_vec()) == hist.last().map(|x| x.0.clone()), "last_id is not the id of the last write");
                drop(s);
                use std::io::{Seek, SeekFrom};
                let p = *c.r.pick(&[0u64, 16, 4096]);
                let _ = f.seek(SeekFrom::Start(p));
            }
            Ok(())
        }
    }
}
fn blob_hist<S: St>(c: &mut Cx, s: S, max: usize, n: usize) -> R { let mut hist = vec![]; blob_hist2(c, &s, max, n, &mut hist, 0) }
fn blob_hist2<S: St>(c: &mut Cx, s: &S, max: usize, n: usize, hist: &mut Vec<(Vec<u8>, Vec<u8>)>, page: u64) -> R {
    let small = c.r.chance(1, 2);
    for i in 0..n {
        let len = if let Some(x) = special(&mut c.r, max - 8) { x } else if small { c.r.below(20.min(max - 7)) } else if c.r.chance(1, 5) { max - 8 - c.r.below(8.min(max - 8)) } else { c.r.below(max - 7) };
        let data: Vec<u8> = (0..len).map(|j| (i * 31 + j * 7) as u8).collect();
        if page > 0 && c.r.chance(1, 12) {
            let big = page as usize - 8 + 1 + c.r.below(10);
            ck!(s.write(&vec![1; big]).is_err(), "block of {} bytes accepted with page size {}", big, page);
        }
        let id = e(s.write(&data))?;
        ck!(!id.is_empty(), "empty id");
        ck!(hist.iter().all(|x| x.0 != id), "id {} handed out twice", h(&id));
        let _ = writeln!(c.log, "write {} bytes -> {}", len, h(&id));
        hist.push((id, data));
        let k = c.r.below(3);
        for _ in 0..k { let (id, d) = c.r.pick(hist).clone(); let x = e(s.read(&id))?; ck!(x.as_ref() == &d[..], "blob {} reads {} expected {}", h(&id), h(&x), h(&d)); }
        if c.r.chance(1, 6) {
            // ids that were never handed out
            let bad: Vec<u8> = match c.r.below(5) { 0 => vec![], 1 => vec![1, 2, 3], 2 => vec![0; 8], 3 => vec![0xff; 8], _ => vec![0, 0, 0, 0, 0, 0, 0, c.r.below(4) as u8] };
            let bad = if c.r.chance(1, 2) { bad } else {
                // near or beyond everything written; inside it any answer but a panic will do
                let last = u64::from_be_bytes(hist.last().unwrap().0[..].try_into().unwrap());
                let x = match c.r.below(7) { 0 => last + 1, 1 => last + page, 2 => last + c.r.next() % (4 * page + 40), 3 => u64::MAX - c.r.next() % (2 * page + 8), 4 => (page.max(9) * (1 + c.r.next() % 4)).saturating_sub(c.r.next() % 9), 5 => 1 << c.r.below(64), _ => c.r.next() % (last + 1) };
                let bad = x.to_be_bytes().to_vec();
                let r = s.read(&bad);
                ck!(x <= last || r.is_err(), "read({}) beyond everything written succeeds", h(&bad));
                let n = c.r.below(7) + if c.r.chance(1, 3) { 9 } else { 0 };
                vec![1; n]
            };
            if bad.len() != 8 || hist.iter().all(|x| x.0 != bad) { ck!(s.read(&bad).is_err(), "read({}) of an id never handed out succeeds", h(&bad)); }
        }
    }
    let s2 = s.clone();
    for (id, d) in hist.iter() { let x = e(s2.read(id))?; ck!(x.as_ref() == &d[..], "blob {} reads {} expected {}", h(id), h(&x), h(d)); }
    let blobs: Vec<_> = hist.iter().map(|x| s.read(&x.0)).collect();
    e(s.write(b"later"))?; // note: not in hist on purpose when only one generation is used
    hist.push((vec![], vec![])); hist.pop();
    for (b, (id, d)) in blobs.iter().zip(hist.iter()) { if let Ok(b) = b { ck!(b.as_ref() == &d[..], "blob handle {} changed by a later write", h(id)); } }
    // keep the history in step with the last write
    let id = e(s.write(b"last"))?;
    hist.push((id, b"last".to_vec()));
    Ok(())
}

// ------------------------------------------------------------------ untrusted bytes
pub fn malformed(c: &mut Cx) -> R {
    // a tree loaded from arbitrary bytes: an error, or some tree; never a panic, never out of bounds
    let s = VecStore::new();
    let n = c.r.below(14);
    let mut d: Vec<u8> = (0..n).map(|_| if c.r.chance(1, 2) { *c.r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0x81, 0x89, 0x88, 0xff]) } else { c.r.below(256) as u8 }).collect();
    if c.r.chance(1, 2) {
        let (am, _, _) = c.pair();
        let t = e(plain(&am).try_attached(s.clone()))?;
        let id = e(t.clone().try_reattach())?;
        d = e(s.read(&id))?.to_vec();
        match c.r.below(4) {
            0 => { let n = c.r.below(d.len() + 1); d.truncate(n); }
            1 => { if !d.is_empty() { let i = c.r.below(d.len()); d[i] ^= 1 << c.r.below(8); } }
            2 => d.push(c.r.below(256) as u8),
            _ => {}
        }
    }
    let _ = writeln!(c.log, "try_load of bytes {}", h(&d));
    let id = e(s.write(&d))?;
    let ok = parse_one(&d).map(|n| n == d.len()).unwrap_or(false);
    let r = RadixTree::try_load(s.clone(), Some(&id));
    ck!(r.is_ok() == ok, "try_load of {} bytes {:?}: ok={} expected ok={}", d.len(), d, r.is_ok(), ok);
    let bad = RadixTree::try_load(s.clone(), Some(b"no such id"));
    ck!(bad.is_err(), "unknown id loads");
    Ok(())
}
/// a read or write fails in the middle of an operation: the operation says so; what it does not update stays as it was
pub fn faults(c: &mut Cx) -> R {
    let (am, bm, _) = c.pair();
    let s = FStore::fresh(&mut c.r);
    let s2 = if c.r.chance(1, 2) { s.clone() } else { FStore::fresh(&mut c.r) };
    let mut a = c.mk(&s, &am, "a")?;
    let mut b = c.mk(&s2, &bm, "b")?;
    for (t, s) in [(&mut a, &s), (&mut b, &s2)] { if c.r.chance(2, 3) { let id = e(t.try_reattach())?; if c.r.chance(1, 2) { *t = e(RadixTree::try_load(s.clone(), Some(id)))?; } } }
    let u = c.uni(&[&am, &bm], &[]);
    let k = c.r.pick(&u).clone();
    let op = c.r.below(24);
    let n = c.r.below(*c.r.clone().pick(&[1usize, 3, 8, 30])) as u64;
    let tr = c.r.chance(1, 2);
    let fv = c.r.below(5);
    let _ = writeln!(c.log, "operation {} key {} with store access {} failing{}", op, h(&k), n, if tr { " once" } else { "" });
    let snap = a.clone();
    let mut target = false;
    let mut fin: Option<M> = None;
    s.arm(n, tr); s2.arm(n, tr);
    let f = |x: &ValueRef<FStore>, y: &ValueRef<FStore>| -> anyhow::Result<Option<Value>> { Ok(fmodel(fv, &x.to_owned().load(&s)?, &y.to_owned().load(&s2)?).map(mkval)) };
    let p = |x: &ValueRef<FStore>, y: &ValueRef<FStore>| -> anyhow::Result<bool> { Ok(pmodel(fv, &x.to_owned().load(&s)?, &y.to_owned().load(&s2)?)) };
    let g = |x: &mut Value<FStore>, y: &ValueRef<FStore>| -> anyhow::Result<()> {
        match fmodel(fv, &x.load(&s)?.to_vec(), &y.to_owned().load(&s2)?) {
            None => x.set(None),
            Some(v) => { let t = RadixTree::single("", &v); let w = t.value().unwrap(); x.set(Some(w.downcast::<FStore>())); }
        }
        Ok(())
    };
    let pm = |v: &[u8]| match fv { 0 => true, 1 => false, 2 => v.len() % 2 == 0, _ => v.is_empty() };
    let q = |v: &ValueRef<FStore>| -> anyhow::Result<bool> { Ok(pm(&v.to_owned().load(&s2)?)) };
    let hit = |k: &[u8]| (0..=k.len()).any(|n| bm.get(&k[..n]).map(|v| pm(v)).unwrap_or(false));
    enum Out { Bool(bool, bool), Val(Option<Vec<u8>>, Option<Vec<u8>>), List(Vec<(K, Vec<u8>)>, Vec<(K, Vec<u8>)>), Tree(RadixTree, M), Own(RT<FStore>, M), Mem }
    let list = |m: &M| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>();
    let mut got: Vec<(K, Vec<u8>)> = vec![];
    let mut part: Option<Vec<(K, Vec<u8>)>> = None;
    let r: anyhow::Result<Out> = (|| Ok(match op {
        0 => Out::Bool(a.try_contains_key(&k)?, am.contains_key(&k)),
        1 => Out::Bool(a.try_has_prefix(&k)?, am.keys().any(|x| x.starts_with(&k))),
        2 => Out::Val(match a.try_get(&k)? { Some(v) => Some(v.load(&s)?.to_vec()), None => None }, am.get(&k).cloned()),
        3 => { let want = list(&am); part = Some(want.clone()); for x in a.try_iter().take(LIMIT) { let (k, v) = x?; got.push((k.to_vec(), v.load(&s)?.to_vec())); } Out::List(got.clone(), want) }
        4 => { let want: Vec<_> = list(&am).into_iter().map(|x| (vec![], x.1)).collect(); part = Some(want.clone()); for x in a.try_values().take(LIMIT) { got.push((vec![], x?.load(&s)?.to_vec())); } Out::List(got.clone(), want) }
        5 => { let want: Vec<_> = list(&am).into_iter().filter(|x| x.0.starts_with(&k)).collect(); part = Some(want.clone()); for x in a.try_scan_prefix(&k)?.take(LIMIT) { let (k, v) = x?; got.push((k.to_vec(), v.load(&s)?.to_vec())); } Out::List(got.clone(), want) }
        6 => Out::Val(match a.try_first_entry(vec![])? { Some((_, v)) => Some(v.load(&s)?.to_vec()), None => None }, am.values().next().cloned()),
        7 => Out::Val(match a.try_last_value()? { Some(v) => Some(v.load(&s)?.to_vec()), None => None }, am.values().next_back().cloned()),
        8 => Out::Own(a.try_filter_prefix(&k, &k)?, am.iter().filter(|x| x.0.starts_with(&k)).map(|(k, v)| (k.clone(), v.clone())).collect()),
        9 => Out::Tree(a.try_detached()?, am.clone()),
        10 => Out::Tree(a.try_outer_combine(&b, f)?, model(Op::Outer, &am, &bm, fv)),
        11 => Out::Tree(a.try_inner_combine(&b, f)?, model(Op::Inner, &am, &bm, fv)),
        12 => Out::Tree(a.try_left_combine(&b, f)?, model(Op::Left, &am, &bm, fv)),
        13 => Out::Bool(a.try_inner_combine_pred(&b, p)?, am.iter().any(|(k, v)| bm.get(k).map(|w| pmodel(fv, v, w)).unwrap_or(false))),
        14 => Out::Bool(a.try_left_combine_pred(&b, p)?, am.iter().any(|(k, v)| bm.get(k).map(|w| pmodel(fv, v, w)).unwrap_or(true))),
        15 => { let mut all = vec![]; for x in a.try_group_by(|p, _| Ok(p.len() < fv)).take(LIMIT) { for y in x?.try_iter().take(LIMIT) { let (k, v) = y?; all.push((k.to_vec(), v.load(&s)?.to_vec())); } } Out::List(all, list(&am)) }
        16 => { target = true; fin = Some(am.clone()); a.try_reattach()?; Out::Own(a.clone(), am.clone()) }
        17 => { target = true; let mut m = am.clone(); m.insert(k.clone(), b"new".to_vec()); fin = Some(m.clone()); a.try_insert(&k, b"new")?; Out::Own(a.clone(), m) }
        18 => { target = true; let mut m = am.clone(); m.remove(&k); fin = Some(m.clone()); a.try_remove(&k)?; Out::Own(a.clone(), m) }
        19 => { target = true; let mut m = am.clone(); m.retain(|x, _| !x.starts_with(&k)); fin = Some(m.clone()); a.try_remove_prefix(&k)?; Out::Own(a.clone(), m) }
        20 | 21 => {
            target = true;
            let o = [Op::Outer, Op::Inner, Op::Left][(n as usize + fv) % 3];
            let m = model(o, &am, &bm, fv);
            fin = Some(m.clone());
            match o { Op::Outer => a.try_outer_combine_with(&b, DetachConverter, g)?, Op::Inner => a.try_inner_combine_with(&b, DetachConverter, g)?, Op::Left => a.try_left_combine_with(&b, DetachConverter, g)? }
            Out::Own(a.clone(), m)
        }
        22 => { target = true; let m: M = am.iter().filter(|(k, _)| hit(k)).map(|(k, v)| (k.clone(), v.clone())).collect(); fin = Some(m.clone()); a.try_retain_prefix_with(&b, q)?; Out::Own(a.clone(), m) }
        _ => { target = true; let m: M = am.iter().filter(|(k, _)| !hit(k)).map(|(k, v)| (k.clone(), v.clone())).collect(); fin = Some(m.clone()); a.try_remove_prefix_with(&b, q)?; Out::Own(a.clone(), m) }
    }))();
    let fired = s.disarm() | s2.disarm();
    let failed = r.is_err();
    match r {
        Ok(o) => {
            ck!(!fired, "a store access failed, but the operation returned no error");
            match o {
                Out::Bool(x, y) => ck!(x == y, "result {} expected {}", x, y),
                Out::Val(x, y) => ck!(x == y, "result {:?} expected {:?}", x.as_deref().map(h), y.as_deref().map(h)),
                Out::List(x, y) => ck!(x == y, "result {} expected {}", hv(&x), hv(&y)),
                Out::Tree(t, m) => same::<Detached>(&t, &m, &u, "result")?,
                Out::Own(t, m) => same::<FStore>(&t, &m, &[], "result")?,
                Out::Mem => {}
            }
        }
        Err(x) => {
            ck!(fired, "the store worked, but the operation failed: {:?}", x);
            if let Some(want) = part { ck!(want.starts_with(&got), "before the error the iterator yielded {}", hv(&got)); }
        }
    }
    same::<FStore>(&b, &bm, &u, "second operand changed")?;
    same::<FStore>(&snap, &am, &u, "earlier clone changed")?;
    if !target { same::<FStore>(&a, &am, &u, "operand changed")?; }
    if let (true, Some(fin)) = (failed, fin) {
        // an update that failed half way: whatever it would have kept is still there
        let kept: M = FStore::entries(&a)?.into_iter().collect();
        for (k, v) in &fin { if let Some(old) = am.get(k) {
            let x = kept.get(k);
            ck!(x == Some(v) || x == Some(old), "after the failed update: key {} has value {:?}, was {} would be {}", h(k), x.map(|x| h(x)), h(old), h(v));
            ck!(FStore::get(&a, k)?.as_ref() == x, "after the failed update: get({}) and iteration differ", h(k));
        } }
        for k in kept.keys() { ck!(am.contains_key(k) || fin.contains_key(k), "after the failed update: alien key {}", h(k)); }
        // and the tree can still be used
        let mut m = kept.clone();
        if c.r.chance(1, 2) {
            let id = e(a.try_reattach())?; same::<FStore>(&a, &m, &u, "reattached after a failed update")?;
            let l = e(RadixTree::try_load(s.clone(), Some(id)))?; same::<FStore>(&l, &m, &u, "stored after a failed update and loaded")?;
            if c.r.chance(1, 2) { a = l; }
        }
        let first = match e(a.try_first_entry(vec![]))? { Some((k, v)) => Some((k.to_vec(), e(v.load(&s))?.to_vec())), None => None };
        ck!(first == m.iter().next().map(|(k, v)| (k.clone(), v.clone())), "after the failed update: first entry");
        let last = match e(a.try_last_entry(vec![]))? { Some((k, v)) => Some((k.to_vec(), e(v.load(&s))?.to_vec())), None => None };
        ck!(last == m.iter().next_back().map(|(k, v)| (k.clone(), v.clone())), "after the failed update: last entry");
        let o = *c.r.pick(&[Op::Outer, Op::Inner, Op::Left]);
        let x = e(match o { Op::Outer => a.try_outer_combine(&b, f), Op::Inner => a.try_inner_combine(&b, f), Op::Left => a.try_left_combine(&b, f) })?;
        same::<Detached>(&x, &model(o, &m, &bm, fv), &u, "combined after a failed update")?;
        ck!(e(a.try_detached())?.is_empty() == m.is_empty(), "after the failed update: is_empty of the detached tree");
        same::<Detached>(&e(a.try_detached())?, &m, &u, "detached after a failed update")?;
        for _ in 0..2 { let k = c.r.pick(&u).clone(); FStore::insert(&mut a, &k, b"again")?; m.insert(k, b"again".to_vec()); let k = c.r.pick(&u).clone(); FStore::remove(&mut a, &k)?; m.remove(&k); }
        same::<FStore>(&a, &m, &u, "updated after a failed update")?;
    }
    Ok(())
}
/// operations on a tree whose blobs are damaged: results or errors, no panic, no endless loop
pub fn damaged(c: &mut Cx) -> R {
    let s = VecStore::new();
    let (mut am, bm, _) = c.pair();
    while am.len() > 40 { let k = am.keys().next().unwrap().clone(); am.remove(&k); }
    let t = e(plain(&am).try_attached(s.clone()))?;
    let id = e(t.clone().try_reattach())?;
    // blobs only refer to earlier blobs; damage keeps that (no cycles)
    let n = s.0.lock().unwrap().len();
    let mut dam = vec![];
    for _ in 0..1 + c.r.below(3) {
        let i = if c.r.chance(1, 3) { n - 1 } else { c.r.below(n) };
        let mut d = s.0.lock().unwrap()[i].clone();
        match c.r.below(8) {
            0 => { let n = c.r.below(d.len() + 1); d.truncate(n); }
            1 | 2 => { if !d.is_empty() { let i = c.r.below(d.len()); d[i] ^= 1 << c.r.below(8); } }
            3 => d.push(c.r.below(256) as u8),
            4 => d = vec![],
            5 => { let n = c.r.below(14); d = (0..n).map(|_| if c.r.chance(1, 2) { *c.r.pick(&[0u8, 1, 2, 3, 0x7f, 0x80, 0x81, 0x83, 0xff]) } else { c.r.below(256) as u8 }).collect(); }
            6 => {
                // well-formed nodes in no sensible order or shape
                d = vec![];
                for _ in 0..1 + c.r.below(3) {
                    let l = c.r.below(3); d.push(l as u8); for _ in 0..l { d.push(*c.r.pick(b"aab")); }
                    match c.r.below(3) { 0 => d.push(0x80), 1 => d.push(0), _ => { d.push(1); d.push(7) } }
                    if i > 0 && c.r.chance(1, 2) { let j = c.r.below(i); d.extend([0x83, *c.r.pick(&[0u8, 1, 4, 5, 9]), (j / 256) as u8, j as u8]); } else { d.push(0x80) }
                }
            }
            _ => { let n = c.r.below(d.len() + 1); let e = c.r.below(d.len() + 1); let x = d[n.min(e)..n.max(e)].to_vec(); d.extend(x); }
        }
        if !acyclic(&d, i) { continue; }
        dam.push((i, d.clone()));
        s.0.lock().unwrap()[i] = d;
    }
    let _ = writeln!(c.log, "tree {} stored in {} blobs, damaged: {:?}", hm(&am), n, dam);
    if std::env::var("CX_DBG").is_ok() { println!("{} root {:?} blobs {:?}", c.log, id, s.0.lock().unwrap()); }
    let Ok(t) = RadixTree::try_load(s.clone(), Some(&id)) else { return Ok(()) };
    let us = c.uni(&[&am, &bm], &[]);
    let b = S2::mk(c, &s, &bm)?;
    for k in us.iter().take(12) {
        let _ = t.try_get(k).map(|v| v.map(|v| v.load(&s)));
        let _ = t.try_contains_key(k);
        let _ = t.try_has_prefix(k);
        for x in t.try_scan_prefix(k).into_iter().flatten().take(2000) { if let Ok((k, v)) = x { let _ = (k.to_vec(), v.load(&s)); } else { break } }
        let _ = t.try_filter_prefix(k, b"zz").map(|t| t.try_detached());
        let mut x = t.clone(); let _ = x.try_remove(k); let _ = x.try_reattach();
        let mut x = t.clone(); let _ = x.try_insert(k, b"v"); let _ = x.try_reattach();
        let mut x = t.clone(); let _ = x.try_remove_prefix(k);
    }
    for x in t.try_iter().take(2000) { if x.is_err() { break } }
    for x in t.try_values().take(2000) { if x.is_err() { break } }
    let _ = (t.try_first_value(), t.try_last_value(), t.try_first_entry(b"p".to_vec()), t.try_last_entry(vec![]));
    let _ = t.try_detached();
    for x in t.try_group_by(|p, _| Ok(p.len() < 2)).take(2000) { if x.is_err() { break } }
    for (p, q) in [(&t, &b), (&b, &t), (&t, &t)] {
        let _ = p.try_outer_combine(q, |_, _| Ok::<_, anyhow::Error>(None));
        let _ = p.try_inner_combine(q, |_, _| Ok::<_, anyhow::Error>(Some(mkval(vec![1]))));
        let _ = p.try_left_combine(q, |_, _| Ok::<_, anyhow::Error>(None));
        let _ = p.try_inner_combine_pred(q, |_, _| Ok::<_, anyhow::Error>(false));
        let _ = p.try_left_combine_pred(q, |_, _| Ok::<_, anyhow::Error>(false));
        let mut x = p.clone(); let _ = x.try_outer_combine_with(q, IdentityConverter, |_, _| Ok(()));
        let mut x = p.clone(); let _ = x.try_inner_combine_with(q, IdentityConverter, |v, _| { v.set(None); Ok(()) });
        let mut x = p.clone(); let _ = x.try_left_combine_with(q, IdentityConverter, |v, _| { v.set(None); Ok(()) });
        let mut x = p.clone(); let _ = x.try_retain_prefix_with(q, |_| Ok(true));
        let mut x = p.clone(); let _ = x.try_remove_prefix_with(q, |_| Ok(true));
    }
    Ok(())
}
struct S2;
impl S2 { fn mk(c: &mut Cx, s: &VecStore, m: &M) -> R<radixdb::RadixTree<VecStore>> { let _ = &c; let mut m = m.clone(); while m.len() > 40 { let k = m.keys().next().unwrap().clone(); m.remove(&k); } let mut t = e(plain(&m).try_attached(s.clone()))?; if c.r.chance(1, 2) { e(t.try_reattach())?; } Ok(t) } }
/// every two byte id in the nodes of the blob refers to an earlier blob
fn acyclic(d: &[u8], i: usize) -> bool {
    // any two bytes could be read as an id once the blob is cut differently: be strict
    d.windows(4).all(|w| w[0] != 0x83 || (w[2] as usize * 256 + w[3] as usize) < i || w[2] > 100)
}
/// the documented format: prefix, value, children; children never inline data
fn parse_one(d: &[u8]) -> Option<usize> {
    let mut o = 0;
    for f in 0..3 {
        let hd = *d.get(o)?;
        let l = (hd & 0x7f) as usize;
        if f == 0 && hd == 0x80 { return None; }
        if f == 2 && hd & 0x80 == 0 { return None; }
        o += 1 + l;
        if d.len() < o { return None; }
    }
    Some(o)
}

#[derive(Clone, Debug)]
pub struct VecStore(std::sync::Arc<std::sync::Mutex<Vec<Vec<u8>>>>);
impl VecStore { fn new() -> Self { VecStore(Default::default()) } }
impl BlobStore for VecStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<radixdb::store::Blob<'static>> {
        anyhow::ensure!(id.len() == 2);
        let i = id[0] as usize * 256 + id[1] as usize;
        self.0.lock().unwrap().get(i).map(|x| radixdb::store::Blob::copy_from_slice(x)).ok_or_else(|| anyhow::anyhow!("no such blob"))
    }
    fn write(&self, d: &[u8]) -> anyhow::Result<Vec<u8>> { let mut g = self.0.lock().unwrap(); g.push(d.to_vec()); let i = g.len() - 1; Ok(vec![(i / 256) as u8, i as u8]) }
    fn sync(&self) -> anyhow::Result<()> { Ok(()) }
}
