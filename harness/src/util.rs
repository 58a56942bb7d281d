//! PRNG, generators, model, stores used by the counterexample search / bounded contract checks.
use radixdb::store::{Blob, BlobStore, Detached, MemStore, NoError, PagedFileStore};
use radixdb::RadixTree;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub type K = Vec<u8>;
pub type M = BTreeMap<K, Vec<u8>>;
pub type R<T = ()> = Result<T, String>;

pub fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> R<T> {
    r.map_err(|x| format!("unexpected error {:?}", x))
}

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, i: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ i.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234567);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// short display of bytes
pub fn h(x: &[u8]) -> String {
    let f = |s: &[u8]| -> String { s.iter().map(|b| format!("{:02x}", b)).collect() };
    if x.len() <= 16 { format!("[{}]", f(x)) } else { format!("[{}..{};len={}]", f(&x[..4]), f(&x[x.len() - 4..]), x.len()) }
}
pub fn hm(m: &M) -> String {
    let v: Vec<String> = m.iter().take(40).map(|(k, v)| format!("{}=>{}", h(k), h(v))).collect();
    format!("{{{}}}{}", v.join(", "), if m.len() > 40 { format!(" .. {} entries", m.len()) } else { String::new() })
}
pub fn hv(m: &[(K, Vec<u8>)]) -> String {
    let v: Vec<String> = m.iter().take(40).map(|(k, v)| format!("{}=>{}", h(k), h(v))).collect();
    format!("[{}]", v.join(", "))
}

/// numbers that occur in the functions of /repo that differ from the annotated ones (CX_DICT, given by check.py):
/// lengths, counts and byte values worth trying
pub fn dict() -> &'static [usize] {
    static D: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    D.get_or_init(|| std::env::var("CX_DICT").unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).filter(|x| *x <= 200_000).collect())
}
/// the case uses blobs that may be larger than a page of a paged file store
pub static BIG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn big(n: usize) -> usize { if n > 250 { BIG.store(true, std::sync::atomic::Ordering::Relaxed); } n }
/// a number of the dictionary or next to it
pub fn special(r: &mut Rng, max: usize) -> Option<usize> {
    let d = dict();
    if d.is_empty() || !r.chance(1, 3) { return None; }
    let x = *r.pick(d);
    let x = match r.below(6) { 0 => x + 1, 1 => x.saturating_sub(1), 2 => x * 2, _ => x };
    if x <= max { Some(big(x)) } else { None }
}

/// A family of keys to draw from.
#[derive(Clone)]
pub struct Style {
    kind: usize,
    base: Vec<u8>,
}
impl Style {
    pub fn new(r: &mut Rng) -> Self {
        let kind = match r.below(40) { 0..=13 => 0, 14..=19 => 1, 20..=23 => 2, 24..=33 => 3, 34..=35 => 6, 36 => 5, _ => 4 };
        let lens = [0usize, 1, 6, 7, 8, 9, 15, 16, 17, 63, 120, 125, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000];
        let huge = [4095usize, 4097, 65534, 65535, 65536, 65537, 70000];
        let (kind, n) = if r.chance(1, 40) { (3, big(*r.pick(&huge))) } else { (kind, *r.pick(&lens)) };
        let n = special(r, 200_000).unwrap_or(n);
        // chains: every prefix of the base is a key
        let (kind, n) = if kind == 5 { (5, special(r, 400).unwrap_or(*r.pick(&[10usize, 40, 130, 260]))) } else { (kind, n) };
        let base = (0..n).map(|i| (i as u8).wrapping_mul(7) ^ 0x33).collect();
        Style { kind, base }
    }
    pub fn fixed(kind: usize) -> Self {
        Style { kind, base: vec![] }
    }
    pub fn key(&self, r: &mut Rng) -> K {
        let alpha = |r: &mut Rng, al: &[u8], max: usize| -> K {
            let n = r.below(max + 1);
            (0..n).map(|_| *r.pick(al)).collect()
        };
        match self.kind {
            0 => alpha(r, b"ab", 3),
            1 => alpha(r, b"abc", 5),
            2 => alpha(r, &[0, 1, 0x7f, 0x80, 0xfe, 0xff], 3),
            5 => self.base[..r.below(self.base.len() + 1)].to_vec(),
            6 => {
                // bytes at the borders of the byte order, or from the dictionary
                let n = 1 + r.below(3);
                (0..n).map(|_| match special(r, 255) { Some(x) => x as u8, None => *r.pick(&[0u8, 1, 2, 0x30, 0x40, 0x61, 0x7e, 0x7f, 0x80, 0x81, 0xc0, 0xfd, 0xfe, 0xff]) }).collect()
            }
            3 => {
                let b = &self.base;
                let mut k = match r.below(6) {
                    0 => b[..r.below(b.len() + 1)].to_vec(),
                    1 => b[..b.len().saturating_sub(r.below(4))].to_vec(),
                    _ => b.clone(),
                };
                match r.below(4) {
                    0 => {}
                    1 => k.extend(alpha(r, b"ab", 2)),
                    2 => { k.extend(alpha(r, b"ab", 2)); let n = *r.pick(&[5usize, 8, 9, 127, 128, 129, 140]); k.extend((0..n).map(|i| i as u8)); k.extend(alpha(r, b"xy", 1)); }
                    _ => { k.push(r.below(256) as u8); k.extend(alpha(r, b"ab", 1)); }
                }
                k
            }
            _ => {
                let mut k = if r.chance(1, 2) { vec![b'p'] } else { vec![] };
                k.push(r.below(256) as u8);
                if r.chance(1, 3) { k.push(r.below(3) as u8) }
                k
            }
        }
    }
    pub fn count(&self, r: &mut Rng, size: usize) -> usize {
        if self.kind == 4 { if let Some(n) = special(r, 2000) { return n; } }
        if self.kind == 5 { return r.below(self.base.len().min(80) + 4); }
        if self.kind == 4 { *r.pick(&[3usize, 40, 255, 256, 300, 1200]) } else if self.base.len() > 2000 { r.below(size.min(4) + 1) } else { r.below(size.min(14) + 1) }
    }
}

pub fn val(r: &mut Rng, tag: u64) -> Vec<u8> {
    let n = match r.below(8) {
        6 | 7 if !dict().is_empty() => special(r, 200_000).unwrap_or(1),
        0 => 0,
        1..=4 => 1 + r.below(4),
        _ if r.chance(1, 150) => big(*r.pick(&[4096usize, 65535, 65536, 70000])),
        _ => *r.pick(&[7usize, 8, 9, 16, 17, 100, 126, 127, 128, 129, 255, 256, 300]),
    };
    let mut v: Vec<u8> = (0..n).map(|i| (i as u8) ^ (tag as u8)).collect();
    if !v.is_empty() { v[0] = tag as u8; }
    if v.len() > 1 { let l = v.len(); v[l - 1] = (tag >> 8) as u8 ^ 0x5a; }
    v
}

pub fn gen(r: &mut Rng, st: &Style, size: usize) -> M {
    let n = st.count(r, size);
    let mut m = M::new();
    for _ in 0..n {
        let k = st.key(r);
        let t = r.next();
        let v = val(r, t);
        m.insert(k, v);
    }
    if st.kind == 4 && r.chance(1, 2) {
        // complete fan out
        let p: Vec<u8> = if r.chance(1, 2) { vec![b'p'] } else { vec![] };
        for b in 0..=255u8 {
            let mut k = p.clone();
            k.push(b);
            m.entry(k).or_insert(vec![b]);
        }
        for _ in 0..*r.pick(&[0usize, 0, 1, 1, 1, 2, 3]) {
            let mut k = p.clone();
            k.push(match r.below(4) { 0 => 0, 1 => 255, _ => r.below(256) as u8 });
            m.remove(&k);
        }
    }
    m
}

pub fn perturb(r: &mut Rng, m: &M, st: &Style, size: usize) -> M {
    // a second map related to the first: subset + some new keys + some changed values
    let mut o = M::new();
    if !m.is_empty() && r.chance(1, 3) {
        // a few entries, often at one of the ends
        let ks: Vec<&K> = m.keys().collect();
        for _ in 0..1 + r.below(3) {
            let i = match r.below(4) { 0 => ks.len() - 1, 1 => 0, 2 => ks.len().saturating_sub(1 + r.below(4)), _ => r.below(ks.len()) };
            let mut k = ks[i].clone();
            if r.chance(1, 5) { k.push(r.below(256) as u8); }
            let t = r.next();
            o.insert(k, val(r, t));
        }
        if r.chance(1, 4) { let k = st.key(r); let t = r.next(); o.insert(k, val(r, t)); }
        return o;
    }
    for (k, v) in m {
        if r.chance(1, 2) {
            let t = r.next();
            o.insert(k.clone(), if r.chance(1, 2) { v.clone() } else { val(r, t) });
        } else if r.chance(1, 6) {
            let mut k = k.clone();
            let n = r.below(k.len() + 1);
            k.truncate(n);
            let t = r.next();
            o.insert(k, val(r, t));
        }
    }
    if r.chance(1, 2) {
        for (k, v) in gen(r, st, size / 2) { o.insert(k, v); }
    }
    o
}

/// interesting keys around the given ones
pub fn universe(r: &mut Rng, ms: &[&M], extra: &[K]) -> Vec<K> {
    let mut u: Vec<K> = vec![vec![]];
    let mut push = |k: K| u.push(k);
    let mut budget = 400usize;
    let mut all: Vec<&K> = ms.iter().flat_map(|m| m.keys()).chain(extra.iter()).collect();
    r.shuffle(&mut all);
    for k in all {
        if budget == 0 { break; }
        budget -= 1;
        push(k.clone());
        let mut x = k.clone(); x.push(0); push(x);
        let mut x = k.clone(); x.push(b'a'); push(x);
        if !k.is_empty() {
            push(k[..k.len() - 1].to_vec());
            push(k[..r.below(k.len())].to_vec());
            let mut x = k.clone(); let i = r.below(x.len()); x[i] ^= 1; push(x);
            let mut x = k.clone(); let i = x.len() - 1; x[i] = x[i].wrapping_add(1); push(x);
        }
    }
    u.sort();
    u.dedup();
    u
}

// ---------------------------------------------------------------- stores

/// infallible in memory store with configurable id length (ids longer than a word live behind an arc in nodes)
#[derive(Clone, Debug)]
pub struct VStore(Arc<Mutex<(usize, u64, BTreeMap<Vec<u8>, Arc<Vec<u8>>>)>>);
impl VStore {
    pub fn with(len: usize) -> Self { VStore(Arc::new(Mutex::new((len, 0, BTreeMap::new())))) }
}
impl BlobStore for VStore {
    type Error = NoError;
    fn read(&self, id: &[u8]) -> Result<Blob<'static>, NoError> {
        let g = self.0.lock().unwrap();
        match g.2.get(id) { Some(x) => Ok(Blob::from_arc_vec(x.clone())), None => panic!("VStore: unknown id {:?}", id) }
    }
    fn write(&self, data: &[u8]) -> Result<Vec<u8>, NoError> {
        let mut g = self.0.lock().unwrap();
        g.1 += 1;
        let mut id = g.1.to_be_bytes().to_vec();
        let len = g.0;
        if len >= 8 { let mut p = vec![0xAB; len - 8]; p.extend_from_slice(&id); id = p; } else {
            // shorter ids: at least 3 bytes
            id = id[8 - len.max(3)..].to_vec();
        }
        g.2.insert(id.clone(), Arc::new(data.to_vec()));
        Ok(id)
    }
    fn sync(&self) -> Result<(), NoError> { Ok(()) }
}

/// fallible store: the n-th read or write from now on fails (and everything after it, unless the failure is transient)
#[derive(Clone, Debug)]
pub struct FStore { pub inner: MemStore, pub plan: Arc<Mutex<(Option<u64>, bool, bool)>> }
impl FStore {
    pub fn arm(&self, n: u64, transient: bool) { *self.plan.lock().unwrap() = (Some(n), transient, false); }
    /// back to normal; did it fail?
    pub fn disarm(&self) -> bool { let mut g = self.plan.lock().unwrap(); let f = g.2; *g = (None, false, false); f }
    fn tick(&self) -> anyhow::Result<()> {
        let mut g = self.plan.lock().unwrap();
        if let Some(n) = g.0 {
            if n == 0 {
                g.2 = true;
                if g.1 { g.0 = None; }
                anyhow::bail!("injected");
            }
            g.0 = Some(n - 1);
        }
        Ok(())
    }
}
impl BlobStore for FStore {
    type Error = anyhow::Error;
    fn read(&self, id: &[u8]) -> anyhow::Result<Blob<'static>> { self.tick()?; self.inner.read(id) }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> { self.tick()?; self.inner.write(data) }
    fn sync(&self) -> anyhow::Result<()> { Ok(()) }
}

pub fn scratch() -> std::path::PathBuf {
    std::env::var_os("CX_SCRATCH").map(Into::into).unwrap_or_else(std::env::temp_dir)
}
pub fn tmpfile() -> std::fs::File {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let p = scratch().join(format!("cx-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    let f = std::fs::OpenOptions::new().read(true).write(true).create_new(true).open(&p).expect("scratch file");
    let _ = std::fs::remove_file(&p);
    f
}

pub type RT<S> = RadixTree<S>;

/// uniform access to detached and store backed trees
pub trait St: BlobStore + Clone {
    const NAME: &'static str;
    fn fresh(r: &mut Rng) -> Self;
    /// build a tree with the given content; `how` selects the construction history
    fn mk(&self, m: &M, how: usize, r: &mut Rng) -> R<RT<Self>>;
    fn hows() -> usize;
    fn insert(t: &mut RT<Self>, k: &[u8], v: &[u8]) -> R;
    fn remove(t: &mut RT<Self>, k: &[u8]) -> R;
    fn remove_prefix(t: &mut RT<Self>, k: &[u8]) -> R;
    fn get(t: &RT<Self>, k: &[u8]) -> R<Option<Vec<u8>>>;
    fn contains(t: &RT<Self>, k: &[u8]) -> R<bool>;
    fn has_prefix(t: &RT<Self>, k: &[u8]) -> R<bool>;
    fn entries(t: &RT<Self>) -> R<Vec<(K, Vec<u8>)>>;
    fn vals(t: &RT<Self>) -> R<Vec<Vec<u8>>>;
    fn scan(t: &RT<Self>, p: &[u8]) -> R<Vec<(K, Vec<u8>)>>;
    fn filter(t: &RT<Self>, p: &[u8], s: &[u8]) -> R<RT<Self>>;
    fn ends(t: &RT<Self>, p: &[u8]) -> R<[Option<(K, Vec<u8>)>; 4]>;
    fn detach(t: &RT<Self>) -> R<RT<Detached>>;
}

fn shuffled(m: &M, r: &mut Rng) -> Vec<(K, Vec<u8>)> {
    let mut v: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    r.shuffle(&mut v);
    v
}

pub fn plain(m: &M) -> RadixTree {
    m.iter().collect()
}

impl St for Detached {
    const NAME: &'static str = "Detached";
    fn fresh(_: &mut Rng) -> Self { Detached }
    fn hows() -> usize { 3 }
    fn mk(&self, m: &M, how: usize, r: &mut Rng) -> R<RT<Self>> {
        let v = shuffled(m, r);
        Ok(match how {
            0 => v.into_iter().collect(),
            1 => {
                // insert more, then remove again; overwrite
                let mut t = RadixTree::default();
                let noise: Vec<K> = v.iter().filter(|_| r.chance(1, 2)).map(|(k, _)| { let mut k = k.clone(); k.push(b'z'); k }).filter(|k| !m.contains_key(k)).collect();
                for k in &noise { t.insert(k, b"noise-noise"); }
                for (k, v) in &v { if r.chance(1, 3) { t.insert(k, b"old"); } t.insert(k, v); }
                for k in &noise { t.remove(k); }
                t
            }
            _ => {
                let mut t = RadixTree::default();
                for (k, v) in v { t.insert(k, v); }
                t
            }
        })
    }
    fn insert(t: &mut RT<Self>, k: &[u8], v: &[u8]) -> R { Ok(t.insert(k, v)) }
    fn remove(t: &mut RT<Self>, k: &[u8]) -> R { Ok(t.remove(k)) }
    fn remove_prefix(t: &mut RT<Self>, k: &[u8]) -> R { Ok(t.remove_prefix(k)) }
    fn get(t: &RT<Self>, k: &[u8]) -> R<Option<Vec<u8>>> { Ok(t.get(k).map(|x| x.as_ref().to_vec())) }
    fn contains(t: &RT<Self>, k: &[u8]) -> R<bool> { Ok(t.contains_key(k)) }
    fn has_prefix(t: &RT<Self>, k: &[u8]) -> R<bool> { Ok(t.has_prefix(k)) }
    fn entries(t: &RT<Self>) -> R<Vec<(K, Vec<u8>)>> { Ok(t.iter().take(LIMIT).map(|(k, v)| (k.to_vec(), v.to_vec())).collect()) }
    fn vals(t: &RT<Self>) -> R<Vec<Vec<u8>>> { Ok(t.values().take(LIMIT).map(|v| v.to_vec()).collect()) }
    fn scan(t: &RT<Self>, p: &[u8]) -> R<Vec<(K, Vec<u8>)>> { Ok(t.scan_prefix(p).take(LIMIT).map(|(k, v)| (k.to_vec(), v.to_vec())).collect()) }
    fn filter(t: &RT<Self>, p: &[u8], s: &[u8]) -> R<RT<Self>> { Ok(t.filter_prefix(p, s)) }
    fn ends(t: &RT<Self>, p: &[u8]) -> R<[Option<(K, Vec<u8>)>; 4]> {
        Ok([t.first_entry(p.to_vec()).map(|(k, v)| (k, v.to_vec())), t.last_entry(p.to_vec()).map(|(k, v)| (k, v.to_vec())),
            t.first_value().map(|v| (vec![], v.to_vec())), t.last_value().map(|v| (vec![], v.to_vec()))])
    }
    fn detach(t: &RT<Self>) -> R<RT<Detached>> { e(t.try_detached()) }
}

/// iteration never yields more entries than this in a correct tree of the harness
pub const LIMIT: usize = 20000;

macro_rules! st_impl {
    ($t:ty, $n:expr, $fresh:expr) => {
        impl St for $t {
            const NAME: &'static str = $n;
            fn fresh(r: &mut Rng) -> Self { let f: fn(&mut Rng) -> $t = $fresh; f(r) }
            fn hows() -> usize { 6 }
            fn mk(&self, m: &M, how: usize, r: &mut Rng) -> R<RT<Self>> {
                let v = shuffled(m, r);
                match how {
                    0 => {
                        let mut t = RadixTree::empty(self.clone());
                        for (k, v) in v { e(t.try_insert(k, v))?; }
                        Ok(t)
                    }
                    1 => e(plain(m).try_attached(self.clone())),
                    2 | 3 | 4 => {
                        let half: M = v.iter().filter(|_| r.chance(1, 2)).cloned().collect();
                        let mut t = e(plain(&half).try_attached(self.clone()))?;
                        for (k, v) in v { if half.get(&k).is_none() { e(t.try_insert(k, v))?; } }
                        if how >= 3 {
                            let id = e(t.try_reattach())?;
                            if how == 4 { t = e(RadixTree::try_load(self.clone(), Some(id)))?; }
                        }
                        Ok(t)
                    }
                    _ => {
                        // attached, noise removed again, overwritten values
                        let mut m2 = m.clone();
                        let noise: Vec<K> = m.keys().filter(|_| r.chance(1, 3)).map(|k| { let mut k = k.clone(); k.push(b'z'); k }).filter(|k| !m.contains_key(k)).collect();
                        for k in &noise { m2.insert(k.clone(), vec![9; 130]); }
                        let mut t = e(plain(&m2).try_attached(self.clone()))?;
                        for k in &noise { e(t.try_remove(k))?; }
                        for (k, v) in &v { if r.chance(1, 4) { e(t.try_insert(k, v))?; } }
                        Ok(t)
                    }
                }
            }
            fn insert(t: &mut RT<Self>, k: &[u8], v: &[u8]) -> R { e(t.try_insert(k, v)) }
            fn remove(t: &mut RT<Self>, k: &[u8]) -> R { e(t.try_remove(k)) }
            fn remove_prefix(t: &mut RT<Self>, k: &[u8]) -> R { e(t.try_remove_prefix(k)) }
            fn get(t: &RT<Self>, k: &[u8]) -> R<Option<Vec<u8>>> {
                match e(t.try_get(k))? { Some(v) => Ok(Some(e(v.load(RadixTree::store(t)))?.to_vec())), None => Ok(None) }
            }
            fn contains(t: &RT<Self>, k: &[u8]) -> R<bool> { e(t.try_contains_key(k)) }
            fn has_prefix(t: &RT<Self>, k: &[u8]) -> R<bool> { e(t.try_has_prefix(k)) }
            fn entries(t: &RT<Self>) -> R<Vec<(K, Vec<u8>)>> {
                let mut o = vec![];
                for x in t.try_iter().take(LIMIT) { let (k, v) = e(x)?; o.push((k.to_vec(), e(v.load(RadixTree::store(t)))?.to_vec())); }
                Ok(o)
            }
            fn vals(t: &RT<Self>) -> R<Vec<Vec<u8>>> {
                let mut o = vec![];
                for x in t.try_values().take(LIMIT) { o.push(e(e(x)?.load(RadixTree::store(t)))?.to_vec()); }
                Ok(o)
            }
            fn scan(t: &RT<Self>, p: &[u8]) -> R<Vec<(K, Vec<u8>)>> {
                let mut o = vec![];
                for x in e(t.try_scan_prefix(p))?.take(LIMIT) { let (k, v) = e(x)?; o.push((k.to_vec(), e(v.load(RadixTree::store(t)))?.to_vec())); }
                Ok(o)
            }
            fn filter(t: &RT<Self>, p: &[u8], s: &[u8]) -> R<RT<Self>> { e(t.try_filter_prefix(p, s)) }
            fn ends(t: &RT<Self>, p: &[u8]) -> R<[Option<(K, Vec<u8>)>; 4]> {
                let s = RadixTree::store(t);
                let f = |x: Option<(Vec<u8>, radixdb::node::Value<Self>)>| -> R<Option<(K, Vec<u8>)>> { match x { Some((k, v)) => Ok(Some((k, e(v.load(s))?.to_vec()))), None => Ok(None) } };
                Ok([f(e(t.try_first_entry(p.to_vec()))?)?, f(e(t.try_last_entry(p.to_vec()))?)?,
                    f(e(t.try_first_value())?.map(|v| (vec![], v)))?, f(e(t.try_last_value())?.map(|v| (vec![], v)))?])
            }
            fn detach(t: &RT<Self>) -> R<RT<Detached>> { e(t.try_detached()) }
        }
    };
}
st_impl!(FStore, "FStore", |_| FStore { inner: MemStore::default(), plan: Arc::new(Mutex::new((None, false, false))) });
st_impl!(MemStore, "MemStore", |_| MemStore::default());
st_impl!(VStore, "VStore", |r| VStore::with(*r.pick(&[3usize, 7, 8, 9, 20, 32, 126])));
st_impl!(PagedFileStore, "PagedFileStore", |r| PagedFileStore::new(tmpfile(), *r.pick(&[4096u64, 16384, 65536]) * 4).unwrap());

/// full comparison of a tree with the model
pub fn same<S: St>(t: &RT<S>, m: &M, u: &[K], what: &str) -> R {
    let es = S::entries(t)?;
    let exp: Vec<(K, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    ck!(es == exp, "{}: iteration yields {} expected {}", what, hv(&es), hv(&exp));
    for k in u {
        let g = S::get(t, k)?;
        ck!(g.as_ref() == m.get(k), "{}: get({}) = {:?} expected {:?}", what, h(k), g.as_deref().map(h), m.get(k).map(|x| h(x)));
    }
    Ok(())
}
