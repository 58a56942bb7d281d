//! blobs as byte strings (C20)
use crate::cases::Cx;
use crate::ck;
use crate::util::*;
use radixdb::store::{Blob, BlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::borrow::Borrow;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::ops::{Bound, Deref};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// records what it is fed
#[derive(Default)]
struct Feed(Vec<u8>);
impl Hasher for Feed {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, x: &[u8]) { self.0.extend_from_slice(&(x.len() as u64).to_le_bytes()); self.0.extend_from_slice(x); }
}
fn fed<T: Hash + ?Sized>(x: &T) -> Vec<u8> { let mut f = Feed::default(); x.hash(&mut f); f.0 }

fn data(r: &mut Rng) -> Vec<u8> {
    let n = if let Some(n) = special(r, 5000) { n } else { match r.below(8) { 0 => 0, 1 => 1, 2 | 3 => r.below(5), 4 | 5 => r.below(40), 6 => 120 + r.below(20), _ => r.below(600) } };
    let a = *r.pick(&[2usize, 3, 256]);
    (0..n).map(|_| r.below(a) as u8).collect()
}

fn kind(r: &mut Rng, d: &'static [u8], file: &mut Option<PagedFileStore>) -> R<(&'static str, Blob<'static>)> {
    Ok(match r.below(10) {
        0 => ("new", Blob::new(d)),
        1 => ("copy_from_slice", Blob::copy_from_slice(d)),
        2 => ("from_arc_vec", Blob::from_arc_vec(Arc::new(d.to_vec()))),
        3 => ("from", Blob::from(Arc::new(d.to_vec()))),
        4 => { let o = Arc::new(d.to_vec()); let s: &'static [u8] = unsafe { std::mem::transmute(&o[..]) }; ("owned_new", Blob::owned_new(s, Some(o))) }
        5 => ("copy of a borrowed one", { let v = d.to_vec(); let b = Blob::new(&v).to_owned(); b }),
        6 => ("memory store", { let s = MemStore::default(); let id = e(s.write(d))?; let b = e(s.read(&id))?; b }),
        7 => {
            if file.is_none() { *file = Some(e(PagedFileStore::new(tmpfile(), 8192))?); }
            let s = file.as_ref().unwrap();
            let id = e(s.write(d))?;
            for _ in 0..r.below(4) { let z = vec![7u8; 3000]; e(s.write(&z))?; }
            ("file store", e(s.read(&id))?)
        }
        8 => { let t = RadixTree::single(d, d); ("key", e(t.iter().next().ok_or("no entry"))?.0.to_owned_blob()) }
        _ => { let mut a = [0u8; 16]; for (x, y) in a.iter_mut().zip(d) { *x = *y; } if d.len() == 16 { ("array", Blob::from(Arc::new(a))) } else { ("to_owned", Blob::copy_from_slice(d).to_owned()) } }
    })
}

fn is(b: &Blob, d: &[u8], what: &str) -> R {
    ck!(b.len() == d.len() && b.as_ref() == d && b.deref() == d && Borrow::<[u8]>::borrow(b) == d, "{}: bytes {} expected {}", what, h(b), h(d));
    Ok(())
}

pub fn bytes(c: &mut Cx) -> R {
    // leaked on purpose and released at the end: `Blob::new` wants a static slice
    let mut x = data(&mut c.r);
    let mut y = if c.r.chance(1, 2) { data(&mut c.r) } else { let mut y = x.clone(); if !y.is_empty() { match c.r.below(5) { 0 => { y.pop(); } 1 => { let i = c.r.below(y.len()); y[i] = y[i].wrapping_add(*c.r.pick(&[1u8, 128, 255])); } 2 => y.push(0), 3 => { y.remove(0); } _ => () } } y };
    if c.r.chance(1, 20) { x.resize(16, 1); y.resize(16, 1); }
    let (x, y): (Box<[u8]>, Box<[u8]>) = (x.into(), y.into());
    let (xs, ys): (&'static [u8], &'static [u8]) = unsafe { (std::mem::transmute(&x[..]), std::mem::transmute(&y[..])) };
    let mut file = None;
    let (kx, a) = kind(&mut c.r, xs, &mut file)?;
    let (ky, b) = kind(&mut c.r, ys, &mut file)?;
    let _ = writeln!(c.log, "{} {} => {} {}", kx, h(xs), ky, h(ys));
    is(&a, xs, kx)?;
    is(&b, ys, ky)?;
    // comparisons and hashing
    ck!((a == b) == (xs == ys), "== of blobs {} {} differs from == of the bytes", h(xs), h(ys));
    ck!((a != b) == (xs != ys), "!= of blobs {} {}", h(xs), h(ys));
    ck!(a.cmp(&b) == xs.cmp(ys), "cmp of blobs {} {}: {:?}", h(xs), h(ys), a.cmp(&b));
    ck!(a.partial_cmp(&b) == xs.partial_cmp(ys), "partial_cmp of blobs {} {}: {:?}", h(xs), h(ys), a.partial_cmp(&b));
    ck!((a < b) == (xs < ys) && (a <= b) == (xs <= ys) && (a > b) == (xs > ys), "order of blobs {} {}", h(xs), h(ys));
    ck!(fed(&a) == fed(xs), "hash of blob {} is not the hash of its bytes", h(xs));
    // ranges
    let n = xs.len();
    let mut parts: Vec<(Blob<'static>, &'static [u8], String)> = vec![];
    for _ in 0..6 {
        let (i, j) = if c.r.chance(1, 3) { (c.r.below(n + 3), c.r.below(n + 3)) } else { let i = c.r.below(n + 1); (i, i + c.r.below(n - i + 1)) };
        let lo = match c.r.below(4) { 0 => Bound::Unbounded, 1 => Bound::Excluded(if c.r.chance(1, 10) { usize::MAX } else { i }), _ => Bound::Included(i) };
        let hi = match c.r.below(8) { 0 => Bound::Unbounded, 1 => Bound::Included(j), 2 if c.r.chance(1, 4) => Bound::Included(usize::MAX), _ => Bound::Excluded(j) };
        let l = match lo { Bound::Included(i) => i, Bound::Excluded(i) => i.saturating_add(1), Bound::Unbounded => 0 };
        let u = match hi { Bound::Included(usize::MAX) => usize::MAX, Bound::Included(j) => j + 1, Bound::Excluded(j) => j, Bound::Unbounded => n };
        let good = l <= u && u <= n;
        let what = format!("{} blob of {} bytes, slice({:?}, {:?})", kx, n, lo, hi);
        let _ = writeln!(c.log, "{}", what);
        match catch_unwind(AssertUnwindSafe(|| a.slice((lo, hi)))) {
            Ok(s) => { ck!(good, "{}: out of range, but gives {}", what, h(&s)); is(&s, &xs[l..u], &what)?; parts.push((s, &xs[l..u], what)); }
            Err(_) => ck!(!good, "{}: refused", what),
        }
    }
    // sub-slices, of slices too
    let (p, pd) = parts.iter().find(|p| !p.1.is_empty()).map(|p| (p.0.clone(), p.1)).unwrap_or((a.clone(), xs));
    for _ in 0..4 {
        let i = c.r.below(pd.len() + 1);
        let j = i + c.r.below(pd.len() - i + 1);
        let what = format!("slice_ref({}..{}) of a slice of {} bytes", i, j, pd.len());
        let s = p.slice_ref(&p[i..j]);
        is(&s, &pd[i..j], &what)?;
        parts.push((s, &pd[i..j], what));
    }
    // what is outside is refused
    if pd.len() < xs.len() || c.r.chance(1, 2) {
        let i = c.r.below(n + 1);
        let j = i + c.r.below(n - i + 1);
        let (q, w) = (a[i..j].as_ptr() as usize, p.as_ptr() as usize);
        let inside = i == j || q >= w && q + (j - i) <= w + p.len();
        let r = catch_unwind(AssertUnwindSafe(|| p.slice_ref(&a[i..j])));
        match r { Ok(s) => { ck!(inside, "slice_ref of {} bytes that are not inside the blob gives {}", j - i, h(&s)); is(&s, &xs[i..j], "slice_ref")?; } Err(_) => ck!(!inside, "slice_ref of bytes inside the blob was refused") }
    }
    // copies and slices outlive what they were made from
    let cl = a.clone();
    let ow = p.clone().to_owned();
    drop(a);
    drop(p);
    drop(file);
    is(&cl, xs, "clone")?;
    is(&ow, pd, "to_owned")?;
    drop(cl);
    drop(b);
    for (s, d, what) in parts { is(&s, d, &format!("{} after the blob is gone", what))?; }
    is(&ow, pd, "to_owned")?;
    Ok(())
}
