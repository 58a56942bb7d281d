//! crashes (C17) and threads (C18)
use crate::cases::Cx;
use crate::ck;
use crate::util::*;
use radixdb::store::{BlobStore, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::io::{AsRawFd, FromRawFd, IntoRawFd};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ what the process tells the operating system
enum Io { Write(u64, Vec<u8>), Len(u64) }
struct Rec { fd: i32, since: Vec<Io>, disk: Vec<u8>, fail: bool, syncs: usize }
static REC: Mutex<Option<Rec>> = Mutex::new(None);

extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn __errno_location() -> *mut i32;
}
fn rec(fd: i32, f: impl FnOnce(&mut Rec)) {
    if fd <= 2 { return; }
    if let Ok(mut g) = REC.lock() { if let Some(r) = g.as_mut() { if r.fd == fd { f(r) } } }
}
fn content(fd: i32) -> Vec<u8> {
    let f = unsafe { File::from_raw_fd(fd) };
    let n = f.metadata().map(|m| m.len()).unwrap_or(0) as usize;
    let mut v = vec![0; n];
    let _ = f.read_exact_at(&mut v, 0);
    let _ = f.into_raw_fd();
    v
}
#[cfg(all(target_os = "linux", target_arch = "x86_64"))]
mod hooks {
    use super::*;
    #[no_mangle]
    pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
        let at = if fd > 2 { lseek(fd, 0, 1) } else { 0 };
        let r = syscall(1, fd as i64, p, n) as isize;
        if r > 0 { rec(fd, |x| x.since.push(Io::Write(at.max(0) as u64, std::slice::from_raw_parts(p, r as usize).to_vec()))); }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, at: i64) -> isize {
        let r = syscall(18, fd as i64, p, n, at) as isize;
        if r > 0 { rec(fd, |x| x.since.push(Io::Write(at as u64, std::slice::from_raw_parts(p, r as usize).to_vec()))); }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
        let r = syscall(77, fd as i64, n) as i32;
        if r == 0 { rec(fd, |x| x.since.push(Io::Len(n as u64))); }
        r
    }
    unsafe fn sync(fd: i32) -> i32 {
        let mut fail = false;
        rec(fd, |x| { fail = x.fail; if !fail { x.disk = content(fd); x.since.clear(); x.syncs += 1; } });
        if fail { *__errno_location() = 5; -1 } else { 0 }
    }
    #[no_mangle]
    pub unsafe extern "C" fn fsync(fd: i32) -> i32 { sync(fd) }
    #[no_mangle]
    pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 { sync(fd) }
}

fn apply(d: &mut Vec<u8>, at: u64, b: &[u8]) {
    let at = at as usize;
    if d.len() < at + b.len() { d.resize(at + b.len(), 0); }
    d[at..at + b.len()].copy_from_slice(b);
}

/// what may be on the disk after a crash: the state of the last sync, plus any part of what was done since; a change of the
/// size field happens in one piece
fn crashed(c: &mut Cx, r: &Rec) -> Vec<u8> {
    let mut d = r.disk.clone();
    let mode = c.r.below(4);
    let cut = c.r.below(r.since.len() + 1);
    for (i, io) in r.since.iter().enumerate() {
        if match mode { 0 => i >= cut, 1 => c.r.chance(1, 2), 2 => c.r.chance(1, 8), _ => false } { continue; }
        match io {
            Io::Len(n) => d.resize(*n as usize, 0),
            Io::Write(at, b) if *at < 4096 && b.len() <= 8 => apply(&mut d, *at, b),
            Io::Write(at, b) => {
                if mode == 0 || mode == 3 && c.r.chance(1, 2) { apply(&mut d, *at, b) } else {
                    let k = c.r.below(b.len() + 1);
                    let j = c.r.below(k + 1);
                    apply(&mut d, *at + j as u64, &b[j..k]);
                }
            }
        }
    }
    d
}

pub fn crash(c: &mut Cx) -> R {
    let r = crash2(c);
    *REC.lock().unwrap() = None;
    r
}
fn crash2(c: &mut Cx) -> R {
    let page = *c.r.pick(&[16u64, 24, 64, 128, 1000, 1024, 4096, 16384]);
    let mut disk: Vec<u8> = vec![];
    let mut synced: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut trees: Vec<(Vec<u8>, M)> = vec![];
    let mut ever = false;
    for g in 0..2 + c.r.below(2) {
        let mut f = tmpfile();
        e(f.write_all(&disk))?;
        let fd = f.as_raw_fd();
        let at = *c.r.pick(&[SeekFrom::Start(0), SeekFrom::End(0)]);
        let _ = f.seek(at);
        *REC.lock().unwrap() = Some(Rec { fd, since: vec![], disk: disk.clone(), fail: false, syncs: 0 });
        let s = e(PagedFileStore::new(f, page)).map_err(|m| format!("reopening after a crash: {}", m))?;
        let last = s.last_id().map(|x| u64::from_be_bytes(x)).unwrap_or(0);
        for (id, d) in &synced {
            let n = u64::from_be_bytes(id[..].try_into().unwrap());
            ck!(n <= last, "generation {}: last_id {} is before the synced blob {}", g, last, n);
            let x = e(s.read(id)).map_err(|m| format!("generation {}: synced blob {} is lost: {}", g, h(id), m))?;
            ck!(x.as_ref() == &d[..], "generation {}: synced blob {} reads {} expected {}", g, h(id), h(&x), h(d));
        }
        for (id, m) in &trees {
            let t = e(RadixTree::try_load(s.clone(), Some(&id[..]))).map_err(|m| format!("generation {}: synced tree is lost: {}", g, m))?;
            let u: Vec<K> = m.keys().cloned().collect();
            same::<PagedFileStore>(&t, m, &u, "tree that was synced before a crash")?;
        }
        let d: DynBlobStore = Arc::new(s.clone());
        let mut pend: Vec<(Vec<u8>, Vec<u8>)> = vec![];
        let mut ptrees: Vec<(Vec<u8>, M)> = vec![];
        for i in 0..1 + c.r.below(5 + 2 * c.size) {
            match c.r.below(9) {
                0 | 1 => {
                    let fail = c.r.chance(1, 10);
                    REC.lock().unwrap().as_mut().unwrap().fail = fail;
                    let dy = c.r.chance(1, 2);
                    let r = if dy { d.sync() } else { s.sync() };
                    let _ = writeln!(c.log, "sync (dyn {}) fail {} => {}", dy, fail, r.is_ok());
                    REC.lock().unwrap().as_mut().unwrap().fail = false;
                    ck!(r.is_ok() != fail, "sync: ok={} although fsync ok={}", r.is_ok(), !fail);
                    if !fail { ever = true; synced.append(&mut pend); trees.append(&mut ptrees); }
                }
                2 if page >= 1000 => {
                    let (am, _, _) = c.pair();
                    let t = match plain(&am).try_attached(s.clone()) { Ok(t) => t, Err(_) => continue };
                    match t.clone().try_reattach() {
                        Ok(id) => { let _ = writeln!(c.log, "tree {} => {}", hm(&am), h(&id)); ptrees.push((id, am)) }
                        Err(_) => { let _ = writeln!(c.log, "tree too large"); }
                    }
                }
                3 => { if let Some((id, d)) = synced.iter().chain(pend.iter()).last() { let x = e(s.read(id))?; ck!(x.as_ref() == &d[..], "blob {} reads {} expected {}", h(id), h(&x), h(d)); } }
                _ => {
                    let len = if c.r.chance(1, 4) { page as usize - 8 - c.r.below(8.min(page as usize - 7)) } else { c.r.below((page as usize - 7).min(40)) };
                    let data: Vec<u8> = (0..len).map(|j| (g * 59 + i * 31 + j * 7 + 1) as u8).collect();
                    let id = e(s.write(&data))?;
                    let _ = writeln!(c.log, "write {} bytes => {}", len, h(&id));
                    ck!(synced.iter().chain(pend.iter()).all(|x| x.0 != id), "id {} handed out twice", h(&id));
                    pend.push((id, data));
                }
            }
        }
        let rc = REC.lock().unwrap().take().unwrap();
        disk = crashed(c, &rc);
        let _ = writeln!(c.log, "crash: {} operations since the last sync, {} bytes left", rc.since.len(), disk.len());
        // before the first sync nothing is promised
        if !ever { disk.clear(); }
    }
    Ok(())
}

// ------------------------------------------------------------------ threads
fn shared<T: Send + Sync>(x: &T) -> &T { x }

pub fn threads(c: &mut Cx) -> R {
    match c.r.below(5) {
        0 => { let s = MemStore::default(); thr_store(c, s.clone(), 200)?; thr_tree(c, s) }
        1 => { let s = e(PagedFileStore::new(tmpfile(), 64))?; thr_store(c, s, 56) }
        2 => { let s = e(PagedFileStore::new(tmpfile(), 1 << 20))?; thr_store(c, s.clone(), 200)?; thr_tree(c, s) }
        3 => { let s: DynBlobStore = Arc::new(MemStore::default()); thr_blobs(c, &s, 100) }
        _ => thr_det(c),
    }
}
fn thr_store<S: BlobStore + Clone>(c: &mut Cx, s: S, max: usize) -> R { thr_blobs(c, &s, max) }
/// several threads write and read; ids are unique, every thread reads what it or others wrote
fn thr_blobs<S: BlobStore + Clone>(c: &mut Cx, s: &S, max: usize) -> R {
    shared(s);
    let all: Mutex<Vec<(Vec<u8>, Vec<u8>)>> = Mutex::new(vec![]);
    let n = 10 + c.r.below(60);
    let nt = 2 + c.r.below(3);
    let seeds: Vec<u64> = (0..nt).map(|_| c.r.next()).collect();
    let _ = writeln!(c.log, "{} threads, {} operations each => blobs of up to {} bytes", nt, n, max);
    let bar = std::sync::Barrier::new(nt);
    let out: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().enumerate().map(|(t, sd)| { let all = &all; let s = s.clone(); let bar = &bar; sc.spawn(move || -> R {
            let mut r = Rng::new(*sd, t as u64);
            bar.wait();
            for i in 0..n {
                let len = 8 + r.below(max - 7);
                let data: Vec<u8> = (0..len).map(|j| (t * 83 + i * 31 + j * 7 + (j / 8) * i) as u8).collect();
                let id = e(s.write(&data))?;
                let x = e(s.read(&id))?;
                ck!(x.as_ref() == &data[..], "thread {}: blob {} reads {} expected {}", t, h(&id), h(&x), h(&data));
                all.lock().unwrap().push((id, data));
                let (id, d) = { let g = all.lock().unwrap(); r.pick(&g).clone() };
                let x = e(s.read(&id))?;
                ck!(x.as_ref() == &d[..], "thread {}: blob {} of some thread reads {} expected {}", t, h(&id), h(&x), h(&d));
                if r.chance(1, 16) { e(s.sync())?; }
            }
            Ok(())
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in out { r?; }
    let g = all.into_inner().unwrap();
    let ids: std::collections::BTreeSet<_> = g.iter().map(|x| &x.0).collect();
    ck!(ids.len() == g.len(), "{} ids for {} blobs", ids.len(), g.len());
    for (id, d) in &g { let x = e(s.read(id))?; ck!(x.as_ref() == &d[..], "blob {} reads {} expected {}", h(id), h(&x), h(d)); }
    Ok(())
}
fn thr_tree<S: St>(c: &mut Cx, s: S) -> R {
    let (am, bm, _) = c.pair();
    let mut t = e(plain(&am).try_attached(s.clone()))?;
    if c.r.chance(2, 3) { e(t.try_reattach())?; }
    thr_any(c, t, am, bm)
}
fn thr_det(c: &mut Cx) -> R {
    let (am, bm, _) = c.pair();
    let t = plain(&am);
    thr_any(c, t, am, bm)
}
/// every thread updates its own copy
fn thr_any<S: St>(c: &mut Cx, t0: RT<S>, am: M, bm: M) -> R {
    shared(&t0);
    let u = c.uni(&[&am, &bm], &[]);
    let nt = 2 + c.r.below(3);
    let seeds: Vec<u64> = (0..nt).map(|_| c.r.next()).collect();
    let _ = writeln!(c.log, "{} threads with copies of {} => {}", nt, S::NAME, hm(&am));
    let bar = std::sync::Barrier::new(nt);
    let out: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = seeds.iter().enumerate().map(|(i, sd)| { let (t0, u, am, bm, bar): (_, &Vec<K>, _, _, _) = (&t0, &u, &am, &bm, &bar); sc.spawn(move || -> R {
            let mut r = Rng::new(*sd, i as u64);
            bar.wait();
            let mut t = t0.clone();
            let mut m = am.clone();
            for j in 0..6 {
                let keys: Vec<&K> = bm.keys().collect();
                let k = if !keys.is_empty() && r.chance(1, 2) { (*r.pick(&keys)).clone() } else { r.pick(u).clone() };
                match r.below(4) {
                    0 | 1 => { let v = val(&mut r, j + 100 * i as u64); S::insert(&mut t, &k, &v)?; m.insert(k, v); }
                    2 => { S::remove(&mut t, &k)?; m.remove(&k); }
                    _ => { S::remove_prefix(&mut t, &k)?; m.retain(|q, _| !q.starts_with(&k)); }
                }
                let q = r.pick(u);
                ck!(S::get(t0, q)? == am.get(q).cloned(), "the shared tree changed at {}", h(q));
            }
            same::<S>(&t, &m, u, "the copy of a thread")?;
            drop(t);
            Ok(())
        }) }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    for r in out { r?; }
    same::<S>(&t0, &am, &u, "the tree that was copied")
}
