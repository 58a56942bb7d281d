mod bytes;
mod cases;
mod conc;
mod util;
use cases::Cx;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

struct Counting;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(1, Ordering::Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(1, Ordering::Relaxed); std::ptr::write_bytes(p, 0xDD, l.size().min(64)); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;

type F = fn(&mut Cx) -> util::R;
/// name, function, number of key-set pairs enumerated exhaustively first (0 = none, 1 = single sets, 2 = pairs)
const TABLE: &[(&str, F, u8)] = &[
    ("map", cases::map_ops, 2),
    ("ordered", cases::ordered, 1),
    ("prefix", cases::prefix, 1),
    ("outer", cases::outer, 2),
    ("inner", cases::inner, 2),
    ("left", cases::left, 2),
    ("bulk", cases::bulk, 2),
    ("group", cases::group, 1),
    ("equality", cases::equality, 2),
    ("persist", cases::persist, 1),
    ("snapshot", cases::snapshot, 1),
    ("blobs", cases::blobs, 0),
    ("malformed", cases::malformed, 0),
    ("faults", cases::faults, 2),
    ("damaged", cases::damaged, 0),
    ("crash", conc::crash, 0),
    ("threads", conc::threads, 0),
    ("bytes", bytes::bytes, 0),
];

fn small(ex: u8, i: u64) -> Option<(u64, u64)> {
    match ex {
        1 if i < 4 * 128 => Some((i % 128, 127 - i % 128)),
        2 if i < 128 * 128 => Some((i / 128, i % 128)),
        _ => None,
    }
}

const LEAK: &str = "heap allocations not released";

/// a leak counts if it happens every time: something may be allocated once and for all
fn one(f: F, ex: u8, seed: u64, i: u64, leak: bool) -> (util::R, String) {
    let mut x = once(f, ex, seed, i, leak);
    for _ in 0..2 { if matches!(&x.0, Err(m) if m.contains(LEAK)) { x = once(f, ex, seed, i, leak); } }
    x
}

fn once(f: F, ex: u8, seed: u64, i: u64, leak: bool) -> (util::R, String) {
    let mut cx = Cx { r: util::Rng::new(seed, i), size: 1 + ((i / 40) % 12) as usize, log: String::new(), small: small(ex, i) };
    if cx.small.is_none() { cx.size = 1 + (i % 12) as usize; }
    util::BIG.store(false, Ordering::Relaxed);
    let before = LIVE.load(Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
    let mut r = match r {
        Ok(x) => x,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            let loc = LOC.with(|l| l.borrow().clone());
            Err(format!("panic at {}: {}", loc, m))
        }
    };
    // a paged file store refuses what does not fit into a page: not a failure (the blobs suite checks when it does)
    if util::BIG.load(Ordering::Relaxed) && matches!(&r, Err(m) if m.contains("block too large for this store")) { r = Ok(()); }
    let log = std::mem::take(&mut cx.log);
    drop(cx);
    if leak && r.is_ok() {
        let after = LIVE.load(Ordering::Relaxed) - if log.capacity() > 0 { 1 } else { 0 };
        if after != before { r = Err(format!("{} {}", after - before, LEAK)); }
    }
    (r, log)
}

thread_local!(static LOC: std::cell::RefCell<String> = std::cell::RefCell::new(String::with_capacity(256)));

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let name = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1);
    let ms: u64 = get("--ms").and_then(|x| x.parse().ok()).unwrap_or(5000);
    let leak = !a.iter().any(|x| x == "--noleak") && name != "threads" && name != "crash";
    let Some(&(_, f, ex)) = TABLE.iter().find(|x| x.0 == name) else { eprintln!("unknown suite"); std::process::exit(3) };
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LOC.with(|l| { let mut l = l.borrow_mut(); l.clear(); l.push_str(&s) });
    }));
    if let Some(c) = get("--case") {
        let i: u64 = c.parse().unwrap();
        let (r, log) = one(f, ex, seed, i, leak);
        println!("{}", log);
        match r { Ok(()) => println!("PASS"), Err(m) => { println!("FAIL {}", m); std::process::exit(1) } }
        return;
    }
    let cur = get("--current");
    let from: u64 = get("--from").and_then(|x| x.parse().ok()).unwrap_or(0);
    let step: u64 = get("--step").and_then(|x| x.parse().ok()).unwrap_or(1);
    let max: u64 = get("--max").and_then(|x| x.parse().ok()).unwrap_or(u64::MAX);
    let file = cur.map(|p| std::fs::File::create(p).unwrap());
    let t = Instant::now();
    let mut n = 0u64;
    let mut i = from;
    let mut fails = 0;
    let all = a.iter().any(|x| x == "--all");
    let mut kinds = std::collections::BTreeSet::new();
    let mut sample = String::new();
    let mut distinct: std::collections::HashSet<u64> = Default::default();
    while t.elapsed() < Duration::from_millis(ms) && i < max {
        if let Some(f) = &file { use std::os::unix::fs::FileExt; let _ = f.write_at(&i.to_le_bytes(), 0); }
        let (r, log) = one(f, ex, seed, i, leak);
        n += 1;
        if log.lines().count() > 1 || log.contains("=>") {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            log.hash(&mut h);
            distinct.insert(h.finish());
        }
        if n == 50 { sample = log.clone(); }
        if let Err(m) = r {
            fails += 1;
            let k: String = m.chars().take(48).collect();
            if !all || kinds.insert(k) {
                println!("FAIL suite={} seed={} case={} {}\n---\n{}---", name, seed, i, m, log);
            }
            if !all { std::process::exit(1); }
        }
        i += step;
    }
    println!("DONE suite={} seed={} cases={} distinct={} exhaustive={} fails={} secs={:.1}", name, seed, n, distinct.len(), match ex { 1 => 512, 2 => 16384, _ => 0 }, fails, t.elapsed().as_secs_f64());
    println!("SAMPLE {}", sample.replace('\n', " ; "));
}
