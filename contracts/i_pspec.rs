// ---------------------------------------------------------------------------------------------------------------
// Keeping or removing the keys that have an accepted prefix
// ---------------------------------------------------------------------------------------------------------------

/// the decisions that are possible for a value
type AR = spec_fn(Seq<u8>, bool) -> bool;

/// a prefix of the key is in `b`, with a value that can be accepted
spec fn hit(ar: AR, b: T, k: Seq<u8>) -> bool {
    exists|n: int| #[trigger] hit_at(ar, b, k, n)
}

spec fn hit_at(ar: AR, b: T, k: Seq<u8>, n: int) -> bool {
    0 <= n <= k.len() && lk(b, k.take(n)) is Some && ar(lk(b, k.take(n))->0, true)
}

/// none of the prefixes of the key that are in `b` has to be accepted
spec fn miss(ar: AR, b: T, k: Seq<u8>) -> bool {
    forall|n: int| #[trigger] miss_at(ar, b, k, n)
}

spec fn miss_at(ar: AR, b: T, k: Seq<u8>, n: int) -> bool {
    0 <= n <= k.len() && lk(b, k.take(n)) is Some ==> ar(lk(b, k.take(n))->0, false)
}

spec fn hitc(ar: AR, b: Seq<T>, k: Seq<u8>) -> bool {
    exists|n: int| #[trigger] hitc_at(ar, b, k, n)
}

spec fn hitc_at(ar: AR, b: Seq<T>, k: Seq<u8>, n: int) -> bool {
    0 <= n <= k.len() && lkc(b, k.take(n)) is Some && ar(lkc(b, k.take(n))->0, true)
}

spec fn missc(ar: AR, b: Seq<T>, k: Seq<u8>) -> bool {
    forall|n: int| #[trigger] missc_at(ar, b, k, n)
}

spec fn missc_at(ar: AR, b: Seq<T>, k: Seq<u8>, n: int) -> bool {
    0 <= n <= k.len() && lkc(b, k.take(n)) is Some ==> ar(lkc(b, k.take(n))->0, false)
}

/// `k`: keep what has an accepted prefix; `e`: the operation may have failed half way
ghost struct KM {
    k: bool,
    e: bool,
}

spec fn kp(k: bool) -> KM {
    KM { k: k, e: false }
}

/// failed half way
spec fn ke(k: bool) -> KM {
    KM { k: k, e: true }
}

/// `keep`: keys with an accepted prefix stay, the others go; otherwise the other way round
spec fn pf(keep: KM, hit: bool, miss: bool, x: Option<Seq<u8>>, z: Option<Seq<u8>>) -> bool {
    if x is None {
        z is None
    } else {
        (keep.e && z == x) || (z == x && (if keep.k { hit } else { miss })) || (z is None && (if keep.k { miss } else { hit }))
    }
}

spec fn pk(ar: AR, keep: KM, a: T, b: T, r: T, k: Seq<u8>) -> bool {
    pf(keep, hit(ar, b, k), miss(ar, b, k), lk(a, k), lk(r, k))
}

spec fn pm(ar: AR, keep: KM, a: T, b: T, r: T) -> bool {
    (forall|k: Seq<u8>| #[trigger] pk(ar, keep, a, b, r, k)) && pfit(a, b, r)
}

spec fn pkc(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>, r: Seq<T>, k: Seq<u8>) -> bool {
    pf(keep, hitc(ar, b, k), missc(ar, b, k), lkc(a, k), lkc(r, k))
}

spec fn pmc(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>, r: Seq<T>) -> bool {
    forall|k: Seq<u8>| #[trigger] pkc(ar, keep, a, b, r, k)
}

proof fn lemma_hitc_nil(ar: AR, k: Seq<u8>)
    ensures
        !hitc(ar, Seq::empty(), k),
        missc(ar, Seq::empty(), k),
{
    assert forall|n: int| #[trigger] missc_at(ar, Seq::empty(), k, n) by {
        lemma_lkc_nil(k.take(n));
    }
    if hitc(ar, Seq::empty(), k) {
        let n = choose|n: int| #[trigger] hitc_at(ar, Seq::empty(), k, n);
        lemma_lkc_nil(k.take(n));
    }
}

proof fn lemma_hitc_one(ar: AR, t: T, k: Seq<u8>)
    requires
        t.p().len() > 0,
    ensures
        hitc(ar, seq![t], k) == hit(ar, t, k),
        missc(ar, seq![t], k) == miss(ar, t, k),
{
    assert forall|n: int| #[trigger] hitc_at(ar, seq![t], k, n) == hit_at(ar, t, k, n) by {
        lemma_lkc_one(t, k.take(n));
    }
    assert forall|n: int| #[trigger] missc_at(ar, seq![t], k, n) == miss_at(ar, t, k, n) by {
        lemma_lkc_one(t, k.take(n));
    }
    if hit(ar, t, k) {
        let n = choose|n: int| #[trigger] hit_at(ar, t, k, n);
        assert(hitc_at(ar, seq![t], k, n));
    }
    if missc(ar, seq![t], k) {
        assert forall|n: int| #[trigger] miss_at(ar, t, k, n) by {
            assert(missc_at(ar, seq![t], k, n));
        }
    }
    if miss(ar, t, k) {
        assert forall|n: int| #[trigger] missc_at(ar, seq![t], k, n) by {
            assert(miss_at(ar, t, k, n));
        }
    }
    if hitc(ar, seq![t], k) {
        let n = choose|n: int| #[trigger] hitc_at(ar, seq![t], k, n);
        assert(hit_at(ar, t, k, n));
    }
}

/// equal content, equal decisions
proof fn lemma_hit_eq(ar: AR, a: T, b: T, k: Seq<u8>)
    requires
        forall|k: Seq<u8>| #[trigger] lk(a, k) == lk(b, k),
    ensures
        hit(ar, a, k) == hit(ar, b, k),
        miss(ar, a, k) == miss(ar, b, k),
{
    assert forall|n: int| #[trigger] hit_at(ar, a, k, n) == hit_at(ar, b, k, n) by {
        assert(lk(a, k.take(n)) == lk(b, k.take(n)));
    }
    assert forall|n: int| #[trigger] miss_at(ar, a, k, n) == miss_at(ar, b, k, n) by {
        assert(lk(a, k.take(n)) == lk(b, k.take(n)));
    }
    if hit(ar, b, k) {
        let n = choose|n: int| #[trigger] hit_at(ar, b, k, n);
        assert(hit_at(ar, a, k, n));
    }
    if miss(ar, a, k) {
        assert forall|n: int| #[trigger] miss_at(ar, b, k, n) by {
            assert(miss_at(ar, a, k, n));
        }
    }
    if miss(ar, b, k) {
        assert forall|n: int| #[trigger] miss_at(ar, a, k, n) by {
            assert(miss_at(ar, b, k, n));
        }
    }
}

proof fn lemma_hitc_app(ar: AR, ts: Seq<T>, x: Seq<T>, c: u8, k: Seq<u8>)
    requires
        wfc(ts),
        below(ts, c as int),
        at_most(x, c),
    ensures
        hitc(ar, ts + x, k) == (if k.len() > 0 && k[0] == c { hitc(ar, x, k) } else { hitc(ar, ts, k) }),
        missc(ar, ts + x, k) == (if k.len() > 0 && k[0] == c { missc(ar, x, k) } else { missc(ar, ts, k) }),
{
    let u = if k.len() > 0 && k[0] == c { x } else { ts };
    let r = ts + x;
    assert forall|n: int| 0 <= n <= k.len() implies lkc(r, #[trigger] k.take(n)) == lkc(u, k.take(n)) by {
        lemma_lkc_app(ts, x, c, k.take(n));
        if n > 0 {
            assert(k.take(n)[0] == k[0]);
        }
    }
    assert forall|n: int| #[trigger] hitc_at(ar, r, k, n) == hitc_at(ar, u, k, n) by {
        if 0 <= n <= k.len() {
            assert(lkc(r, k.take(n)) == lkc(u, k.take(n)));
        }
    }
    assert forall|n: int| #[trigger] missc_at(ar, r, k, n) == missc_at(ar, u, k, n) by {
        if 0 <= n <= k.len() {
            assert(lkc(r, k.take(n)) == lkc(u, k.take(n)));
        }
    }
    if hitc(ar, u, k) {
        let n = choose|n: int| #[trigger] hitc_at(ar, u, k, n);
        assert(hitc_at(ar, r, k, n));
    }
    if missc(ar, r, k) {
        assert forall|n: int| #[trigger] missc_at(ar, u, k, n) by {
            assert(missc_at(ar, r, k, n));
        }
    }
    if missc(ar, u, k) {
        assert forall|n: int| #[trigger] missc_at(ar, r, k, n) by {
            assert(missc_at(ar, u, k, n));
        }
    }
}

proof fn lemma_pstep(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>, r: Seq<T>, x: Seq<T>, y: Seq<T>, z: Seq<T>, c: u8)
    requires
        wfc(a),
        wfc(b),
        wfc(r),
        below(a, c as int),
        below(b, c as int),
        below(r, c as int),
        at_most(x, c),
        at_most(y, c),
        at_most(z, c),
        pmc(ar, keep, a, b, r),
        pmc(ar, keep, x, y, z),
    ensures
        wfc(a + x),
        wfc(b + y),
        wfc(r + z),
        below(a + x, c as int + 1),
        below(b + y, c as int + 1),
        below(r + z, c as int + 1),
        pmc(ar, keep, a + x, b + y, r + z),
{
    lemma_wfc_app(a, x, c);
    lemma_wfc_app(b, y, c);
    lemma_wfc_app(r, z, c);
    assert forall|k: Seq<u8>| #[trigger] pkc(ar, keep, a + x, b + y, r + z, k) by {
        lemma_lkc_app(a, x, c, k);
        lemma_hitc_app(ar, b, y, c, k);
        lemma_lkc_app(r, z, c, k);
        assert(pkc(ar, keep, a, b, r, k));
        assert(pkc(ar, keep, x, y, z, k));
    }
}

/// whole lists that only one side has
proof fn lemma_plists(ar: AR, keep: KM, a: Seq<T>)
    ensures
        pmc(ar, keep, a, Seq::empty(), if keep.k { Seq::empty() } else { a }),
        pmc(ar, keep, Seq::empty(), a, Seq::empty()),
{
    let e = Seq::<T>::empty();
    let r = if keep.k { e } else { a };
    assert forall|k: Seq<u8>| #[trigger] pkc(ar, keep, a, e, r, k) by {
        lemma_lkc_nil(k);
        lemma_hitc_nil(ar, k);
    }
    assert forall|k: Seq<u8>| #[trigger] pkc(ar, keep, e, a, e, k) by {
        lemma_lkc_nil(k);
    }
}

spec fn pjinv(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int) -> bool {
    &&& wfc(a) && wfc(b) && wfc(rs)
    &&& 0 <= i <= a.len() && 0 <= j <= b.len()
    &&& pmc(ar, keep, a.take(i), b.take(j), rs)
    &&& below(a.take(i), lo) && below(b.take(j), lo) && below(rs, lo)
    &&& i < a.len() ==> a[i].p()[0] >= lo
    &&& j < b.len() ==> b[j].p()[0] >= lo
}

proof fn lemma_pjoin_init(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>)
    requires
        wfc(a),
        wfc(b),
    ensures
        pjinv(ar, keep, a, b, 0, 0, Seq::empty(), 0),
{
    lemma_plists(ar, keep, Seq::empty());
    assert(a.take(0) =~= Seq::empty());
    assert(b.take(0) =~= Seq::empty());
    assert(wfc(Seq::<T>::empty()));
}

proof fn lemma_pjoin_wf(a: Seq<T>, i: int)
    requires
        wfc(a),
        0 <= i <= a.len(),
    ensures
        wfc(a.take(i)),
        i < a.len() ==> wfn(a[i]) && a.take(i + 1) == a.take(i) + seq![a[i]] && at_most(seq![a[i]], a[i].p()[0]),
        i + 1 < a.len() ==> a[i].p()[0] < a[i + 1].p()[0],
{
    lemma_wfc_take(a, i);
    if i < a.len() {
        assert(a.take(i + 1) =~= a.take(i) + seq![a[i]]);
    }
}

proof fn lemma_pjoin_a(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        pjinv(ar, keep, a, b, i, j, rs, lo),
        i < a.len(),
        j < b.len() ==> a[i].p()[0] < b[j].p()[0],
    ensures
        pjinv(ar, keep, a, b, i + 1, j, if keep.k { rs } else { rs.push(a[i]) }, a[i].p()[0] + 1),
{
    lemma_pjoin_wf(a, i);
    lemma_pjoin_wf(b, j);
    let c = a[i].p()[0];
    lemma_below(a.take(i), lo, c as int);
    lemma_below(b.take(j), lo, c as int);
    lemma_below(rs, lo, c as int);
    let e = Seq::<T>::empty();
    let z = if keep.k { e } else { seq![a[i]] };
    lemma_plists(ar, keep, seq![a[i]]);
    lemma_pstep(ar, keep, a.take(i), b.take(j), rs, seq![a[i]], e, z, c);
    assert(b.take(j) + e =~= b.take(j));
    assert(rs + z =~= (if keep.k { rs } else { rs.push(a[i]) }));
}

proof fn lemma_pjoin_b(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        pjinv(ar, keep, a, b, i, j, rs, lo),
        j < b.len(),
        i < a.len() ==> b[j].p()[0] < a[i].p()[0],
    ensures
        pjinv(ar, keep, a, b, i, j + 1, rs, b[j].p()[0] + 1),
{
    lemma_pjoin_wf(a, i);
    lemma_pjoin_wf(b, j);
    let c = b[j].p()[0];
    lemma_below(a.take(i), lo, c as int);
    lemma_below(b.take(j), lo, c as int);
    lemma_below(rs, lo, c as int);
    let e = Seq::<T>::empty();
    lemma_plists(ar, keep, seq![b[j]]);
    lemma_pstep(ar, keep, a.take(i), b.take(j), rs, e, seq![b[j]], e, c);
    assert(a.take(i) + e =~= a.take(i));
    assert(rs + e =~= rs);
}

proof fn lemma_pjoin_ab(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int, r: T)
    requires
        pjinv(ar, keep, a, b, i, j, rs, lo),
        i < a.len(),
        j < b.len(),
        a[i].p()[0] == b[j].p()[0],
        wf(r),
        pm(ar, keep, a[i], b[j], r),
    ensures
        pjinv(ar, keep, a, b, i + 1, j + 1, if full(r) { rs.push(r) } else { rs }, a[i].p()[0] + 1),
{
    lemma_pjoin_wf(a, i);
    lemma_pjoin_wf(b, j);
    let c = a[i].p()[0];
    lemma_below(a.take(i), lo, c as int);
    lemma_below(b.take(j), lo, c as int);
    lemma_below(rs, lo, c as int);
    let x = a[i];
    let y = b[j];
    assert forall|k: Seq<u8>| #[trigger] lk(r, k) is Some implies k.len() > 0 && k[0] == c by {
        assert(pk(ar, keep, x, y, r, k));
        assert(k.take(x.p().len() as int)[0] == x.p()[0]);
    }
    lemma_cpl_pos(x.p(), y.p());
    lemma_child_of(r, c);
    assert forall|k: Seq<u8>| #[trigger] pkc(ar, keep, seq![x], seq![y], opt_list(r), k) by {
        lemma_lkc_one(x, k);
        lemma_hitc_one(ar, y, k);
        assert(pk(ar, keep, x, y, r, k));
        assert(lkc(opt_list(r), k) == lk(r, k));
    }
    lemma_pstep(ar, keep, a.take(i), b.take(j), rs, seq![x], seq![y], opt_list(r), c);
    assert(rs + opt_list(r) =~= (if full(r) { rs.push(r) } else { rs }));
}

proof fn lemma_pjoin_done(ar: AR, keep: KM, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        pjinv(ar, keep, a, b, i, j, rs, lo),
        i == a.len(),
        j == b.len(),
    ensures
        pmc(ar, keep, a, b, rs),
        wfc(rs),
{
    assert(a.take(i) =~= a);
    assert(b.take(j) =~= b);
}

/// decisions below a node
proof fn lemma_hit_node(ar: AR, b: T, k: Seq<u8>)
    ensures
        ({
            let q = k.skip(b.p().len() as int);
            if b.p().is_prefix_of(k) {
                &&& hit(ar, b, k) == ((b.v() is Some && ar(b.v()->0, true)) || hitc(ar, b.c(), q))
                &&& miss(ar, b, k) == ((b.v() is Some ==> ar(b.v()->0, false)) && missc(ar, b.c(), q))
            } else {
                !hit(ar, b, k) && miss(ar, b, k)
            }
        }),
{
    let p = b.p();
    let m = p.len() as int;
    let q = k.skip(m);
    if p.is_prefix_of(k) {
        assert(k.take(m) =~= p);
        assert(p.skip(m).len() == 0);
        assert(lk(b, k.take(m)) == b.v());
        assert forall|n: int| 0 < n <= q.len() implies #[trigger] lkc(b.c(), q.take(n)) == lk(b, k.take(m + n)) by {
            let kk = k.take(m + n);
            assert(kk.take(m) =~= p);
            assert(kk.skip(m) =~= q.take(n));
        }
        assert(q.take(0).len() == 0);
        assert forall|n: int| 0 <= n < m implies lk(b, #[trigger] k.take(n)) is None by {
        }
        if hit(ar, b, k) {
            let n = choose|n: int| #[trigger] hit_at(ar, b, k, n);
            assert(lk(b, k.take(n)) is Some);
            if n > m {
                assert(lkc(b.c(), q.take(n - m)) == lk(b, k.take(m + (n - m))));
                assert(hitc_at(ar, b.c(), q, n - m));
            }
        }
        if hitc(ar, b.c(), q) {
            let n = choose|n: int| #[trigger] hitc_at(ar, b.c(), q, n);
            assert(n > 0);
            assert(lkc(b.c(), q.take(n)) == lk(b, k.take(m + n)));
            assert(hit_at(ar, b, k, m + n));
        }
        if b.v() is Some && ar(b.v()->0, true) {
            assert(hit_at(ar, b, k, m));
        }
        if miss(ar, b, k) {
            assert(miss_at(ar, b, k, m));
            assert forall|n: int| #[trigger] missc_at(ar, b.c(), q, n) by {
                if 0 < n <= q.len() {
                    assert(lkc(b.c(), q.take(n)) == lk(b, k.take(m + n)));
                    assert(miss_at(ar, b, k, m + n));
                }
            }
        }
        if (b.v() is Some ==> ar(b.v()->0, false)) && missc(ar, b.c(), q) {
            assert forall|n: int| #[trigger] miss_at(ar, b, k, n) by {
                if m < n <= k.len() {
                    assert(lkc(b.c(), q.take(n - m)) == lk(b, k.take(m + (n - m))));
                    assert(missc_at(ar, b.c(), q, n - m));
                } else if 0 <= n < m {
                    assert(lk(b, k.take(n)) is None);
                }
            }
        }
    } else {
        assert forall|n: int| 0 <= n <= k.len() implies lk(b, #[trigger] k.take(n)) is None by {
            if p.is_prefix_of(k.take(n)) {
                assert(k.take(n).take(m) =~= k.take(m));
            }
        }
        assert forall|n: int| #[trigger] miss_at(ar, b, k, n) by {
            if 0 <= n <= k.len() {
                assert(lk(b, k.take(n)) is None);
            }
        }
    }
}

/// nodes with the same fragment; no accepted value at the node of `b` itself
proof fn lemma_pnode(ar: AR, keep: KM, a: T, b: T, r: T)
    requires
        a.p() == b.p(),
        a.p() == r.p(),
        b.v() is Some ==> ar(b.v()->0, false),
        r.v() == (if keep.k { None } else { a.v() }) || (keep.e && r.v() == a.v()),
        pmc(ar, keep, a.c(), b.c(), r.c()),
    ensures
        pm(ar, keep, a, b, r),
{
    lemma_cpl(a.p(), b.p());
    assert forall|k: Seq<u8>| #[trigger] pk(ar, keep, a, b, r, k) by {
        lemma_hit_node(ar, b, k);
        if a.p().is_prefix_of(k) {
            let q = k.skip(a.p().len() as int);
            assert(pkc(ar, keep, a.c(), b.c(), r.c(), q));
            if q.len() == 0 {
                assert forall|n: int| #[trigger] missc_at(ar, b.c(), q, n) by {
                    if 0 <= n <= q.len() {
                        assert(q.take(n).len() == 0);
                    }
                }
                if hitc(ar, b.c(), q) {
                    let n = choose|n: int| #[trigger] hitc_at(ar, b.c(), q, n);
                    assert(q.take(n).len() == 0);
                }
            }
        }
    }
}

/// an accepted value at the node of `b`, whose fragment is a prefix of that of `a`
proof fn lemma_pnode_hit(ar: AR, keep: KM, a: T, b: T)
    requires
        b.p().is_prefix_of(a.p()),
        b.v() is Some,
        ar(b.v()->0, true),
    ensures
        keep.k ==> pm(ar, keep, a, b, a),
        !keep.k ==> pm(ar, keep, a, b, t_empty()),
{
    let r = if keep.k { a } else { t_empty() };
    lemma_wf_full(a);
    lemma_cpl(a.p(), b.p());
    assert forall|k: Seq<u8>| #[trigger] pk(ar, keep, a, b, r, k) by {
        lemma_hit_node(ar, b, k);
        if a.p().is_prefix_of(k) {
            assert(k.take(b.p().len() as int) =~= k.take(a.p().len() as int).take(b.p().len() as int));
        }
        assert(lk(t_empty(), k) is None);
    }
}

/// nodes with different fragments
proof fn lemma_pnode_disjoint(ar: AR, keep: KM, a: T, b: T, n: nat)
    requires
        n == cpl(a.p(), b.p()),
        n < a.p().len(),
        n < b.p().len(),
    ensures
        !keep.k ==> pm(ar, keep, a, b, a),
        keep.k ==> pm(ar, keep, a, b, t_empty()),
{
    let r = if keep.k { t_empty() } else { a };
    lemma_wf_full(a);
    lemma_cpl(a.p(), b.p());
    assert forall|k: Seq<u8>| #[trigger] pk(ar, keep, a, b, r, k) by {
        lemma_hit_node(ar, b, k);
        if a.p().is_prefix_of(k) && b.p().is_prefix_of(k) {
            assert(a.p()[n as int] == k.take(a.p().len() as int)[n as int]);
            assert(b.p()[n as int] == k.take(b.p().len() as int)[n as int]);
        }
        assert(lk(t_empty(), k) is None);
    }
}

proof fn lemma_pm_mid(ar: AR, keep: KM, ta: T, tb: T, ta1: T, tb1: T, t2: T)
    requires
        forall|k: Seq<u8>| #[trigger] lk(ta1, k) == lk(ta, k),
        forall|k: Seq<u8>| #[trigger] lk(tb1, k) == lk(tb, k),
        ta1.p() == tb1.p(),
        t2.p() == ta1.p(),
        t2.p().len() >= cpl(ta.p(), tb.p()),
        tb1.v() is Some ==> ar(tb1.v()->0, false),
        t2.v() == (if keep.k { None } else { ta1.v() }) || (keep.e && t2.v() == ta1.v()),
        pmc(ar, keep, ta1.c(), tb1.c(), t2.c()),
    ensures
        pm(ar, keep, ta, tb, t2),
{
    lemma_pnode(ar, keep, ta1, tb1, t2);
    assert forall|k: Seq<u8>| #[trigger] pk(ar, keep, ta, tb, t2, k) by {
        assert(pk(ar, keep, ta1, tb1, t2, k));
        assert(lk(ta1, k) == lk(ta, k));
        lemma_hit_eq(ar, tb1, tb, k);
    }
}

proof fn lemma_pm_canonized<S: BlobStore>(ar: AR, keep: KM, a: T, b: T, n: NV<S>, s: S)
    requires
        pm(ar, keep, a, b, tv(n, s)),
        rep(n, s),
        wfc(tv(n, s).c()),
        n.c is Id ==> wf(tv(n, s)) || !compressed() || !full(tv(n, s)),
    ensures
        wf(canonized(n, s)),
        pm(ar, keep, a, b, canonized(n, s)),
{
    lemma_canonized(n, s);
    let r = canonized(n, s);
    assert forall|k: Seq<u8>| #[trigger] pk(ar, keep, a, b, r, k) by {
        assert(pk(ar, keep, a, b, tv(n, s), k));
        assert(lk(r, k) == lk(tv(n, s), k));
    }
}

/// what is right after success is right after a failure, and so is a tree that has not been changed
proof fn lemma_pm_half(ar: AR, keep: bool, a: T, b: T, r: T)
    ensures
        pm(ar, kp(keep), a, b, r) ==> pm(ar, ke(keep), a, b, r),
        pm(ar, ke(keep), a, b, a),
{
    lemma_cpl(a.p(), b.p());
    if pm(ar, kp(keep), a, b, r) {
        assert forall|k: Seq<u8>| #[trigger] pk(ar, ke(keep), a, b, r, k) by {
            assert(pk(ar, kp(keep), a, b, r, k));
        }
    }
    assert forall|k: Seq<u8>| #[trigger] pk(ar, ke(keep), a, b, a, k) by {
    }
}

proof fn lemma_pmc_half(ar: AR, keep: bool, a: Seq<T>, b: Seq<T>, r: Seq<T>)
    ensures
        pmc(ar, kp(keep), a, b, r) ==> pmc(ar, ke(keep), a, b, r),
        pmc(ar, ke(keep), a, b, a),
{
    if pmc(ar, kp(keep), a, b, r) {
        assert forall|k: Seq<u8>| #[trigger] pkc(ar, ke(keep), a, b, r, k) by {
            assert(pkc(ar, kp(keep), a, b, r, k));
        }
    }
    assert forall|k: Seq<u8>| #[trigger] pkc(ar, ke(keep), a, b, a, k) by {
    }
}

proof fn lemma_pjinv_half(ar: AR, keep: bool, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        pjinv(ar, kp(keep), a, b, i, j, rs, lo),
    ensures
        pjinv(ar, ke(keep), a, b, i, j, rs, lo),
{
    lemma_pmc_half(ar, keep, a.take(i), b.take(j), rs);
}

/// the state of a node while its children have not been loaded
proof fn lemma_pstuck<S: BlobStore>(ar: AR, keep: bool, n: NV<S>, s: S, ta: T, tb: T, ta1: T, tb1: T, z: Option<Seq<u8>>)
    requires
        forall|k: Seq<u8>| #[trigger] lk(ta1, k) == lk(ta, k),
        forall|k: Seq<u8>| #[trigger] lk(tb1, k) == lk(tb, k),
        ta1.p() == tb1.p(),
        ta1.p().len() >= cpl(ta.p(), tb.p()),
        tb1.v() is Some ==> ar(tb1.v()->0, false),
        z == (if keep { None } else { ta1.v() }),
        wfc(ta1.c()),
        repr(n, s, T::Node { p: ta1.p(), v: z, c: ta1.c() }),
    ensures
        tv(n, s) == (T::Node { p: ta1.p(), v: z, c: ta1.c() }),
        pm(ar, ke(keep), ta, tb, tv(n, s)),
        !compressed() && n.c is Id && n.c->Id_0.len() > 0 ==> wf(tv(n, s)),
{
    lemma_pmc_half(ar, keep, ta1.c(), tb1.c(), ta1.c());
    lemma_pm_mid(ar, ke(keep), ta, tb, ta1, tb1, tv(n, s));
    if n.c is Id && n.c->Id_0.len() > 0 {
        lemma_id_full(n, s);
    }
}

/// a node with neither value nor children is an empty tree
proof fn lemma_pm_nil(ar: AR, keep: KM, a: T, b: T, r: T)
    requires
        pm(ar, keep, a, b, t_empty()),
        !full(r),
    ensures
        pm(ar, keep, a, b, r),
{
    lemma_wf_full(r);
    assert forall|k: Seq<u8>| #[trigger] pk(ar, keep, a, b, r, k) by {
        assert(pk(ar, keep, a, b, t_empty(), k));
        lemma_lkc_nil(k.skip(r.p().len() as int));
        assert(r.c() =~= Seq::empty());
        assert(lk(r, k) is None);
    }
}

/// a child of the left list that stays although the operation has not come to it
proof fn lemma_pjoin_rest(ar: AR, keep: bool, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        pjinv(ar, ke(keep), a, b, i, j, rs, lo),
        i < a.len(),
        j < b.len() ==> a[i].p()[0] < b[j].p()[0],
    ensures
        pjinv(ar, ke(keep), a, b, i + 1, j, rs.push(a[i]), a[i].p()[0] + 1),
{
    lemma_pjoin_wf(a, i);
    lemma_pjoin_wf(b, j);
    let c = a[i].p()[0];
    lemma_below(a.take(i), lo, c as int);
    lemma_below(b.take(j), lo, c as int);
    lemma_below(rs, lo, c as int);
    let e = Seq::<T>::empty();
    lemma_pmc_half(ar, keep, seq![a[i]], e, e);
    lemma_pstep(ar, ke(keep), a.take(i), b.take(j), rs, seq![a[i]], e, seq![a[i]], c);
    assert(b.take(j) + e =~= b.take(j));
    assert(rs + seq![a[i]] =~= rs.push(a[i]));
}

/// the rest of the list stays as it is
proof fn lemma_prest(ar: AR, keep: bool, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        pjinv(ar, ke(keep), a, b, i, j, rs, lo),
    ensures
        pmc(ar, ke(keep), a, b, rs + a.skip(i)),
        wfc(rs + a.skip(i)),
    decreases a.len() - i + b.len() - j,
{
    if i == a.len() && j == b.len() {
        lemma_pjoin_done(ar, ke(keep), a, b, i, j, rs, lo);
        assert(rs + a.skip(i) =~= rs);
    } else if i < a.len() && (j == b.len() || a[i].p()[0] < b[j].p()[0]) {
        lemma_pjoin_rest(ar, keep, a, b, i, j, rs, lo);
        lemma_prest(ar, keep, a, b, i + 1, j, rs.push(a[i]), a[i].p()[0] + 1);
        assert(rs.push(a[i]) + a.skip(i + 1) =~= rs + a.skip(i));
    } else if j < b.len() && (i == a.len() || b[j].p()[0] < a[i].p()[0]) {
        lemma_pjoin_b(ar, ke(keep), a, b, i, j, rs, lo);
        lemma_prest(ar, keep, a, b, i, j + 1, rs, b[j].p()[0] + 1);
    } else {
        lemma_pm_half(ar, keep, a[i], b[j], a[i]);
        lemma_pjoin_wf(a, i);
        lemma_wf_full(a[i]);
        lemma_pjoin_ab(ar, ke(keep), a, b, i, j, rs, lo, a[i]);
        lemma_prest(ar, keep, a, b, i + 1, j + 1, rs.push(a[i]), a[i].p()[0] + 1);
        assert(rs.push(a[i]) + a.skip(i + 1) =~= rs + a.skip(i));
    }
}

/// the decisions of a function
spec fn accepts<B: BlobStore, E, F: Fn(&ValueRef<B>) -> Result<bool, E>>(f: F, bb: B) -> AR {
    |y: Seq<u8>, d: bool| exists|b: &ValueRef<B>| #[trigger] call_ensures(f, (b,), Ok(d)) && vrok(*b, bb) && rv(bb, b.vv()) == Some(y)
}

spec fn accepts_ok<B: BlobStore, E, F: Fn(&ValueRef<B>) -> Result<bool, E>>(f: F, bb: B) -> bool {
    forall|b: &ValueRef<B>| vrok(*b, bb) ==> #[trigger] call_requires(f, (b,))
}
