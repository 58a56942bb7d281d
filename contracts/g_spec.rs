// ---------------------------------------------------------------------------------------------------------------
// Merging two trees
// ---------------------------------------------------------------------------------------------------------------

/// what a merge makes of the values that the two sides have for a key
type MR = spec_fn(Option<Seq<u8>>, Option<Seq<u8>>, Option<Seq<u8>>) -> bool;

/// nothing comes from nothing
spec fn strict(m: MR) -> bool {
    forall|z: Option<Seq<u8>>| #[trigger] m(None, None, z) <==> z is None
}

/// what only the left side has stays
spec fn keeps_left(m: MR) -> bool {
    forall|x: Option<Seq<u8>>| #[trigger] m(x, None, x)
}

/// what only the right side has stays
spec fn keeps_right(m: MR) -> bool {
    forall|x: Option<Seq<u8>>| #[trigger] m(None, x, x)
}

/// what only the left side has goes
spec fn drops_left(m: MR) -> bool {
    forall|x: Option<Seq<u8>>| #[trigger] m(x, None, None)
}

spec fn drops_right(m: MR) -> bool {
    forall|x: Option<Seq<u8>>| #[trigger] m(None, x, None)
}

spec fn mk(m: MR, a: T, b: T, r: T, k: Seq<u8>) -> bool {
    m(lk(a, k), lk(b, k), lk(r, k))
}

spec fn merged(m: MR, a: T, b: T, r: T) -> bool {
    (forall|k: Seq<u8>| #[trigger] mk(m, a, b, r, k)) && pfit(a, b, r)
}

/// what the fragments of two nodes have in common stays in front
spec fn pfit(a: T, b: T, r: T) -> bool {
    full(r) ==> r.p().len() >= cpl(a.p(), b.p())
}

spec fn mkc(m: MR, a: Seq<T>, b: Seq<T>, r: Seq<T>, k: Seq<u8>) -> bool {
    m(lkc(a, k), lkc(b, k), lkc(r, k))
}

spec fn mergedc(m: MR, a: Seq<T>, b: Seq<T>, r: Seq<T>) -> bool {
    forall|k: Seq<u8>| #[trigger] mkc(m, a, b, r, k)
}

/// all first bytes are below / at least a bound
spec fn below(ts: Seq<T>, lo: int) -> bool {
    forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).p().len() > 0 && ts[i].p()[0] < lo
}

spec fn above(ts: Seq<T>, lo: int) -> bool {
    forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).p().len() > 0 && ts[i].p()[0] >= lo
}

/// at most one node, with a given first byte
spec fn at_most(ts: Seq<T>, c: u8) -> bool {
    ts.len() <= 1 && (ts.len() == 1 ==> wfn(ts[0]) && ts[0].p()[0] == c)
}

/// content of a node: a value or children
spec fn full(t: T) -> bool {
    t.v() is Some || t.c().len() > 0
}

spec fn opt_list(t: T) -> Seq<T> {
    if full(t) {
        seq![t]
    } else {
        Seq::empty()
    }
}

proof fn lemma_wf_full(t: T)
    ensures
        wf(t) && t.p().len() > 0 ==> wfn(t) && full(t),
        wfn(t) ==> wf(t) && full(t),
        wf(t) && !full(t) ==> t == t_empty(),
        wf(t_empty()),
        forall|k: Seq<u8>| lk(t_empty(), k) is None,
{
    if wf(t) && !full(t) {
        assert(t.p() =~= Seq::empty());
        assert(t.c() =~= Seq::empty());
        assert(t == T::Node { p: t.p(), v: t.v(), c: t.c() });
    }
    assert(wfc(Seq::<T>::empty()));
}

/// a node put behind a list
proof fn lemma_wfc_app(ts: Seq<T>, x: Seq<T>, c: u8)
    requires
        wfc(ts),
        below(ts, c as int),
        at_most(x, c),
    ensures
        wfc(ts + x),
        below(ts + x, c as int + 1),
{
    let r = ts + x;
    assert forall|i: int| 0 <= i < r.len() implies wfn(#[trigger] r[i]) && r[i].p()[0] <= c by {
        if i < ts.len() {
            assert(r[i] == ts[i]);
        } else {
            assert(r[i] == x[0]);
        }
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).p()[0] < (#[trigger] r[j]).p()[0] by {
        assert(r[i] == ts[i]);
        if j < ts.len() {
            assert(r[j] == ts[j]);
        } else {
            assert(r[j] == x[0]);
        }
    }
}

proof fn lemma_lkc_app(ts: Seq<T>, x: Seq<T>, c: u8, k: Seq<u8>)
    requires
        wfc(ts),
        below(ts, c as int),
        at_most(x, c),
    ensures
        lkc(ts + x, k) == (if k.len() > 0 && k[0] == c {
            lkc(x, k)
        } else {
            lkc(ts, k)
        }),
{
    lemma_wfc_app(ts, x, c);
    let r = ts + x;
    if k.len() > 0 {
        if k[0] == c {
            if x.len() == 1 {
                assert(isc(r, c, ts.len() as int));
                assert(isc(x, c, 0));
                lemma_idx(r, c, ts.len() as int);
                assert(wfc(x)) by {
                    assert(x =~= Seq::<T>::empty() + x);
                    assert(wfc(Seq::<T>::empty()));
                    lemma_wfc_app(Seq::empty(), x, c);
                }
                lemma_idx(x, c, 0);
            } else {
                if hasc(r, c) {
                    let i = idx(r, c);
                    assert(isc(r, c, i));
                    assert(r[i] == ts[i]);
                }
                assert(!hasc(x, c));
            }
        } else {
            if hasc(ts, k[0]) {
                let i = idx(ts, k[0]);
                assert(isc(ts, k[0], i));
                assert(r[i] == ts[i]);
                assert(isc(r, k[0], i));
                lemma_idx(r, k[0], i);
            } else if hasc(r, k[0]) {
                let i = idx(r, k[0]);
                assert(isc(r, k[0], i));
                if i < ts.len() {
                    assert(r[i] == ts[i]);
                    assert(isc(ts, k[0], i));
                } else {
                    assert(r[i] == x[0]);
                }
            }
        }
    }
}

/// one step of a merge
proof fn lemma_step(m: MR, a: Seq<T>, b: Seq<T>, r: Seq<T>, x: Seq<T>, y: Seq<T>, z: Seq<T>, c: u8)
    requires
        wfc(a),
        wfc(b),
        wfc(r),
        below(a, c as int),
        below(b, c as int),
        below(r, c as int),
        at_most(x, c),
        at_most(y, c),
        at_most(z, c),
        mergedc(m, a, b, r),
        mergedc(m, x, y, z),
    ensures
        wfc(a + x),
        wfc(b + y),
        wfc(r + z),
        below(a + x, c as int + 1),
        below(b + y, c as int + 1),
        below(r + z, c as int + 1),
        mergedc(m, a + x, b + y, r + z),
{
    lemma_wfc_app(a, x, c);
    lemma_wfc_app(b, y, c);
    lemma_wfc_app(r, z, c);
    assert forall|k: Seq<u8>| #[trigger] mkc(m, a + x, b + y, r + z, k) by {
        lemma_lkc_app(a, x, c, k);
        lemma_lkc_app(b, y, c, k);
        lemma_lkc_app(r, z, c, k);
        assert(mkc(m, a, b, r, k));
        assert(mkc(m, x, y, z, k));
    }
}

/// lookup in a list of one node
proof fn lemma_lkc_one(t: T, k: Seq<u8>)
    requires
        t.p().len() > 0,
    ensures
        lkc(seq![t], k) == lk(t, k),
{
    let s = seq![t];
    if k.len() > 0 && k[0] == t.p()[0] {
        assert(isc(s, k[0], 0));
        assert(idx(s, k[0]) == 0);
    } else {
        if k.len() > 0 && hasc(s, k[0]) {
            assert(isc(s, k[0], idx(s, k[0])));
        }
        if t.p().is_prefix_of(k) {
            assert(k.take(t.p().len() as int)[0] == t.p()[0]);
        }
    }
}

proof fn lemma_lkc_nil(k: Seq<u8>)
    ensures
        lkc(Seq::empty(), k) is None,
{
    if k.len() > 0 && hasc(Seq::empty(), k[0]) {
        assert(isc(Seq::empty(), k[0], idx(Seq::empty(), k[0])));
    }
}

/// the key of some entry of a non-empty tree, and its value
proof fn lemma_full_key(t: T) -> (k: Seq<u8>)
    requires
        wf(t),
        full(t),
    ensures
        lk(t, k) is Some,
        t.p().is_prefix_of(k),
{
    if t.v() is Some {
        assert(t.p().skip(t.p().len() as int).len() == 0);
        t.p()
    } else {
        let c = t.c()[0];
        assert(wfn(c));
        let r = lemma_some_key(c);
        let k = t.p() + r;
        assert(k.skip(t.p().len() as int) =~= r);
        lemma_lk_child(t, k, 0);
        k
    }
}

/// a result whose keys all start with a byte is a child for this byte
proof fn lemma_child_of(r: T, c: u8)
    requires
        wf(r),
        full(r) ==> r.p().len() > 0,
        forall|k: Seq<u8>| #[trigger] lk(r, k) is Some ==> k.len() > 0 && k[0] == c,
    ensures
        at_most(opt_list(r), c),
        forall|k: Seq<u8>| lkc(opt_list(r), k) == #[trigger] lk(r, k),
{
    lemma_wf_full(r);
    if full(r) {
        let k = lemma_full_key(r);
        assert(k.take(r.p().len() as int)[0] == r.p()[0]);
        assert(wfn(r));
        assert forall|k: Seq<u8>| lkc(opt_list(r), k) == #[trigger] lk(r, k) by {
            lemma_lkc_one(r, k);
        }
    } else {
        assert forall|k: Seq<u8>| lkc(opt_list(r), k) == #[trigger] lk(r, k) by {
            lemma_lkc_nil(k);
        }
    }
}

/// fragments that start with the same byte have something in common
proof fn lemma_cpl_pos(a: Seq<u8>, b: Seq<u8>)
    requires
        a.len() > 0,
        b.len() > 0,
        a[0] == b[0],
    ensures
        cpl(a, b) > 0,
{
}

/// a merged child
proof fn lemma_merged_child(m: MR, a: T, b: T, r: T, c: u8)
    requires
        strict(m),
        wfn(a),
        wfn(b),
        a.p()[0] == c,
        b.p()[0] == c,
        wf(r),
        merged(m, a, b, r),
    ensures
        at_most(opt_list(r), c),
        at_most(seq![a], c),
        at_most(seq![b], c),
        mergedc(m, seq![a], seq![b], opt_list(r)),
{
    assert forall|k: Seq<u8>| #[trigger] lk(r, k) is Some implies k.len() > 0 && k[0] == c by {
        assert(mk(m, a, b, r, k));
        if lk(a, k) is Some {
            assert(k.take(a.p().len() as int)[0] == a.p()[0]);
        } else if lk(b, k) is Some {
            assert(k.take(b.p().len() as int)[0] == b.p()[0]);
        } else {
            assert(m(None, None, lk(r, k)));
        }
    }
    lemma_cpl_pos(a.p(), b.p());
    lemma_child_of(r, c);
    assert forall|k: Seq<u8>| #[trigger] mkc(m, seq![a], seq![b], opt_list(r), k) by {
        lemma_lkc_one(a, k);
        lemma_lkc_one(b, k);
        assert(mk(m, a, b, r, k));
        assert(lkc(opt_list(r), k) == lk(r, k));
    }
}

/// a child that only one side has
proof fn lemma_single(m: MR, a: T)
    requires
        wfn(a),
    ensures
        at_most(seq![a], a.p()[0]),
        at_most(Seq::empty(), a.p()[0]),
        keeps_left(m) ==> mergedc(m, seq![a], Seq::empty(), seq![a]),
        drops_left(m) ==> mergedc(m, seq![a], Seq::empty(), Seq::empty()),
        keeps_right(m) ==> mergedc(m, Seq::empty(), seq![a], seq![a]),
        drops_right(m) ==> mergedc(m, Seq::empty(), seq![a], Seq::empty()),
{
    let e = Seq::<T>::empty();
    let s = seq![a];
    if keeps_left(m) {
        assert forall|k: Seq<u8>| #[trigger] mkc(m, s, e, s, k) by {
            lemma_lkc_nil(k);
        }
    }
    if drops_left(m) {
        assert forall|k: Seq<u8>| #[trigger] mkc(m, s, e, e, k) by {
            lemma_lkc_nil(k);
        }
    }
    if keeps_right(m) {
        assert forall|k: Seq<u8>| #[trigger] mkc(m, e, s, s, k) by {
            lemma_lkc_nil(k);
        }
    }
    if drops_right(m) {
        assert forall|k: Seq<u8>| #[trigger] mkc(m, e, s, e, k) by {
            lemma_lkc_nil(k);
        }
    }
}

/// whole lists that only one side has
proof fn lemma_lists(m: MR, a: Seq<T>)
    ensures
        keeps_left(m) ==> mergedc(m, a, Seq::empty(), a),
        drops_left(m) ==> mergedc(m, a, Seq::empty(), Seq::empty()),
        keeps_right(m) ==> mergedc(m, Seq::empty(), a, a),
        drops_right(m) ==> mergedc(m, Seq::empty(), a, Seq::empty()),
        strict(m) ==> mergedc(m, Seq::empty(), Seq::empty(), Seq::empty()),
{
    let e = Seq::<T>::empty();
    assert forall|k: Seq<u8>| lkc(e, k) is None by {
        lemma_lkc_nil(k);
    }
    assert(keeps_left(m) ==> forall|k: Seq<u8>| #[trigger] mkc(m, a, e, a, k));
    assert(drops_left(m) ==> forall|k: Seq<u8>| #[trigger] mkc(m, a, e, e, k));
    assert(keeps_right(m) ==> forall|k: Seq<u8>| #[trigger] mkc(m, e, a, a, k));
    assert(drops_right(m) ==> forall|k: Seq<u8>| #[trigger] mkc(m, e, a, e, k));
    assert(strict(m) ==> forall|k: Seq<u8>| #[trigger] mkc(m, e, e, e, k));
}

/// nodes with the same key fragment
proof fn lemma_merged_node(m: MR, a: T, b: T, r: T)
    requires
        strict(m),
        a.p() == b.p(),
        a.p() == r.p(),
        m(a.v(), b.v(), r.v()),
        mergedc(m, a.c(), b.c(), r.c()),
    ensures
        merged(m, a, b, r),
{
    lemma_cpl(a.p(), b.p());
    assert forall|k: Seq<u8>| #[trigger] mk(m, a, b, r, k) by {
        if a.p().is_prefix_of(k) {
            let q = k.skip(a.p().len() as int);
            assert(mkc(m, a.c(), b.c(), r.c(), q));
        } else {
            assert(m(None, None, None));
        }
    }
}

/// cutting a node in two does not change its content
proof fn lemma_cut(t: T, n: nat)
    requires
        n < t.p().len(),
    ensures
        forall|k: Seq<u8>| #[trigger] lk(cut(t, n), k) == lk(t, k),
{
    let u = cut(t, n);
    let s = shorten(t, n);
    assert forall|k: Seq<u8>| #[trigger] lk(u, k) == lk(t, k) by {
        let q = k.skip(n as int);
        if u.p().is_prefix_of(k) {
            if q.len() > 0 {
                assert(lk(u, k) == lkc(seq![s], q));
                lemma_lkc_one(s, q);
                if s.p().is_prefix_of(q) {
                    assert(t.p() =~= u.p() + s.p());
                    assert(k.take(t.p().len() as int) =~= k.take(n as int) + q.take(s.p().len() as int));
                    assert(q.skip(s.p().len() as int) =~= k.skip(t.p().len() as int));
                } else if t.p().is_prefix_of(k) {
                    assert(q.take(s.p().len() as int) =~= k.take(t.p().len() as int).skip(n as int));
                }
            } else {
                assert(!t.p().is_prefix_of(k));
            }
        } else if t.p().is_prefix_of(k) {
            assert(k.take(n as int) =~= k.take(t.p().len() as int).take(n as int));
        }
    }
}

proof fn lemma_cut_wf(t: T, n: nat)
    requires
        n < t.p().len(),
        wf(t),
    ensures
        wfn(shorten(t, n)),
        wfc(cut(t, n).c()),
        shorten(t, n).p()[0] == t.p()[n as int],
        at_most(cut(t, n).c(), t.p()[n as int]),
{
    let s = cut(t, n).c();
    assert(wfn(shorten(t, n)));
}

/// compressing a node does not change its content
proof fn lemma_canon(t: T)
    requires
        wfc(t.c()),
    ensures
        wf(canon(t)),
        full(canon(t)) ==> full(t) && canon(t).p().len() >= t.p().len(),
        forall|k: Seq<u8>| #[trigger] lk(canon(t), k) == lk(t, k),
{
    let u = canon(t);
    if t.v() is None && t.c().len() == 1 {
        let c = t.c()[0];
        assert(wfn(c));
        assert forall|k: Seq<u8>| #[trigger] lk(u, k) == lk(t, k) by {
            let n = t.p().len() as int;
            let q = k.skip(n);
            assert(t.c() =~= seq![c]);
            if t.p().is_prefix_of(k) {
                assert(lk(t, k) == lkc(seq![c], q));
                lemma_lkc_one(c, q);
                if c.p().is_prefix_of(q) {
                    assert(k.take(u.p().len() as int) =~= k.take(n) + q.take(c.p().len() as int));
                    assert(q.skip(c.p().len() as int) =~= k.skip(u.p().len() as int));
                } else if u.p().is_prefix_of(k) {
                    assert(q.take(c.p().len() as int) =~= k.take(u.p().len() as int).skip(n));
                    assert(u.p().skip(n) =~= c.p());
                }
            } else if u.p().is_prefix_of(k) {
                assert(k.take(n) =~= k.take(u.p().len() as int).take(n));
                assert(u.p().take(n) =~= t.p());
            }
        }
    } else if t.v() is None && t.c().len() == 0 {
        lemma_wf_full(t);
        assert(u == t_empty());
        assert forall|k: Seq<u8>| #[trigger] lk(u, k) == lk(t, k) by {
            if t.p().is_prefix_of(k) {
                lemma_lkc_nil(k.skip(t.p().len() as int));
                assert(t.c() =~= Seq::empty());
            }
        }
    }
}

/// content before and after compressing
proof fn lemma_merged_canon(m: MR, a: T, b: T, r: T)
    requires
        merged(m, a, b, r),
        wfc(r.c()),
    ensures
        merged(m, a, b, canon(r)),
        wf(canon(r)),
{
    lemma_canon(r);
    assert forall|k: Seq<u8>| #[trigger] mk(m, a, b, canon(r), k) by {
        assert(mk(m, a, b, r, k));
        assert(lk(canon(r), k) == lk(r, k));
    }
}

/// the number of nodes
spec fn cnt(t: T) -> nat
    decreases t,
{
    1 + cntc(t.c())
}

spec fn cntc(ts: Seq<T>) -> nat
    decreases ts,
{
    if ts.len() == 0 {
        0
    } else {
        cnt(ts[0]) + cntc(ts.skip(1))
    }
}

proof fn lemma_cnt(ts: Seq<T>, i: int)
    requires
        0 <= i < ts.len(),
    ensures
        cnt(ts[i]) <= cntc(ts),
    decreases ts.len(),
{
    if i > 0 {
        lemma_cnt(ts.skip(1), i - 1);
    }
}

/// two children lists of one node each, in order
proof fn lemma_two(m: MR, x: T, y: T)
    requires
        wfn(x),
        wfn(y),
        x.p()[0] != y.p()[0],
        strict(m),
        keeps_left(m),
        keeps_right(m),
    ensures
        x.p()[0] < y.p()[0] ==> wfc(seq![x, y]) && mergedc(m, seq![x], seq![y], seq![x, y]),
        x.p()[0] > y.p()[0] ==> wfc(seq![y, x]) && mergedc(m, seq![x], seq![y], seq![y, x]),
{
    let e = Seq::<T>::empty();
    let sx = seq![x];
    let sy = seq![y];
    lemma_single(m, x);
    lemma_single(m, y);
    lemma_lists(m, e);
    assert(wfc(e));
    assert(e + sx =~= sx && e + sy =~= sy && e + e =~= e && sx + e =~= sx && sy + e =~= sy);
    if x.p()[0] < y.p()[0] {
        lemma_step(m, e, e, e, sx, e, sx, x.p()[0]);
        lemma_step(m, sx, e, sx, e, sy, sy, y.p()[0]);
        assert(sx + sy =~= seq![x, y]);
    } else {
        lemma_step(m, e, e, e, e, sy, sy, y.p()[0]);
        lemma_step(m, e, sy, sy, sx, e, sx, x.p()[0]);
        assert(sy + sx =~= seq![y, x]);
    }
}
