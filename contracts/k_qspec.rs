// ---------------------------------------------------------------------------------------------------------------
// Comparing two trees key by key
// ---------------------------------------------------------------------------------------------------------------

/// whether the values that the two sides have for a key can be decided this way
type QR = spec_fn(Option<Seq<u8>>, Option<Seq<u8>>, bool) -> bool;

spec fn qok(q: QR) -> bool {
    &&& forall|x: Option<Seq<u8>>, y: Option<Seq<u8>>| #[trigger] q(x, y, true) ==> x is Some
    &&& q(None, None, false)
}

/// "no" as a merge of which nothing is left
spec fn none(q: QR) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| z is None && q(x, y, false)
}

spec fn qk(q: QR, a: T, b: T, k: Seq<u8>) -> bool {
    q(lk(a, k), lk(b, k), true)
}

spec fn qkc(q: QR, a: Seq<T>, b: Seq<T>, k: Seq<u8>) -> bool {
    q(lkc(a, k), lkc(b, k), true)
}

/// some key has been decided with "yes" / all keys with "no"
spec fn qres(q: QR, a: T, b: T, d: bool) -> bool {
    if d {
        exists|k: Seq<u8>| #[trigger] qk(q, a, b, k)
    } else {
        merged(none(q), a, b, t_empty())
    }
}

spec fn qresc(q: QR, a: Seq<T>, b: Seq<T>, d: bool) -> bool {
    if d {
        exists|k: Seq<u8>| #[trigger] qkc(q, a, b, k)
    } else {
        mergedc(none(q), a, b, Seq::empty())
    }
}

spec fn dec<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E>>(
    f: F,
    ab: A,
    bb: B,
    x: Option<Seq<u8>>,
    y: Option<Seq<u8>>,
    d: bool,
) -> bool {
    exists|a: &ValueRef<A>, b: &ValueRef<B>|
        #[trigger] call_ensures(f, (a, b), Ok(d)) && vrok(*a, ab) && vrok(*b, bb) && rv(ab, a.vv()) == x && rv(bb, b.vv()) == y
}

spec fn dec_ok<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E>>(f: F, ab: A, bb: B) -> bool {
    forall|a: &ValueRef<A>, b: &ValueRef<B>| vrok(*a, ab) && vrok(*b, bb) ==> #[trigger] call_requires(f, (a, b))
}

/// a key that both sides have, with accepted values
spec fn inner_q<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E>>(f: F, ab: A, bb: B) -> QR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, d: bool|
        if d {
            x is Some && y is Some && dec::<A, B, E, F>(f, ab, bb, x, y, true)
        } else {
            x is Some && y is Some ==> dec::<A, B, E, F>(f, ab, bb, x, y, false)
        }
}

/// a key that only the left side has, or with accepted values
spec fn left_q<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E>>(f: F, ab: A, bb: B) -> QR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, d: bool|
        if d {
            x is Some && (y is None || dec::<A, B, E, F>(f, ab, bb, x, y, true))
        } else {
            x is Some ==> y is Some && dec::<A, B, E, F>(f, ab, bb, x, y, false)
        }
}

/// the result for two nodes from that for their values and children
proof fn lemma_qnode(q: QR, ta: T, tb: T, ta1: T, tb1: T)
    requires
        qok(q),
        forall|k: Seq<u8>| #[trigger] lk(ta1, k) == lk(ta, k),
        forall|k: Seq<u8>| #[trigger] lk(tb1, k) == lk(tb, k),
        ta1.p() == tb1.p(),
        ta1.p().len() >= cpl(ta.p(), tb.p()),
    ensures
        q(ta1.v(), tb1.v(), true) ==> qres(q, ta, tb, true),
        qresc(q, ta1.c(), tb1.c(), true) ==> qres(q, ta, tb, true),
        q(ta1.v(), tb1.v(), false) && qresc(q, ta1.c(), tb1.c(), false) ==> qres(q, ta, tb, false),
{
    let p = ta1.p();
    let m = p.len() as int;
    if q(ta1.v(), tb1.v(), true) {
        assert(p.take(m) =~= p);
        assert(p.skip(m).len() == 0);
        assert(lk(ta1, p) == ta1.v());
        assert(lk(tb1, p) == tb1.v());
        assert(qk(q, ta, tb, p));
    }
    if qresc(q, ta1.c(), tb1.c(), true) {
        let k = choose|k: Seq<u8>| #[trigger] qkc(q, ta1.c(), tb1.c(), k);
        assert(k.len() > 0);
        let kk = p + k;
        assert(kk.take(m) =~= p);
        assert(kk.skip(m) =~= k);
        assert(lk(ta1, kk) == lkc(ta1.c(), k));
        assert(lk(tb1, kk) == lkc(tb1.c(), k));
        assert(qk(q, ta, tb, kk));
    }
    if q(ta1.v(), tb1.v(), false) && qresc(q, ta1.c(), tb1.c(), false) {
        let t2 = T::Node { p: p, v: None, c: Seq::empty() };
        assert(wfc(Seq::<T>::empty()));
        lemma_merge_end(none(q), ta, tb, ta1, tb1, t2);
        assert(canon(t2) == t_empty());
    }
}

/// a child for the first byte of the key
proof fn lemma_lkc_at(a: Seq<T>, i: int, k: Seq<u8>)
    requires
        wfc(a),
        0 <= i < a.len(),
        k.len() > 0,
        k[0] == a[i].p()[0],
    ensures
        lkc(a, k) == lk(a[i], k),
{
    assert(wfn(a[i]));
    assert(isc(a, k[0], i));
    lemma_idx(a, k[0], i);
}

/// a key in two children
proof fn lemma_qchild(q: QR, a: Seq<T>, b: Seq<T>, i: int, j: int)
    requires
        qok(q),
        wfc(a),
        wfc(b),
        0 <= i < a.len(),
        0 <= j < b.len(),
        a[i].p()[0] == b[j].p()[0],
        qres(q, a[i], b[j], true),
    ensures
        qresc(q, a, b, true),
{
    let k = choose|k: Seq<u8>| #[trigger] qk(q, a[i], b[j], k);
    assert(wfn(a[i]));
    assert(k.take(a[i].p().len() as int)[0] == a[i].p()[0]);
    lemma_lkc_at(a, i, k);
    lemma_lkc_at(b, j, k);
    assert(qkc(q, a, b, k));
}

/// a child that only the left side has
proof fn lemma_qleft(q: QR, a: Seq<T>, b: Seq<T>, i: int, j: int, lo: int)
    requires
        qok(q),
        jinv(none(q), a, b, i, j, Seq::empty(), lo),
        i < a.len(),
        j < b.len() ==> a[i].p()[0] < b[j].p()[0],
        forall|x: Option<Seq<u8>>| x is Some ==> #[trigger] q(x, None, true),
    ensures
        qresc(q, a, b, true),
{
    assert(wfn(a[i]));
    let c = a[i].p()[0];
    let k = lemma_some_key(a[i]);
    assert(k.take(a[i].p().len() as int)[0] == a[i].p()[0]);
    lemma_lkc_at(a, i, k);
    if hasc(b, c) {
        let l = idx(b, c);
        assert(isc(b, c, l));
        if l < j {
            assert(b.take(j)[l] == b[l]);
        } else if l > j {
            assert(b[j].p()[0] < b[l].p()[0]);
        }
    }
    assert(qkc(q, a, b, k));
}

/// all children on the left, and a single node on the right
proof fn lemma_qall_a(q: QR, a: Seq<T>, y: T)
    requires
        wfc(a),
        wfn(y),
        drops_right(none(q)),
        forall|i: int| 0 <= i < a.len() ==> qres(q, #[trigger] a[i], y, false),
    ensures
        qresc(q, a, seq![y], false),
{
    assert forall|k: Seq<u8>| #[trigger] mkc(none(q), a, seq![y], Seq::empty(), k) by {
        lemma_lkc_one(y, k);
        lemma_lkc_nil(k);
        assert(none(q)(None, lk(y, k), None));
        if k.len() > 0 && hasc(a, k[0]) {
            let i = idx(a, k[0]);
            assert(isc(a, k[0], i));
            lemma_lkc_at(a, i, k);
            assert(qres(q, a[i], y, false));
            assert(mk(none(q), a[i], y, t_empty(), k));
            lemma_wf_full(y);
        }
    }
}

proof fn lemma_qall_b(q: QR, x: T, b: Seq<T>)
    requires
        wfc(b),
        wfn(x),
        drops_left(none(q)),
        forall|i: int| 0 <= i < b.len() ==> qres(q, x, #[trigger] b[i], false),
    ensures
        qresc(q, seq![x], b, false),
{
    assert forall|k: Seq<u8>| #[trigger] mkc(none(q), seq![x], b, Seq::empty(), k) by {
        lemma_lkc_one(x, k);
        lemma_lkc_nil(k);
        assert(none(q)(lk(x, k), None, None));
        if k.len() > 0 && hasc(b, k[0]) {
            let i = idx(b, k[0]);
            assert(isc(b, k[0], i));
            lemma_lkc_at(b, i, k);
            assert(qres(q, x, b[i], false));
            assert(mk(none(q), x, b[i], t_empty(), k));
            lemma_wf_full(x);
        }
    }
}

/// a key in one of the children and in a single node
proof fn lemma_qsome_a(q: QR, a: Seq<T>, i: int, y: T)
    requires
        qok(q),
        wfc(a),
        wfn(y),
        0 <= i < a.len(),
        qres(q, a[i], y, true),
    ensures
        qresc(q, a, seq![y], true),
{
    let k = choose|k: Seq<u8>| #[trigger] qk(q, a[i], y, k);
    assert(wfn(a[i]));
    assert(k.take(a[i].p().len() as int)[0] == a[i].p()[0]);
    lemma_lkc_at(a, i, k);
    lemma_lkc_one(y, k);
    assert(qkc(q, a, seq![y], k));
}

proof fn lemma_qsome_b(q: QR, x: T, b: Seq<T>, i: int)
    requires
        qok(q),
        wfc(b),
        wfn(x),
        0 <= i < b.len(),
        forall|x: Option<Seq<u8>>, y: Option<Seq<u8>>| #[trigger] q(x, y, true) ==> y is Some,
        qres(q, x, b[i], true),
    ensures
        qresc(q, seq![x], b, true),
{
    let k = choose|k: Seq<u8>| #[trigger] qk(q, x, b[i], k);
    assert(wfn(b[i]));
    assert(k.take(b[i].p().len() as int)[0] == b[i].p()[0]);
    lemma_lkc_at(b, i, k);
    lemma_lkc_one(x, k);
    assert(qkc(q, seq![x], b, k));
}
