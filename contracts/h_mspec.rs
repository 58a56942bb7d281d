// ---------------------------------------------------------------------------------------------------------------
// In-place merges: what the function that is passed in makes of two values
// ---------------------------------------------------------------------------------------------------------------

/// the function can be called on all values of the two stores, and leaves a value (even if it fails)
#[verifier::prophetic]
spec fn with_ok<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(f: F, ab: A, bb: B) -> bool {
    &&& forall|m: &mut Value<A>, b: &ValueRef<B>| valok(*m, ab) && vrok(*b, bb) ==> #[trigger] call_requires(f, (m, b))
    &&& forall|m: &mut Value<A>, b: &ValueRef<B>, r: Result<(), E>|
        valok(*m, ab) && vrok(*b, bb) && #[trigger] call_ensures(f, (m, b), r) ==> valok(*final(m), ab)
}

proof fn lemma_unit<E>(r: Result<(), E>)
    requires
        r is Ok,
    ensures
        r == Ok::<(), E>(()),
{
    let u = r->Ok_0;
    assert(u == ());
}

/// the function can turn `x` into `z`, given `y`
#[verifier::prophetic]
spec fn with_rel<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(
    f: F,
    ab: A,
    bb: B,
    x: Option<Seq<u8>>,
    y: Option<Seq<u8>>,
    z: Option<Seq<u8>>,
) -> bool {
    exists|m: &mut Value<A>, b: &ValueRef<B>|
        #[trigger] call_ensures(f, (m, b), Ok(())) && valok(*m, ab) && vrok(*b, bb) && rv(ab, (*m).vv()) == x && rv(bb, b.vv()) == y && rv(
            ab,
            (*final(m)).vv(),
        ) == z
}

/// outer: what only one side has stays
#[verifier::prophetic]
spec fn outer_w<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(f: F, ab: A, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>|
        if x is None {
            z == y
        } else if y is None {
            z == x
        } else {
            with_rel::<A, B, E, F>(f, ab, bb, x, y, z)
        }
}

/// left: what only the right side has goes
#[verifier::prophetic]
spec fn left_w<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(f: F, ab: A, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>|
        if x is None {
            z is None
        } else if y is None {
            z == x
        } else {
            with_rel::<A, B, E, F>(f, ab, bb, x, y, z)
        }
}

/// inner: only what both sides have stays
#[verifier::prophetic]
spec fn inner_w<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(f: F, ab: A, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>|
        if x is None || y is None {
            z is None
        } else {
            with_rel::<A, B, E, F>(f, ab, bb, x, y, z)
        }
}

/// what is left of the key fragment when it is cut at the end of a common part
proof fn lemma_cut_common(a: T, b: T, n: nat)
    requires
        n == cpl(a.p(), b.p()),
    ensures
        n <= a.p().len() && n <= b.p().len(),
        n == a.p().len() && n == b.p().len() ==> a.p() == b.p(),
        n < a.p().len() && n == b.p().len() ==> cut(a, n).p() == b.p(),
        n == a.p().len() && n < b.p().len() ==> cut(b, n).p() == a.p(),
        n < a.p().len() && n < b.p().len() ==> cut(a, n).p() == cut(b, n).p() && a.p()[n as int] != b.p()[n as int],
        n < a.p().len() && wf(a) ==> wfn(shorten(a, n)) && wfc(cut(a, n).c()) && shorten(a, n).p()[0] == a.p()[n as int] && cntc(cut(a, n).c()) <= cnt(a),
        n < b.p().len() && wf(b) ==> wfn(shorten(b, n)) && wfc(cut(b, n).c()) && shorten(b, n).p()[0] == b.p()[n as int] && cntc(cut(b, n).c()) <= cnt(b),
        n < a.p().len() ==> forall|k: Seq<u8>| #[trigger] lk(cut(a, n), k) == lk(a, k),
        n < b.p().len() ==> forall|k: Seq<u8>| #[trigger] lk(cut(b, n), k) == lk(b, k),
        wf(a) ==> wfc(a.c()),
        cntc(a.c()) < cnt(a),
        cntc(b.c()) < cnt(b),
{
    lemma_cpl(a.p(), b.p());
    assert(a.p().take(a.p().len() as int) =~= a.p());
    assert(b.p().take(b.p().len() as int) =~= b.p());
    if n < a.p().len() {
        lemma_cut(a, n);
        lemma_cnt_cut(a, n);
        if wf(a) {
            lemma_cut_wf(a, n);
        }
    }
    if n < b.p().len() {
        lemma_cut(b, n);
        lemma_cnt_cut(b, n);
        if wf(b) {
            lemma_cut_wf(b, n);
        }
    }
}

proof fn lemma_cnt_cut(a: T, n: nat)
    ensures
        cntc(cut(a, n).c()) == cnt(a),
{
    let s = cut(a, n).c();
    assert(s.skip(1).len() == 0);
    assert(cntc(s) == cnt(s[0]) + cntc(s.skip(1)));
}

/// a list of one node
proof fn lemma_drepr_one<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, t: T)
    requires
        v.len() == 1,
        v[0].inv(),
        v[0].nw().tight(),
        repr(v[0].nw(), s, t),
    ensures
        drepr(v, s, seq![t]),
        irepr(Rem::Data(v), s, seq![t]),
{
}

/// the next nodes of the two sides compare like their bytes
proof fn lemma_heads<A: BlobStore, B: BlobStore>(ra: Rem<A>, a: A, ta: Seq<T>, i: int, rb: Rem<B>, b: B, tb: Seq<T>, j: int)
    requires
        wfc(ta),
        wfc(tb),
        0 <= i <= ta.len(),
        0 <= j <= tb.len(),
        irepr(ra, a, ta.skip(i)),
        irepr(rb, b, tb.skip(j)),
    ensures
        ocmp(rem_first(ra), rem_first(rb)) == jcmp(hd(ta, i), hd(tb, j)),
        i < ta.len() ==> repr(rem_head(ra)->0, a, ta[i]) && good(rem_head(ra)->0, a) && irepr(rem_tail(ra), a, ta.skip(i + 1)) && wfn(ta[i]) && cnt(ta[i]) <= cntc(ta),
        j < tb.len() ==> repr(rem_head(rb)->0, b, tb[j]) && good(rem_head(rb)->0, b) && irepr(rem_tail(rb), b, tb.skip(j + 1)) && wfn(tb[j]) && cnt(tb[j]) <= cntc(tb),
{
    lemma_head(ra, a, ta, i);
    lemma_head(rb, b, tb, j);
}

/// a node without value and children list is an empty tree
proof fn lemma_is_empty<S: BlobStore>(n: NV<S>, s: S)
    requires
        rep(n, s),
        n.tight(),
    ensures
        full(tv(n, s)) <==> !(n.v.none() && n.c is Id && n.c->Id_0.len() == 0),
{
    let t = tv(n, s);
    assert(repr(n, s, t));
}

/// a node with another children list
proof fn lemma_with_children<S: BlobStore>(n0: NV<S>, n1: NV<S>, s: S)
    requires
        rep(n0, s),
        n1.c is Data,
        n1 == (NV { c: n1.c, ..n0 }),
        irep(Rem::Data(n1.c->Data_0), s),
    ensures
        repr(n1, s, with_c(tv(n0, s), itv(Rem::Data(n1.c->Data_0), s))),
{
    let t = tv(n0, s);
    assert(repr(n0, s, t));
    let ts = itv(Rem::Data(n1.c->Data_0), s);
    assert(irepr(Rem::Data(n1.c->Data_0), s, ts));
    lemma_crepr_data(n1.c->Data_0, s, ts);
    lemma_mk(n1, s, t.p(), t.v(), ts);
}

/// the two nodes, cut where their fragments differ, have been merged into `t2`
proof fn lemma_merge_mid(m: MR, ta: T, tb: T, ta1: T, tb1: T, t2: T)
    requires
        strict(m),
        forall|k: Seq<u8>| #[trigger] lk(ta1, k) == lk(ta, k),
        forall|k: Seq<u8>| #[trigger] lk(tb1, k) == lk(tb, k),
        ta1.p() == tb1.p(),
        t2.p() == ta1.p(),
        t2.p().len() >= cpl(ta.p(), tb.p()),
        m(ta1.v(), tb1.v(), t2.v()),
        mergedc(m, ta1.c(), tb1.c(), t2.c()),
    ensures
        merged(m, ta, tb, t2),
{
    lemma_merged_node(m, ta1, tb1, t2);
    assert forall|k: Seq<u8>| #[trigger] mk(m, ta, tb, t2, k) by {
        assert(mk(m, ta1, tb1, t2, k));
        assert(lk(ta1, k) == lk(ta, k));
        assert(lk(tb1, k) == lk(tb, k));
    }
}

/// the end of a merge
proof fn lemma_merge_end(m: MR, ta: T, tb: T, ta1: T, tb1: T, t2: T)
    requires
        strict(m),
        forall|k: Seq<u8>| #[trigger] lk(ta1, k) == lk(ta, k),
        forall|k: Seq<u8>| #[trigger] lk(tb1, k) == lk(tb, k),
        ta1.p() == tb1.p(),
        t2.p() == ta1.p(),
        t2.p().len() >= cpl(ta.p(), tb.p()),
        m(ta1.v(), tb1.v(), t2.v()),
        mergedc(m, ta1.c(), tb1.c(), t2.c()),
        wfc(t2.c()),
    ensures
        merged(m, ta, tb, t2),
        merged(m, ta, tb, canon(t2)),
        wf(canon(t2)),
{
    lemma_merge_mid(m, ta, tb, ta1, tb1, t2);
    lemma_merged_canon(m, ta, tb, t2);
}

/// what `canonicalize` leaves
proof fn lemma_canonized<S: BlobStore>(n: NV<S>, s: S)
    requires
        rep(n, s),
        wfc(tv(n, s).c()),
        n.c is Id ==> wf(tv(n, s)) || !compressed() || !full(tv(n, s)),
    ensures
        wf(canonized(n, s)),
        full(canonized(n, s)) ==> full(tv(n, s)) && canonized(n, s).p().len() >= tv(n, s).p().len(),
        forall|k: Seq<u8>| #[trigger] lk(canonized(n, s), k) == lk(tv(n, s), k),
{
    let t = tv(n, s);
    lemma_canon(t);
    lemma_wf_full(t);
    if t.v() is None && t.c().len() == 0 {
        assert(canon(t) == t_empty());
    }
}

proof fn lemma_merged_canonized<S: BlobStore>(m: MR, a: T, b: T, n: NV<S>, s: S)
    requires
        merged(m, a, b, tv(n, s)),
        rep(n, s),
        wfc(tv(n, s).c()),
        n.c is Id ==> wf(tv(n, s)) || !compressed() || !full(tv(n, s)),
    ensures
        wf(canonized(n, s)),
        merged(m, a, b, canonized(n, s)),
{
    lemma_canonized(n, s);
    let r = canonized(n, s);
    assert forall|k: Seq<u8>| #[trigger] mk(m, a, b, r, k) by {
        assert(mk(m, a, b, tv(n, s), k));
        assert(lk(r, k) == lk(tv(n, s), k));
    }
}

/// the function can leave `z` for `x`, given `y`, when it succeeds or fails
#[verifier::prophetic]
spec fn with_any<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(
    f: F,
    ab: A,
    bb: B,
    x: Option<Seq<u8>>,
    y: Option<Seq<u8>>,
    z: Option<Seq<u8>>,
) -> bool {
    exists|m: &mut Value<A>, b: &ValueRef<B>, r: Result<(), E>|
        #[trigger] call_ensures(f, (m, b), r) && valok(*m, ab) && vrok(*b, bb) && rv(ab, (*m).vv()) == x && rv(bb, b.vv()) == y && rv(
            ab,
            (*final(m)).vv(),
        ) == z
}

/// an operation that has failed half way: every key has what it would have when the operation is complete, or what it had
/// before, or what the function has left
#[verifier::prophetic]
spec fn half<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(m: MR, f: F, ab: A, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>|
        m(x, y, z) || z == x || (x is Some && y is Some && with_any::<A, B, E, F>(f, ab, bb, x, y, z))
}

/// what has not been looked at stays as it is
spec fn lazy(m: MR) -> bool {
    forall|x: Option<Seq<u8>>, y: Option<Seq<u8>>| #[trigger] m(x, y, x)
}

proof fn lemma_half<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(m: MR, f: F, ab: A, bb: B)
    requires
        strict(m),
    ensures
        strict(half::<A, B, E, F>(m, f, ab, bb)),
        lazy(half::<A, B, E, F>(m, f, ab, bb)),
        forall|x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, y, z) ==> half::<A, B, E, F>(m, f, ab, bb)(x, y, z),
{
    let h = half::<A, B, E, F>(m, f, ab, bb);
    assert forall|z: Option<Seq<u8>>| #[trigger] h(None, None, z) <==> z is None by {
        assert(m(None, None, z) <==> z is None);
    }
}

proof fn lemma_merged_weaken(m: MR, w: MR, a: T, b: T, r: T)
    requires
        merged(m, a, b, r),
        forall|x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, y, z) ==> w(x, y, z),
    ensures
        merged(w, a, b, r),
{
    assert forall|k: Seq<u8>| #[trigger] mk(w, a, b, r, k) by {
        assert(mk(m, a, b, r, k));
    }
}

proof fn lemma_mergedc_weaken(m: MR, w: MR, a: Seq<T>, b: Seq<T>, r: Seq<T>)
    requires
        mergedc(m, a, b, r),
        forall|x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, y, z) ==> w(x, y, z),
    ensures
        mergedc(w, a, b, r),
{
    assert forall|k: Seq<u8>| #[trigger] mkc(w, a, b, r, k) by {
        assert(mkc(m, a, b, r, k));
    }
}

proof fn lemma_lazy(w: MR, a: T, b: T)
    requires
        lazy(w),
    ensures
        merged(w, a, b, a),
{
    lemma_cpl(a.p(), b.p());
    assert forall|k: Seq<u8>| #[trigger] mk(w, a, b, a, k) by {
        assert(w(lk(a, k), lk(b, k), lk(a, k)));
    }
}

proof fn lemma_lazyc(w: MR, a: Seq<T>, b: Seq<T>)
    requires
        lazy(w),
    ensures
        mergedc(w, a, b, a),
{
    assert forall|k: Seq<u8>| #[trigger] mkc(w, a, b, a, k) by {
        assert(w(lkc(a, k), lkc(b, k), lkc(a, k)));
    }
}

/// the rest of the list stays as it is
proof fn lemma_rest(w: MR, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        strict(w),
        lazy(w),
        jinv(w, a, b, i, j, rs, lo),
    ensures
        mergedc(w, a, b, rs + a.skip(i)),
        wfc(rs + a.skip(i)),
    decreases a.len() - i + b.len() - j,
{
    if i == a.len() && j == b.len() {
        lemma_join_done(w, a, b, i, j, rs, lo);
        assert(rs + a.skip(i) =~= rs);
    } else if i < a.len() && (j == b.len() || a[i].p()[0] < b[j].p()[0]) {
        assert(keeps_left(w));
        lemma_join_a(w, a, b, i, j, rs, lo);
        lemma_rest(w, a, b, i + 1, j, rs.push(a[i]), a[i].p()[0] + 1);
        assert(rs.push(a[i]) + a.skip(i + 1) =~= rs + a.skip(i));
    } else if j < b.len() && (i == a.len() || b[j].p()[0] < a[i].p()[0]) {
        assert(drops_right(w));
        lemma_join_b(w, a, b, i, j, rs, lo);
        lemma_rest(w, a, b, i, j + 1, rs, b[j].p()[0] + 1);
    } else {
        lemma_lazy(w, a[i], b[j]);
        lemma_join_wf(w, a, b, i, j, rs, lo);
        lemma_wf_full(a[i]);
        lemma_join_ab(w, a, b, i, j, rs, lo, a[i]);
        lemma_rest(w, a, b, i + 1, j + 1, rs.push(a[i]), a[i].p()[0] + 1);
        assert(rs.push(a[i]) + a.skip(i + 1) =~= rs + a.skip(i));
    }
}

proof fn lemma_jinv_weaken(m: MR, w: MR, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        jinv(m, a, b, i, j, rs, lo),
        forall|x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, y, z) ==> w(x, y, z),
    ensures
        jinv(w, a, b, i, j, rs, lo),
{
    lemma_mergedc_weaken(m, w, a.take(i), b.take(j), rs);
}

/// the first `k` nodes of the right list have been taken over into an empty list
proof fn lemma_take_right(w: MR, b: Seq<T>, k: int) -> (lo: int)
    requires
        strict(w),
        keeps_right(w),
        wfc(b),
        0 <= k <= b.len(),
    ensures
        jinv(w, Seq::empty(), b, 0, k, b.take(k), lo),
    decreases k,
{
    let e = Seq::<T>::empty();
    assert(wfc(e));
    if k == 0 {
        lemma_join_init(w, e, b);
        assert(b.take(0) =~= e);
        0
    } else {
        let lo = lemma_take_right(w, b, k - 1);
        lemma_join_b(w, e, b, 0, k - 1, b.take(k - 1), lo);
        assert(b.take(k - 1).push(b[k - 1]) =~= b.take(k));
        b[k - 1].p()[0] + 1
    }
}

/// two lists one behind the other
proof fn lemma_drepr_cat<S: BlobStore>(v: Seq<TreeNode<S>>, w: Seq<TreeNode<S>>, s: S, a: Seq<T>, b: Seq<T>)
    requires
        drepr(v, s, a),
        drepr(w, s, b),
    ensures
        drepr(v + w, s, a + b),
    decreases b.len(),
{
    if w.len() == 0 {
        assert(b.len() == 0);
        assert(v + w =~= v);
        assert(a + b =~= a);
    } else {
        lemma_drepr_at(w, s, b, 0);
        lemma_drepr_push(v, s, a, w[0], b[0]);
        lemma_drepr_cat(v.push(w[0]), w.skip(1), s, a.push(b[0]), b.skip(1));
        assert(v.push(w[0]) + w.skip(1) =~= v + w);
        assert(a.push(b[0]) + b.skip(1) =~= a + b);
    }
}

/// a list of children that is stored is not empty
proof fn lemma_id_full<S: BlobStore>(n: NV<S>, s: S)
    requires
        rep(n, s),
        n.c is Id,
        n.c->Id_0.len() > 0,
    ensures
        tv(n, s).c().len() > 0,
{
    let n1 = NV { v: Raw::Id(Seq::empty()), ..n };
    let t = tv(n, s);
    assert(repr(n, s, t));
    lemma_mk(n1, s, t.p(), None, t.c());
    lemma_is_empty(n1, s);
}

/// the state of a node while its children have not been loaded
proof fn lemma_stuck<S: BlobStore>(w: MR, n: NV<S>, s: S, ta: T, tb: T, ta1: T, tb1: T, z: Option<Seq<u8>>)
    requires
        strict(w),
        lazy(w),
        forall|k: Seq<u8>| #[trigger] lk(ta1, k) == lk(ta, k),
        forall|k: Seq<u8>| #[trigger] lk(tb1, k) == lk(tb, k),
        ta1.p() == tb1.p(),
        ta1.p().len() >= cpl(ta.p(), tb.p()),
        w(ta1.v(), tb1.v(), z),
        wfc(ta1.c()),
        repr(n, s, T::Node { p: ta1.p(), v: z, c: ta1.c() }),
    ensures
        tv(n, s) == (T::Node { p: ta1.p(), v: z, c: ta1.c() }),
        merged(w, ta, tb, tv(n, s)),
        !compressed() && n.c is Id && n.c->Id_0.len() > 0 ==> wf(tv(n, s)),
        mergedc(w, ta1.c(), tb1.c(), ta1.c()),
{
    lemma_lazyc(w, ta1.c(), tb1.c());
    lemma_merge_mid(w, ta, tb, ta1, tb1, tv(n, s));
    if n.c is Id && n.c->Id_0.len() > 0 {
        lemma_id_full(n, s);
    }
}

/// nodes with different fragments have no key in common
proof fn lemma_disjoint(a: T, b: T, n: nat)
    requires
        n == cpl(a.p(), b.p()),
        n < a.p().len(),
        n < b.p().len(),
    ensures
        forall|k: Seq<u8>| #[trigger] lk(a, k) is None || lk(b, k) is None,
{
    lemma_cpl(a.p(), b.p());
    assert forall|k: Seq<u8>| #[trigger] lk(a, k) is None || lk(b, k) is None by {
        if a.p().is_prefix_of(k) && b.p().is_prefix_of(k) {
            assert(a.p()[n as int] == k.take(a.p().len() as int)[n as int]);
            assert(b.p()[n as int] == k.take(b.p().len() as int)[n as int]);
        }
    }
}

/// compressing a tree that is well formed
proof fn lemma_canon_wf(t: T)
    requires
        wf(t),
    ensures
        wf(canon(t)),
        compressed() ==> canon(t) == t,
        full(canon(t)) ==> full(t) && canon(t).p().len() >= t.p().len(),
        forall|k: Seq<u8>| #[trigger] lk(canon(t), k) == lk(t, k),
{
    lemma_canon(t);
    if t.v() is None && t.c().len() == 0 {
        assert(t.p() =~= Seq::empty());
        assert(t.c() =~= Seq::empty());
        assert(t == T::Node { p: t.p(), v: t.v(), c: t.c() });
    }
}
