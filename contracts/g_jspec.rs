// ---------------------------------------------------------------------------------------------------------------
// Joining two children lists
// ---------------------------------------------------------------------------------------------------------------

/// a node that can be worked with
spec fn nok<S: BlobStore>(n: TreeNodeRef<S>, s: S) -> bool {
    n.inv() && good(n.nw(), s) && (n.0 is Err ==> s.readable())
}

/// a node that stands for something
spec fn nrep<S: BlobStore>(n: TreeNodeRef<S>, s: S) -> bool {
    n.inv() && rep(n.nw(), s) && n.nw().tight() && (n.0 is Err ==> s.readable())
}

/// what an optional iterator has to deliver
spec fn optl<S: BlobStore>(it: Option<TreeNodeIter<S>>, s: S) -> Seq<T> {
    match it {
        Some(x) => itv(x.rem(), s),
        None => Seq::empty(),
    }
}

spec fn optok<S: BlobStore>(it: Option<TreeNodeIter<S>>, s: S) -> bool {
    (it is Some ==> (it->0).inv() && (it->0).fresh() && irep((it->0).rem(), s)) && wfc(optl(it, s))
}

/// the first `i` and `j` nodes of two lists have been merged into `rs`, and everything up to `lo` has been seen
spec fn jinv(m: MR, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int) -> bool {
    &&& wfc(a) && wfc(b) && wfc(rs)
    &&& 0 <= i <= a.len() && 0 <= j <= b.len()
    &&& mergedc(m, a.take(i), b.take(j), rs)
    &&& below(a.take(i), lo) && below(b.take(j), lo) && below(rs, lo)
    &&& i < a.len() ==> a[i].p()[0] >= lo
    &&& j < b.len() ==> b[j].p()[0] >= lo
}

/// first byte of the next node
spec fn hd(a: Seq<T>, i: int) -> Option<u8> {
    if 0 <= i < a.len() {
        Some(a[i].p()[0])
    } else {
        None
    }
}

/// how the next nodes of the two lists compare
spec fn jcmp(x: Option<u8>, y: Option<u8>) -> Option<Ordering> {
    match (x, y) {
        (Some(x), Some(y)) => Some(if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater }),
        (Some(_), None) => Some(Ordering::Less),
        (None, Some(_)) => Some(Ordering::Greater),
        (None, None) => None,
    }
}

proof fn lemma_join_init(m: MR, a: Seq<T>, b: Seq<T>)
    requires
        strict(m),
        wfc(a),
        wfc(b),
    ensures
        jinv(m, a, b, 0, 0, Seq::empty(), 0),
{
    lemma_lists(m, Seq::empty());
    assert(a.take(0) =~= Seq::empty());
    assert(b.take(0) =~= Seq::empty());
    assert(wfc(Seq::<T>::empty()));
}

proof fn lemma_join_wf(m: MR, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        jinv(m, a, b, i, j, rs, lo),
    ensures
        wfc(a.take(i)),
        wfc(b.take(j)),
        i < a.len() ==> wfn(a[i]) && a.take(i + 1) == a.take(i) + seq![a[i]],
        j < b.len() ==> wfn(b[j]) && b.take(j + 1) == b.take(j) + seq![b[j]],
{
    lemma_wfc_take(a, i);
    lemma_wfc_take(b, j);
    if i < a.len() {
        assert(a.take(i + 1) =~= a.take(i) + seq![a[i]]);
    }
    if j < b.len() {
        assert(b.take(j + 1) =~= b.take(j) + seq![b[j]]);
    }
}

proof fn lemma_wfc_take(a: Seq<T>, i: int)
    requires
        wfc(a),
        0 <= i <= a.len(),
    ensures
        wfc(a.take(i)),
        wfc(a.skip(i)),
{
    let x = a.take(i);
    assert forall|k: int| 0 <= k < x.len() implies wfn(#[trigger] x[k]) by {
        assert(x[k] == a[k]);
    }
    assert forall|k: int, l: int| 0 <= k < l < x.len() implies (#[trigger] x[k]).p()[0] < (#[trigger] x[l]).p()[0] by {
        assert(x[k] == a[k] && x[l] == a[l]);
    }
    let y = a.skip(i);
    assert forall|k: int| 0 <= k < y.len() implies wfn(#[trigger] y[k]) by {
        assert(y[k] == a[k + i]);
    }
    assert forall|k: int, l: int| 0 <= k < l < y.len() implies (#[trigger] y[k]).p()[0] < (#[trigger] y[l]).p()[0] by {
        assert(y[k] == a[k + i] && y[l] == a[l + i]);
    }
}

/// raising the bound
proof fn lemma_below(a: Seq<T>, lo: int, hi: int)
    requires
        below(a, lo),
        lo <= hi,
    ensures
        below(a, hi),
{
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).p().len() > 0 && a[i].p()[0] < hi by {
    }
}

/// only the left list has a node for the next byte
proof fn lemma_join_a(m: MR, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        jinv(m, a, b, i, j, rs, lo),
        i < a.len(),
        j < b.len() ==> a[i].p()[0] < b[j].p()[0],
    ensures
        keeps_left(m) ==> jinv(m, a, b, i + 1, j, rs.push(a[i]), a[i].p()[0] + 1),
        drops_left(m) ==> jinv(m, a, b, i + 1, j, rs, a[i].p()[0] + 1),
{
    lemma_join_wf(m, a, b, i, j, rs, lo);
    let c = a[i].p()[0];
    lemma_below(a.take(i), lo, c as int);
    lemma_below(b.take(j), lo, c as int);
    lemma_below(rs, lo, c as int);
    lemma_single(m, a[i]);
    let e = Seq::<T>::empty();
    assert(b.take(j) + e =~= b.take(j));
    assert(rs + e =~= rs);
    assert(rs + seq![a[i]] =~= rs.push(a[i]));
    if keeps_left(m) {
        lemma_step(m, a.take(i), b.take(j), rs, seq![a[i]], e, seq![a[i]], c);
    }
    if drops_left(m) {
        lemma_step(m, a.take(i), b.take(j), rs, seq![a[i]], e, e, c);
    }
    if i + 1 < a.len() {
        assert(a[i].p()[0] < a[i + 1].p()[0]);
    }
}

/// only the right list has a node for the next byte
proof fn lemma_join_b(m: MR, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        jinv(m, a, b, i, j, rs, lo),
        j < b.len(),
        i < a.len() ==> b[j].p()[0] < a[i].p()[0],
    ensures
        keeps_right(m) ==> jinv(m, a, b, i, j + 1, rs.push(b[j]), b[j].p()[0] + 1),
        drops_right(m) ==> jinv(m, a, b, i, j + 1, rs, b[j].p()[0] + 1),
{
    lemma_join_wf(m, a, b, i, j, rs, lo);
    let c = b[j].p()[0];
    lemma_below(a.take(i), lo, c as int);
    lemma_below(b.take(j), lo, c as int);
    lemma_below(rs, lo, c as int);
    lemma_single(m, b[j]);
    let e = Seq::<T>::empty();
    assert(a.take(i) + e =~= a.take(i));
    assert(rs + e =~= rs);
    assert(rs + seq![b[j]] =~= rs.push(b[j]));
    if keeps_right(m) {
        lemma_step(m, a.take(i), b.take(j), rs, e, seq![b[j]], seq![b[j]], c);
    }
    if drops_right(m) {
        lemma_step(m, a.take(i), b.take(j), rs, e, seq![b[j]], e, c);
    }
    if j + 1 < b.len() {
        assert(b[j].p()[0] < b[j + 1].p()[0]);
    }
}

/// both lists have a node for the next byte
proof fn lemma_join_ab(m: MR, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int, r: T)
    requires
        strict(m),
        jinv(m, a, b, i, j, rs, lo),
        i < a.len(),
        j < b.len(),
        a[i].p()[0] == b[j].p()[0],
        wf(r),
        merged(m, a[i], b[j], r),
    ensures
        full(r) ==> jinv(m, a, b, i + 1, j + 1, rs.push(r), a[i].p()[0] + 1),
        !full(r) ==> jinv(m, a, b, i + 1, j + 1, rs, a[i].p()[0] + 1),
{
    lemma_join_wf(m, a, b, i, j, rs, lo);
    let c = a[i].p()[0];
    lemma_below(a.take(i), lo, c as int);
    lemma_below(b.take(j), lo, c as int);
    lemma_below(rs, lo, c as int);
    lemma_merged_child(m, a[i], b[j], r, c);
    lemma_step(m, a.take(i), b.take(j), rs, seq![a[i]], seq![b[j]], opt_list(r), c);
    assert(rs + seq![r] =~= rs.push(r));
    assert(rs + Seq::<T>::empty() =~= rs);
    if i + 1 < a.len() {
        assert(a[i].p()[0] < a[i + 1].p()[0]);
    }
    if j + 1 < b.len() {
        assert(b[j].p()[0] < b[j + 1].p()[0]);
    }
}

proof fn lemma_join_done(m: MR, a: Seq<T>, b: Seq<T>, i: int, j: int, rs: Seq<T>, lo: int)
    requires
        jinv(m, a, b, i, j, rs, lo),
        i == a.len(),
        j == b.len(),
    ensures
        mergedc(m, a, b, rs),
        wfc(rs),
{
    assert(a.take(i) =~= a);
    assert(b.take(j) =~= b);
}

/// when nothing of the one-sided nodes is kept, it does not matter if some of them have not been looked at
proof fn lemma_skip_one<A>(s: Seq<A>, i: int)
    requires
        0 <= i < s.len(),
    ensures
        s.skip(i)[0] == s[i],
        s.skip(i).skip(1) == s.skip(i + 1),
        s.skip(i).len() == s.len() - i,
{
    assert(s.skip(i).skip(1) =~= s.skip(i + 1));
}

/// the first byte of a node in normal form, as it is stored
proof fn lemma_head<S: BlobStore>(r: Rem<S>, s: S, ts: Seq<T>, i: int)
    requires
        wfc(ts),
        0 <= i <= ts.len(),
        irepr(r, s, ts.skip(i)),
    ensures
        rem_head(r) is None <==> i == ts.len(),
        i < ts.len() ==> rem_head(r)->0.first() == hd(ts, i) && repr(rem_head(r)->0, s, ts[i]) && rem_head(r)->0.tight() && wfn(ts[i]) && irepr(
            rem_tail(r),
            s,
            ts.skip(i + 1),
        ) && good(rem_head(r)->0, s) && cnt(ts[i]) <= cntc(ts),
{
    if i < ts.len() {
        lemma_skip_one(ts, i);
        lemma_first(rem_head(r)->0, s, ts[i]);
        lemma_cnt(ts, i);
    }
}

/// sorting two nodes
proof fn lemma_sort_two<S: BlobStore>(a: Seq<TreeNode<S>>, b: Seq<TreeNode<S>>, s: S, x: T, y: T)
    requires
        sorted_perm(a, b),
        drepr(a, s, seq![x, y]),
        wfn(x),
        wfn(y),
        x.p()[0] != y.p()[0],
    ensures
        x.p()[0] < y.p()[0] ==> drepr(b, s, seq![x, y]),
        x.p()[0] > y.p()[0] ==> drepr(b, s, seq![y, x]),
{
    let ts = seq![x, y];
    lemma_drepr_at(a, s, ts, 0);
    lemma_drepr_at(a, s, ts, 1);
    lemma_first(a[0].nw(), s, x);
    lemma_first(a[1].nw(), s, y);
    let p = choose|p: Seq<int>| #[trigger] perm(p, a.len()) && forall|i: int| 0 <= i < a.len() ==> b[i] == a[#[trigger] p[i]];
    assert(b[0] == a[p[0]]);
    assert(b[1] == a[p[1]]);
    assert(p[0] != p[1]);
    assert(first_le(b[0], b[1]));
    if x.p()[0] < y.p()[0] {
        assert(b =~= a);
    } else {
        assert(p[0] == 1 && p[1] == 0);
        let us = seq![y, x];
        assert forall|i: int| 0 <= i < us.len() implies (#[trigger] b[i]).inv() && b[i].nw().tight() && repr(b[i].nw(), s, us[i]) by {
            assert(b[0] == a[1] && b[1] == a[0]);
        }
    }
}
