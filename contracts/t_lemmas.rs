/// the size of a remainder: it shrinks with every step
spec fn rem_len<S>(r: Rem<S>) -> nat {
    match r {
        Rem::Data(v) => v.len(),
        Rem::Bytes(b) => b.len(),
    }
}

/// the nodes of a list
spec fn bnodes<S>(x: Seq<u8>) -> Seq<NV<S>>
    decreases x.len(),
{
    match pn::<S>(x) {
        None => Seq::empty(),
        Some(n) => seq![n.0] + bnodes(x.skip(n.1 as int)),
    }
}

/// the nodes an iterator still delivers
spec fn rem_nodes<S>(r: Rem<S>) -> Seq<NV<S>> {
    match r {
        Rem::Data(v) => vnodes(v),
        Rem::Bytes(b) => bnodes(b),
    }
}

broadcast proof fn lemma_pn<S>(b: Seq<u8>)
    ensures
        #![trigger pn::<S>(b)]
        pn::<S>(b) is Some ==> 3 <= (pn::<S>(b)->0).1 <= b.len(),
{
}

/// strictly ascending first bytes
spec fn asc<S>(v: Seq<NV<S>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).first() is Some
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).first()->0 < (#[trigger] v[j]).first()->0
}

spec fn is_find<S>(v: Seq<NV<S>>, b: u8, r: Option<NV<S>>) -> bool {
    match r {
        Some(n) => v.contains(n) && (asc(v) ==> n.first() == Some(b)),
        None => asc(v) ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).first() != Some(b),
    }
}

spec fn is_last<S>(v: Seq<NV<S>>, r: Option<NV<S>>) -> bool {
    match r {
        Some(n) => v.len() > 0 && n == v.last(),
        None => v.len() == 0,
    }
}

/// the first byte of the next node
spec fn rem_first<S>(r: Rem<S>) -> Option<Option<u8>> {
    match rem_head(r) {
        Some(n) => Some(n.first()),
        None => None,
    }
}

proof fn lemma_bnodes<S>(x: Seq<u8>)
    ensures
        pn::<S>(x) is None <==> bnodes::<S>(x).len() == 0,
        pn::<S>(x) is Some ==> bnodes::<S>(x)[0] == (pn::<S>(x)->0).0 && bnodes::<S>(x).skip(1) == bnodes::<S>(x.skip((pn::<S>(x)->0).1 as int)),
{
    if pn::<S>(x) is Some {
        assert(bnodes::<S>(x).skip(1) =~= bnodes::<S>(x.skip((pn::<S>(x)->0).1 as int)));
    }
}

broadcast proof fn lemma_rem_nodes<S>(r: Rem<S>)
    ensures
        #![trigger rem_tail(r)]
        rem_head(r) is None <==> rem_nodes(r).len() == 0,
        rem_head(r) is Some ==> rem_nodes(r)[0] == rem_head(r)->0 && rem_nodes(rem_tail(r)) == rem_nodes(r).skip(1) && rem_len(
            rem_tail(r),
        ) < rem_len(r),
        rem_head(r) is None ==> rem_tail(r) == r,
{
    match r {
        Rem::Data(v) => {
            if v.len() > 0 {
                assert(rem_nodes(rem_tail(r)) =~= rem_nodes(r).skip(1));
            }
        },
        Rem::Bytes(b) => {
            lemma_bnodes::<S>(b);
            lemma_pn::<S>(b);
        },
    }
}

/// a list of nodes represents a list of trees
spec fn lrepr<S: BlobStore>(v: Seq<NV<S>>, s: S, ts: Seq<T>) -> bool {
    v.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> repr(#[trigger] v[i], s, ts[i]) && v[i].tight()
}

broadcast proof fn lemma_lrepr<S: BlobStore>(r: Rem<S>, s: S, ts: Seq<T>)
    requires
        #[trigger] irepr(r, s, ts),
    ensures
        lrepr(#[trigger] rem_nodes(r), s, ts),
    decreases ts.len(),
{
    match r {
        Rem::Data(v) => {
            assert forall|i: int| 0 <= i < ts.len() implies repr(#[trigger] rem_nodes(r)[i], s, ts[i]) && rem_nodes(r)[i].tight() by {
                assert(v[i].inv());
            }
        },
        Rem::Bytes(b) => {
            lemma_bnodes::<S>(b);
            if ts.len() > 0 {
                lemma_rem(r, s, ts);
                lemma_lrepr(rem_tail(r), s, ts.skip(1));
                assert forall|i: int| 0 <= i < ts.len() implies repr(#[trigger] rem_nodes(r)[i], s, ts[i]) && rem_nodes(r)[i].tight() by {
                    if i > 0 {
                        assert(rem_nodes(r).skip(1)[i - 1] == rem_nodes(r)[i]);
                        assert(ts.skip(1)[i - 1] == ts[i]);
                    }
                }
                assert(rem_nodes(r).skip(1).len() == rem_nodes(r).len() - 1);
            }
        },
    }
}

/// the first byte of the fragment is available without the store
proof fn lemma_first<S: BlobStore>(n: NV<S>, s: S, t: T)
    requires
        repr(n, s, t),
    ensures
        n.first() == (if t.p().len() > 0 { Some(t.p()[0]) } else { None }),
{
}

proof fn lemma_asc<S: BlobStore>(v: Seq<NV<S>>, s: S, ts: Seq<T>)
    requires
        lrepr(v, s, ts),
        wfc(ts),
    ensures
        asc(v),
{
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).first() == Some(ts[i].p()[0]) by {
        assert(wfn(ts[i]));
        lemma_first(v[i], s, ts[i]);
    }
}

/// the children of a well-formed node are found by their first byte
proof fn lemma_idx(ts: Seq<T>, b: u8, i: int)
    requires
        wfc(ts),
        isc(ts, b, i),
    ensures
        hasc(ts, b),
        idx(ts, b) == i,
{
    let j = idx(ts, b);
    assert(isc(ts, b, j));
    if j < i {
        assert(ts[j].p()[0] < ts[i].p()[0]);
    }
    if i < j {
        assert(ts[i].p()[0] < ts[j].p()[0]);
    }
}

proof fn lemma_find<S: BlobStore>(r: Rem<S>, s: S, ts: Seq<T>, b: u8, f: Option<NV<S>>)
    requires
        irepr(r, s, ts),
        wfc(ts),
        is_find(rem_nodes(r), b, f),
    ensures
        f is Some ==> hasc(ts, b) && repr(f->0, s, ts[idx(ts, b)]) && f->0.tight() && wfn(ts[idx(ts, b)]),
        f is None ==> !hasc(ts, b),
{
    let v = rem_nodes(r);
    lemma_lrepr(r, s, ts);
    lemma_asc(v, s, ts);
    match f {
        Some(n) => {
            let i = choose|i: int| 0 <= i < v.len() && v[i] == n;
            assert(wfn(ts[i]));
            lemma_first(v[i], s, ts[i]);
            assert(isc(ts, b, i));
            lemma_idx(ts, b, i);
        },
        None => {
            if hasc(ts, b) {
                let i = idx(ts, b);
                assert(isc(ts, b, i));
                lemma_first(v[i], s, ts[i]);
            }
        },
    }
}

/// 256 ascending bytes are all the bytes
proof fn lemma_256<S>(v: Seq<NV<S>>, i: int)
    requires
        asc(v),
        v.len() == 256,
        0 <= i < 256,
    ensures
        v[i].first() == Some(i as u8),
{
    lemma_asc_lo(v, i);
    lemma_asc_hi(v, i);
}

proof fn lemma_asc_lo<S>(v: Seq<NV<S>>, i: int)
    requires
        asc(v),
        0 <= i < v.len(),
    ensures
        v[i].first()->0 >= i,
    decreases i,
{
    if i > 0 {
        lemma_asc_lo(v, i - 1);
        assert(v[i - 1].first()->0 < v[i].first()->0);
    }
}

proof fn lemma_asc_hi<S>(v: Seq<NV<S>>, i: int)
    requires
        asc(v),
        0 <= i < v.len(),
    ensures
        v[i].first()->0 <= 256 - v.len() + i,
    decreases v.len() - i,
{
    if i + 1 < v.len() {
        lemma_asc_hi(v, i + 1);
        assert(v[i].first()->0 < v[i + 1].first()->0);
    }
}

/// nodes of a vector
spec fn vnodes<S>(v: Seq<TreeNode<S>>) -> Seq<NV<S>> {
    Seq::new(v.len(), |i: int| v[i].nw())
}

spec fn vinv<S>(v: Seq<TreeNode<S>>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).inv()
}

proof fn lemma_vrepr<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, ts: Seq<T>)
    requires
        vinv(v),
        lrepr(vnodes(v), s, ts),
    ensures
        drepr(v, s, ts),
{
    assert forall|i: int| 0 <= i < ts.len() implies (#[trigger] v[i]).inv() && v[i].nw().tight() && repr(v[i].nw(), s, ts[i]) by {
        assert(vnodes(v)[i] == v[i].nw());
    }
}


/// a search that has seen a part of the list
proof fn lemma_seen<S>(seen: Seq<NV<S>>, all: Seq<NV<S>>, b: u8)
    requires
        seen.len() > 0,
        seen.is_prefix_of(all),
        forall|i: int| 0 <= i < seen.len() - 1 ==> (#[trigger] seen[i]).first() is None || seen[i].first()->0 < b,
    ensures
        seen.last().first() == Some(b) ==> is_find(all, b, Some(seen.last())),
        seen.last().first() is Some && seen.last().first()->0 > b ==> is_find(all, b, None::<NV<S>>),
{
    let k = seen.len() - 1;
    assert(all[k] == seen[k]);
    assert forall|i: int| 0 <= i < all.len() && asc(all) && seen[k].first() is Some && seen[k].first()->0 > b implies (#[trigger] all[i]).first()
        != Some(b) by {
        if i < k {
            assert(all[i] == seen[i]);
        } else if i > k {
            assert(all[k].first()->0 < all[i].first()->0);
        }
    }
}

proof fn lemma_owned_find<S>(v: Seq<TreeNode<S>>, b: u8)
    ensures
        v.len() == 256 ==> is_find(vnodes(v), b, Some(v[b as int].nw())),
        forall|n: TreeNode<S>| #[trigger] v.contains(n) && n.nw().first() == Some(b) ==> is_find(vnodes(v), b, Some(n.nw())),
        (asc(vnodes(v)) ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nw().first() != Some(b)) ==> is_find(
            vnodes(v),
            b,
            None::<NV<S>>,
        ),
{
    let s = vnodes(v);
    if v.len() == 256 {
        assert(s[b as int] == v[b as int].nw());
        if asc(s) {
            lemma_256(s, b as int);
        }
    }
    assert forall|n: TreeNode<S>| #[trigger] v.contains(n) && n.nw().first() == Some(b) implies is_find(s, b, Some(n.nw())) by {
        let i = choose|i: int| 0 <= i < v.len() && v[i] == n;
        assert(s[i] == n.nw());
    }
    assert((asc(s) ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nw().first() != Some(b)) ==> is_find(s, b, None::<NV<S>>)) by {
        if asc(s) ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nw().first() != Some(b) {
            assert forall|i: int| 0 <= i < s.len() && asc(s) implies (#[trigger] s[i]).first() != Some(b) by {
                assert(s[i] == v[i].nw());
            }
        }
    }
}
