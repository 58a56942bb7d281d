// ---------------------------------------------------------------------------------------------------------------
// Operations on a single node
// ---------------------------------------------------------------------------------------------------------------

/// the compressed form of a node whose children are in normal form
spec fn canon(t: T) -> T {
    if t.v() is None && t.c().len() == 1 {
        T::Node { p: t.p() + t.c()[0].p(), v: t.c()[0].v(), c: t.c()[0].c() }
    } else if t.v() is None && t.c().len() == 0 {
        T::Node { p: Seq::empty(), v: None, c: Seq::empty() }
    } else {
        t
    }
}

/// what `canonicalize` makes of a node: the children of a node that are not loaded are left alone
spec fn canonized<S: BlobStore>(n: NV<S>, s: S) -> T {
    if n.c is Data {
        canon(tv(n, s))
    } else if tv(n, s).v() is None && tv(n, s).c().len() == 0 {
        t_empty()
    } else {
        tv(n, s)
    }
}

/// a node cut in two
spec fn cut(t: T, n: nat) -> T {
    T::Node { p: t.p().take(n as int), v: None, c: seq![shorten(t, n)] }
}

/// a node without the first bytes of its key fragment
spec fn shorten(t: T, n: nat) -> T {
    T::Node { p: t.p().skip(n as int), v: t.v(), c: t.c() }
}

spec fn with_p(t: T, p: Seq<u8>) -> T {
    T::Node { p: p, v: t.v(), c: t.c() }
}

spec fn with_c(t: T, c: Seq<T>) -> T {
    T::Node { p: t.p(), v: t.v(), c: c }
}

spec fn t_empty() -> T {
    T::Node { p: Seq::empty(), v: None, c: Seq::empty() }
}

/// how a node is put together
proof fn lemma_mk<S: BlobStore>(n: NV<S>, s: S, p: Seq<u8>, v: Option<Seq<u8>>, c: Seq<T>)
    requires
        rp(s, n.p) == p,
        n.p is Id ==> s.readable() && n.p->Id_0.len() > 0 && p.len() > 0 && n.p->Id_0[0] == p[0],
        rv(s, n.v) == v,
        n.v is Id && !n.v.none() ==> s.readable(),
        crepr(n.c, s, c),
    ensures
        repr(n, s, T::Node { p: p, v: v, c: c }),
{
}

proof fn lemma_crepr_none<S: BlobStore>(c: Ch<S>, s: S, ts: Seq<T>)
    requires
        crepr(c, s, ts),
        c is Id,
        c->Id_0.len() == 0,
    ensures
        ts =~= Seq::empty(),
{
}

proof fn lemma_crepr_empty<S: BlobStore>(id: Seq<u8>, s: S)
    requires
        id.len() == 0,
    ensures
        crepr(Ch::<S>::Id(id), s, Seq::empty()),
{
}

proof fn lemma_crepr_data<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, ts: Seq<T>)
    requires
        drepr(v, s, ts),
    ensures
        crepr(Ch::Data(v), s, ts),
{
}

proof fn lemma_repr_empty<S: BlobStore>(n: NV<S>, s: S)
    requires
        n.p == Raw::Data(Seq::empty()),
        n.v =~= raw_none(),
        n.c == Ch::<S>::Id(Seq::empty()),
    ensures
        repr(n, s, t_empty()),
{
    lemma_crepr_empty::<S>(Seq::empty(), s);
    lemma_mk(n, s, Seq::empty(), None, Seq::empty());
}

/// one more node at the end of a list
proof fn lemma_drepr_push<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, ts: Seq<T>, n: TreeNode<S>, t: T)
    requires
        drepr(v, s, ts),
        n.inv(),
        n.nw().tight(),
        repr(n.nw(), s, t),
    ensures
        drepr(v.push(n), s, ts.push(t)),
{
    assert forall|i: int| 0 <= i < ts.push(t).len() implies (#[trigger] v.push(n)[i]).inv() && v.push(n)[i].nw().tight() && repr(
        v.push(n)[i].nw(),
        s,
        ts.push(t)[i],
    ) by {
        if i < ts.len() {
            assert(v[i].inv());
        }
    }
}

proof fn lemma_drepr_nil<S: BlobStore>(v: Seq<TreeNode<S>>, s: S)
    requires
        v.len() == 0,
    ensures
        drepr(v, s, Seq::empty()),
{
}

proof fn lemma_drepr_at<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, ts: Seq<T>, i: int)
    requires
        drepr(v, s, ts),
        0 <= i < v.len(),
    ensures
        v.len() == ts.len(),
        v[i].inv(),
        v[i].nw().tight(),
        repr(v[i].nw(), s, ts[i]),
{
}

proof fn lemma_drepr_vinv<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, ts: Seq<T>)
    requires
        drepr(v, s, ts),
    ensures
        v.len() == ts.len(),
        vinv(v),
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).nw().tight() && repr(v[i].nw(), s, ts[i]),
{
}

/// what a search finds is in normal form
proof fn lemma_ft_wf(t: T, k: Seq<u8>)
    requires
        wfc(t.c()),
    ensures
        match ft(t, k) {
            Ft::Found(x) => wfc(x.c()) && (x == t || wfn(x)),
            Ft::Prefix(x, n) => wfc(x.c()) && (x == t || wfn(x)) && n <= x.p().len(),
            Ft::NotFound => true,
        },
    decreases t,
{
    let n = cpl(t.p(), k);
    lemma_cpl(t.p(), k);
    if k.len() != n && t.p().len() == n && hasc(t.c(), k[n as int]) {
        let i = idx(t.c(), k[n as int]);
        assert(isc(t.c(), k[n as int], i));
        assert(wfn(t.c()[i]));
        lemma_ft_wf(t.c()[i], k.skip(n as int));
    }
}

/// the subtree below a prefix, with the prefix replaced
spec fn filt(t: T, p: Seq<u8>, sub: Seq<u8>) -> T {
    match ft(t, p) {
        Ft::Found(x) => canon(with_p(x, sub)),
        Ft::Prefix(x, n) => with_p(x, sub + x.p().skip(n as int)),
        Ft::NotFound => t_empty(),
    }
}
