// ---------------------------------------------------------------------------------------------------------------
// Writing a tree to a store: what the bytes stand for
// ---------------------------------------------------------------------------------------------------------------

/// `n`, a node of a tree of any kind, represents `t` if its ids are read from `s`
spec fn xrepr<N, S: BlobStore>(n: NV<N>, s: S, t: T) -> bool
    decreases t, 1nat,
{
    &&& rp(s, n.p) == t.p()
    &&& n.p is Id ==> s.readable() && n.p->Id_0.len() > 0 && t.p().len() > 0 && n.p->Id_0[0] == t.p()[0]
    &&& rv(s, n.v) == t.v()
    &&& n.v is Id && !n.v.none() ==> s.readable()
    &&& match n.c {
        Ch::Data(v) => xdrepr(v, s, t.c()),
        Ch::Id(id) => crepr(Ch::<S>::Id(id), s, t.c()),
    }
}

spec fn xdrepr<N, S: BlobStore>(v: Seq<TreeNode<N>>, s: S, ts: Seq<T>) -> bool
    decreases ts, 0nat,
{
    &&& v.len() == ts.len()
    &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] v[i]).inv() && xrepr(v[i].nw(), s, ts[i])
}

/// the tree of a store
proof fn lemma_x_same<S: BlobStore>(n: NV<S>, s: S, t: T)
    requires
        repr(n, s, t),
    ensures
        xrepr(n, s, t),
    decreases t,
{
    if n.c is Data {
        let v = n.c->Data_0;
        assert forall|i: int| 0 <= i < t.c().len() implies (#[trigger] v[i]).inv() && xrepr(v[i].nw(), s, t.c()[i]) by {
            lemma_x_same(v[i].nw(), s, t.c()[i]);
        }
    }
}

/// a tree without a store
proof fn lemma_x_detached<S: BlobStore>(n: NV<Detached>, s: S, t: T)
    requires
        repr(n, Detached, t),
    ensures
        xrepr(n, s, t),
    decreases t,
{
    if n.c is Data {
        let v = n.c->Data_0;
        assert forall|i: int| 0 <= i < t.c().len() implies (#[trigger] v[i]).inv() && xrepr(v[i].nw(), s, t.c()[i]) by {
            lemma_x_detached(v[i].nw(), s, t.c()[i]);
        }
    }
}

/// the bytes `e` are exactly the encoding of a node that represents `t`
spec fn enc<S: BlobStore>(e: Seq<u8>, s: S, t: T) -> bool {
    match pn::<S>(e) {
        Some(x) => x.1 == e.len() && repr(x.0, s, t),
        None => false,
    }
}

/// what follows an encoded node does not matter
proof fn lemma_pn_app<S>(b: Seq<u8>, r: Seq<u8>)
    requires
        pn::<S>(b) is Some,
    ensures
        pn::<S>(b + r) == pn::<S>(b),
{
    let x = b + r;
    let h1 = Header(b[0]);
    let o1 = 1 + hlen(h1) as int;
    let h2 = Header(b[o1]);
    let o2 = o1 + 1 + hlen(h2) as int;
    let h3 = Header(b[o2]);
    let o3 = o2 + 1 + hlen(h3) as int;
    assert(x.subrange(1, o1) =~= b.subrange(1, o1));
    assert(x.subrange(o1 + 1, o2) =~= b.subrange(o1 + 1, o2));
    assert(x.subrange(o2 + 1, o3) =~= b.subrange(o2 + 1, o3));
}

/// three encoded parts make an encoded node
proof fn lemma_enc<N, S: BlobStore>(n: NV<N>, s: S, t: T, e1: Seq<u8>, e2: Seq<u8>, e3: Seq<u8>)
    requires
        s.readable(),
        xrepr(n, s, t),
        !n.p.none(),
        ser_raw(s, n.p, 1, e1),
        ser_raw(s, n.v, 0, e2),
        e3.len() > 0,
        hid(Header(e3[0])),
        e3.len() == 1 + hlen(Header(e3[0])),
        crepr(Ch::<S>::Id(e3.skip(1)), s, t.c()),
    ensures
        enc(e1 + e2 + e3, s, t),
{
    let e = e1 + e2 + e3;
    let o1 = e1.len() as int;
    let o2 = o1 + e2.len();
    assert(e.subrange(1, o1) =~= e1.skip(1));
    assert(e.subrange(o1 + 1, o2) =~= e2.skip(1));
    assert(e.subrange(o2 + 1, e.len() as int) =~= e3.skip(1));
    assert(e[0] == e1[0]);
    assert(e[o1] == e2[0]);
    assert(e[o2] == e3[0]);
    let x = pn::<S>(e)->0;
    assert(pn::<S>(e) is Some);
    assert(x.1 == e.len());
    assert(x.0.p == raw_of(Header(e1[0]), e1.skip(1)));
    if x.0.p != n.p {
        assert(x.0.p->Id_0.take(1)[0] == n.p.bytes().take(1)[0]);
    }
    if x.0.v != n.v {
        assert(x.0.v->Id_0.skip(0) =~= x.0.v->Id_0);
    }
}

/// one more node at the end of a list
proof fn lemma_brepr_push<S: BlobStore>(b: Seq<u8>, s: S, ts: Seq<T>, e: Seq<u8>, t: T)
    requires
        brepr(b, s, ts),
        enc(e, s, t),
    ensures
        brepr(b + e, s, ts.push(t)),
    decreases ts.len(),
{
    let us = ts.push(t);
    if ts.len() == 0 {
        assert(b + e =~= e);
        assert(us.skip(1) =~= Seq::empty());
        assert(e.skip(e.len() as int) =~= Seq::empty());
        assert(brepr(Seq::empty(), s, Seq::empty()));
    } else {
        let x = pn::<S>(b)->0;
        lemma_pn_app::<S>(b, e);
        lemma_pn_len::<S>(b);
        lemma_brepr_push(b.skip(x.1 as int), s, ts.skip(1), e, t);
        assert((b + e).skip(x.1 as int) =~= b.skip(x.1 as int) + e);
        assert(us.skip(1) =~= ts.skip(1).push(t));
    }
}

proof fn lemma_pn_len<S>(b: Seq<u8>)
    requires
        pn::<S>(b) is Some,
    ensures
        (pn::<S>(b)->0).1 <= b.len(),
{
}

/// `u8::try_from(n).unwrap_or_default()`: a hint that nothing depends on
#[verifier::external_body]
fn small(n: usize) -> (r: u8) {
    n.try_into().unwrap_or_default()
}

/// `Result::unwrap`
fn node_of<X>(r: Result<X, AnyErr>) -> (x: X)
    requires
        r is Ok,
    ensures
        r == Ok::<X, AnyErr>(x),
{
    match r {
        Ok(x) => x,
        Err(_) => vstd::pervasive::unreached(),
    }
}
