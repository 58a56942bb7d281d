// ---------------------------------------------------------------------------------------------------------------
// Trees with their store: the public operations as operations on a map
// ---------------------------------------------------------------------------------------------------------------

impl<S: BlobStore> RadixTree<S> {
    spec fn t(self) -> T {
        tv(self.node.nw(), self.store)
    }

    spec fn ok(self) -> bool {
        self.node.inv() && good(self.node.nw(), self.store)
    }

    /// the map that the tree stands for
    spec fn map(self) -> spec_fn(Seq<u8>) -> Option<Seq<u8>> {
        |k: Seq<u8>| lk(self.t(), k)
    }

    spec fn at(self, k: Seq<u8>) -> Option<Seq<u8>> {
        lk(self.t(), k)
    }
}

spec fn t_single(p: Seq<u8>, v: Seq<u8>) -> T {
    T::Node { p: p, v: Some(v), c: Seq::empty() }
}

/// a tree with one entry
proof fn lemma_t_single<S: BlobStore>(n: NV<S>, s: S, p: Seq<u8>, v: Seq<u8>)
    requires
        n.p == Raw::Data(p),
        n.v == Raw::Data(v),
        n.c == Ch::<S>::Id(Seq::empty()),
    ensures
        repr(n, s, t_single(p, v)),
        wf(t_single(p, v)),
        tv(n, s) == t_single(p, v),
        forall|k: Seq<u8>| #[trigger] lk(t_single(p, v), k) == (if k == p { Some(v) } else { None }),
{
    lemma_crepr_empty::<S>(Seq::empty(), s);
    lemma_mk(n, s, p, Some(v), Seq::empty());
    assert(wfc(Seq::<T>::empty()));
    let t = t_single(p, v);
    assert forall|k: Seq<u8>| #[trigger] lk(t, k) == (if k == p { Some(v) } else { None }) by {
        if p.is_prefix_of(k) {
            let q = k.skip(p.len() as int);
            lemma_lkc_nil(q);
            if q.len() == 0 {
                assert(k =~= p);
            } else {
                assert(k.len() != p.len());
            }
        } else if k == p {
            assert(k.take(p.len() as int) =~= p);
        }
    }
}

/// an entry that is put into a tree
proof fn lemma_put(m: MR, a: T, b: T, r: T, p: Seq<u8>, v: Seq<u8>)
    requires
        b == t_single(p, v),
        forall|k: Seq<u8>| #[trigger] lk(b, k) == (if k == p { Some(v) } else { None }),
        merged(m, a, b, r),
        forall|x: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, Some(v), z) ==> z == Some(v),
        forall|x: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, None, z) ==> z == x,
    ensures
        forall|k: Seq<u8>| #[trigger] lk(r, k) == (if k == p { Some(v) } else { lk(a, k) }),
{
    assert forall|k: Seq<u8>| #[trigger] lk(r, k) == (if k == p { Some(v) } else { lk(a, k) }) by {
        assert(mk(m, a, b, r, k));
        assert(lk(b, k) == (if k == p { Some(v) } else { None }));
    }
}

/// an entry that was to be put into a tree
proof fn lemma_put_half(m: MR, a: T, b: T, r: T, p: Seq<u8>, v: Seq<u8>)
    requires
        forall|k: Seq<u8>| #[trigger] lk(b, k) == (if k == p { Some(v) } else { None }),
        merged(m, a, b, r),
        forall|x: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, Some(v), z) ==> z == Some(v) || z == x,
        forall|x: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, None, z) ==> z == x,
    ensures
        forall|k: Seq<u8>| #[trigger] lk(r, k) == lk(a, k) || (k == p && lk(r, k) == Some(v)),
{
    assert forall|k: Seq<u8>| #[trigger] lk(r, k) == lk(a, k) || (k == p && lk(r, k) == Some(v)) by {
        assert(mk(m, a, b, r, k));
        assert(lk(b, k) == (if k == p { Some(v) } else { None }));
    }
}

/// an entry that was to be taken out of a tree
proof fn lemma_take_out_half(m: MR, a: T, b: T, r: T, p: Seq<u8>, v: Seq<u8>)
    requires
        forall|k: Seq<u8>| #[trigger] lk(b, k) == (if k == p { Some(v) } else { None }),
        merged(m, a, b, r),
        forall|x: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, Some(v), z) ==> z is None || z == x,
        forall|x: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, None, z) ==> z == x,
    ensures
        forall|k: Seq<u8>| #[trigger] lk(r, k) == lk(a, k) || (k == p && lk(r, k) is None),
{
    assert forall|k: Seq<u8>| #[trigger] lk(r, k) == lk(a, k) || (k == p && lk(r, k) is None) by {
        assert(mk(m, a, b, r, k));
        assert(lk(b, k) == (if k == p { Some(v) } else { None }));
    }
}

/// entries with a prefix that were to be taken out of a tree
proof fn lemma_take_out_all_half(ar: AR, a: T, b: T, r: T, p: Seq<u8>, v: Seq<u8>)
    requires
        b == t_single(p, v),
        forall|k: Seq<u8>| #[trigger] lk(b, k) == (if k == p { Some(v) } else { None }),
        pm(ar, ke(false), a, b, r),
    ensures
        forall|k: Seq<u8>| #[trigger] lk(r, k) == lk(a, k) || (p.is_prefix_of(k) && lk(r, k) is None),
{
    assert forall|k: Seq<u8>| #[trigger] lk(r, k) == lk(a, k) || (p.is_prefix_of(k) && lk(r, k) is None) by {
        assert(pk(ar, ke(false), a, b, r, k));
        if lk(r, k) != lk(a, k) {
            assert(hit(ar, b, k));
            let n = choose|n: int| #[trigger] hit_at(ar, b, k, n);
            assert(lk(b, k.take(n)) is Some);
            assert(k.take(n) == p);
            assert(k.take(n) =~= k.take(p.len() as int));
        }
    }
}

/// an entry that is taken out of a tree
proof fn lemma_take_out(m: MR, a: T, b: T, r: T, p: Seq<u8>, v: Seq<u8>)
    requires
        b == t_single(p, v),
        forall|k: Seq<u8>| #[trigger] lk(b, k) == (if k == p { Some(v) } else { None }),
        merged(m, a, b, r),
        forall|x: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, Some(v), z) ==> z is None,
        forall|x: Option<Seq<u8>>, z: Option<Seq<u8>>| #[trigger] m(x, None, z) ==> z == x,
    ensures
        forall|k: Seq<u8>| #[trigger] lk(r, k) == (if k == p { None } else { lk(a, k) }),
{
    assert forall|k: Seq<u8>| #[trigger] lk(r, k) == (if k == p { None } else { lk(a, k) }) by {
        assert(mk(m, a, b, r, k));
        assert(lk(b, k) == (if k == p { Some(v) } else { None }));
    }
}

/// all entries with a prefix that are taken out of a tree
proof fn lemma_take_out_all(ar: AR, a: T, b: T, r: T, p: Seq<u8>, v: Seq<u8>)
    requires
        b == t_single(p, v),
        forall|k: Seq<u8>| #[trigger] lk(b, k) == (if k == p { Some(v) } else { None }),
        pm(ar, kp(false), a, b, r),
        forall|y: Seq<u8>| !#[trigger] ar(y, false),
    ensures
        forall|k: Seq<u8>| #[trigger] lk(r, k) == (if p.is_prefix_of(k) { None } else { lk(a, k) }),
{
    assert forall|k: Seq<u8>| #[trigger] lk(r, k) == (if p.is_prefix_of(k) { None } else { lk(a, k) }) by {
        assert(pk(ar, kp(false), a, b, r, k));
        if p.is_prefix_of(k) {
            let n = p.len() as int;
            assert(k.take(n) =~= p);
            assert(lk(b, k.take(n)) == Some(v));
            assert(!ar(v, false));
            if miss(ar, b, k) {
                assert(miss_at(ar, b, k, n));
            }
        } else {
            if hit(ar, b, k) {
                let n = choose|n: int| #[trigger] hit_at(ar, b, k, n);
                assert(lk(b, k.take(n)) is Some);
                assert(k.take(n) == p);
                assert(k.take(n) =~= k.take(p.len() as int));
            }
        }
    }
}
