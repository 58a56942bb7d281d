// ---------------------------------------------------------------------------------------------------------------
// GroupBy: what each part holds
// ---------------------------------------------------------------------------------------------------------------

/// `u`, with `pre` in front of its keys, is what the tree `t` has below the prefix `pre + u.p()`
spec fn sub(t: T, pre: Seq<u8>, u: T) -> bool {
    forall|k: Seq<u8>| (pre + u.p()).is_prefix_of(k) ==> #[trigger] lk(t, k) == lk(u, k.skip(pre.len() as int))
}

/// a subtree below `path` that can stand on its own
spec fn wfx(u: T, path: Seq<u8>) -> bool {
    wf(u) && wf(with_p(u, path + u.p()))
}

/// the subtrees that are still to come are well formed
spec fn st_wf<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>) -> bool
    decreases st.len(),
{
    st.len() > 0 ==> (forall|i: int| 0 <= i < fr_ts(st.last(), s).len() ==> wfx(#[trigger] fr_ts(st.last(), s)[i], path)) && st_wf(
        st.drop_last(),
        s,
        path.take(path.len() - st.last().0),
    )
}

/// the subtrees that are still to come belong to `t`
spec fn st_in<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>, t: T) -> bool
    decreases st.len(),
{
    st.len() > 0 ==> (forall|i: int| 0 <= i < fr_ts(st.last(), s).len() ==> sub(t, path, #[trigger] fr_ts(st.last(), s)[i])) && st_in(
        st.drop_last(),
        s,
        path.take(path.len() - st.last().0),
        t,
    )
}

spec fn desc_ok<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>>(f: F, s: S) -> bool {
    forall|p: &[u8], n: &TreeNodeRef<S>| n.inv() && good(n.nw(), s) ==> #[trigger] call_requires(f, (p, n))
}

/// the function can answer `d` for the prefix `p`
spec fn desc<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>>(f: F, s: S, p: Seq<u8>, d: bool) -> bool {
    exists|q: &[u8], n: &TreeNodeRef<S>| q@ == p && n.inv() && good(n.nw(), s) && #[trigger] call_ensures(f, (q, n), Ok(d))
}

/// everything that `t` has below the prefix of `x`
spec fn whole(x: T, t: T) -> bool {
    scans(ents(x, Seq::empty()), t, x.p())
}

/// a single entry of `t`
spec fn alone(x: T, t: T) -> bool {
    x.c().len() == 0 && x.v() is Some && lk(t, x.p()) == x.v()
}

impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> GroupBy<S, F> {
    spec fn ok(self) -> bool {
        &&& st_ok(self.stack@, self.store, self.path.kb().len() as int)
        &&& st_wf(self.stack@, self.store, self.path.kb())
        &&& desc_ok(self.descend, self.store)
    }

    /// the entries that are still to come
    spec fn ents(self) -> Es {
        st_ents(self.stack@, self.store, self.path.kb())
    }

    /// they are entries of `t`
    spec fn of(self, t: T) -> bool {
        st_in(self.stack@, self.store, self.path.kb(), t)
    }

    /// the part `n` comes next, `b` is what is left
    spec fn part(self, b: Self, n: TreeNode<S>) -> bool {
        &&& n.inv() && good(n.nw(), self.store)
        &&& self.ents() =~= ents(tv(n.nw(), self.store), Seq::empty()) + b.ents()
        &&& {
            ||| {
                &&& desc(self.descend, self.store, tv(n.nw(), self.store).p(), false)
                &&& forall|t: T| #[trigger] self.of(t) ==> whole(tv(n.nw(), self.store), t)
            }
            ||| {
                &&& desc(self.descend, self.store, tv(n.nw(), self.store).p(), true)
                &&& tv(n.nw(), self.store).c().len() == 0 && tv(n.nw(), self.store).v() is Some
                &&& forall|t: T| #[trigger] self.of(t) ==> alone(tv(n.nw(), self.store), t)
            }
        }
    }
}

proof fn lemma_sub_root(t: T)
    ensures
        sub(t, Seq::empty(), t),
{
    assert forall|k: Seq<u8>| #[trigger] lk(t, k) == lk(t, k.skip(0)) by {
        assert(k.skip(0) =~= k);
    }
}

/// the children of a part are parts
proof fn lemma_sub_child(t: T, pre: Seq<u8>, u: T, i: int)
    requires
        wfc(u.c()),
        sub(t, pre, u),
        0 <= i < u.c().len(),
    ensures
        sub(t, pre + u.p(), u.c()[i]),
{
    let c = u.c()[i];
    let q = pre + u.p();
    assert(wfn(c));
    assert forall|k: Seq<u8>| (q + c.p()).is_prefix_of(k) implies #[trigger] lk(t, k) == lk(c, k.skip(q.len() as int)) by {
        let r = k.skip((q + c.p()).len() as int);
        assert(k =~= q + c.p() + r);
        assert(q =~= k.take(q.len() as int));
        let a = k.skip(pre.len() as int);
        assert(a =~= u.p() + c.p() + r);
        assert(a.take(u.p().len() as int) =~= u.p());
        assert(a.skip(u.p().len() as int) =~= c.p() + r);
        assert(k.skip(q.len() as int) =~= c.p() + r);
        assert((c.p() + r)[0] == c.p()[0]);
        assert(isc(u.c(), c.p()[0], i));
        lemma_idx(u.c(), c.p()[0], i);
    }
}

/// the entries of a part
proof fn lemma_whole(t: T, pre: Seq<u8>, u: T)
    requires
        wfc(u.c()),
        sub(t, pre, u),
    ensures
        whole(with_p(u, pre + u.p()), t),
        ents(with_p(u, pre + u.p()), Seq::empty()) =~= ents(u, pre),
        u.v() is Some ==> lk(t, pre + u.p()) == u.v(),
{
    let p = pre + u.p();
    let x = with_p(u, Seq::empty());
    let e = Seq::<u8>::empty();
    let es = ents(x, p);
    assert(e + p =~= p);
    assert(p + e =~= p);
    assert(ents(with_p(u, p), e) == es);
    lemma_ents_lists(x, p);
    assert forall|r: Seq<u8>| #[trigger] lk(x, r) == lk(t, p + r) by {
        let k = p + r;
        assert(k.take(p.len() as int) =~= p);
        let a = k.skip(pre.len() as int);
        assert(a =~= u.p() + r);
        assert(a.take(u.p().len() as int) =~= u.p());
        assert(a.skip(u.p().len() as int) =~= r);
        assert(r.skip(0) =~= r);
        assert(r.take(0) =~= e);
    }
    assert forall|i: int| 0 <= i < es.len() implies p.is_prefix_of((#[trigger] es[i]).0) && lk(t, es[i].0) == Some(es[i].1) by {
        assert(in_tree(x, p, es[i]));
        let r = es[i].0.skip(p.len() as int);
        assert(es[i].0 =~= p + r);
        assert(lk(x, r) == lk(t, p + r));
    }
    assert forall|k: Seq<u8>| p.is_prefix_of(k) && #[trigger] lk(t, k) is Some implies es.contains((k, lk(t, k)->0)) by {
        let r = k.skip(p.len() as int);
        assert(k =~= p + r);
        assert(lk(x, r) == lk(t, p + r));
        assert(listed(es, x, p, r));
    }
    assert(lk(x, e) == lk(t, p + e));
    assert(e.skip(0) =~= e);
}

/// the key fragment moved into the prefix
proof fn lemma_ents_p(pre: Seq<u8>, u: T)
    ensures
        ents(with_p(u, pre + u.p()), Seq::empty()) =~= ents(u, pre),
{
    assert(Seq::<u8>::empty() + (pre + u.p()) =~= pre + u.p());
}

/// the same node with another key fragment
proof fn lemma_re_p<S: BlobStore>(n: NV<S>, m: NV<S>, s: S, p: Seq<u8>)
    requires
        rep(n, s),
        m.p == Raw::Data(p),
        m.v == n.v,
        m.c == n.c,
    ensures
        repr(m, s, with_p(tv(n, s), p)),
{
}

proof fn lemma_re_v<S: BlobStore>(n: NV<S>, m: NV<S>, s: S, p: Seq<u8>)
    requires
        rep(n, s),
        m.p == Raw::Data(p),
        m.v == n.v,
        m.c == Ch::<S>::Id(Seq::empty()),
    ensures
        repr(m, s, T::Node { p, v: tv(n, s).v(), c: Seq::empty() }),
{
}

/// a step into the next node, as in `lemma_st_into`
proof fn lemma_g_into<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>, f1: Fr<S>, f2: Fr<S>, ts: Seq<T>)
    requires
        st.len() > 0,
        st_wf(st, s, path),
        st_ok(st, s, path.len() as int),
        st.last().1 is Some,
        f1.0 == st.last().0,
        f1.1 is Some && f1.1->0.inv() && irepr(f1.1->0.rem(), s, ts.skip(1)),
        irepr(st.last().1->0.rem(), s, ts),
        ts.len() > 0,
        f2.0 == ts[0].p().len(),
        f2.1 is Some ==> f2.1->0.inv() && irepr(f2.1->0.rem(), s, ts[0].c()),
        f2.1 is None ==> ts[0].c().len() == 0,
    ensures
        st_wf(st.drop_last().push(f1).push(f2), s, path + ts[0].p()),
        forall|t: T| #[trigger] st_in(st, s, path, t) ==> sub(t, path, ts[0]) && st_in(st.drop_last().push(f1).push(f2), s, path + ts[0].p(), t),
{
    let s1 = st.drop_last().push(f1);
    let s2 = s1.push(f2);
    lemma_g_skip(st, s, path, f1, ts);
    assert(s2.drop_last() =~= s1);
    let p2 = path + ts[0].p();
    assert(p2.take(p2.len() - f2.0) =~= path);
    assert(fr_ts(f2, s) =~= ts[0].c());
    assert(fr_ts(st.last(), s) == ts);
    assert(wfx(fr_ts(st.last(), s)[0], path));
    assert forall|i: int| 0 <= i < fr_ts(s2.last(), s).len() implies wfx(#[trigger] fr_ts(s2.last(), s)[i], p2) by {
        assert(wfn(ts[0].c()[i]));
    }
    assert forall|t: T| #[trigger] st_in(st, s, path, t) implies sub(t, path, ts[0]) && st_in(s2, s, p2, t) by {
        assert(st_in(s1, s, path, t));
        assert(sub(t, path, fr_ts(st.last(), s)[0]));
        assert forall|i: int| 0 <= i < fr_ts(s2.last(), s).len() implies sub(t, p2, #[trigger] fr_ts(s2.last(), s)[i]) by {
            lemma_sub_child(t, path, ts[0], i);
        }
    }
}

/// a step past the next node
proof fn lemma_g_skip<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>, f1: Fr<S>, ts: Seq<T>)
    requires
        st.len() > 0,
        st_wf(st, s, path),
        st_ok(st, s, path.len() as int),
        st.last().1 is Some,
        f1.0 == st.last().0,
        f1.1 is Some && f1.1->0.inv() && irepr(f1.1->0.rem(), s, ts.skip(1)),
        irepr(st.last().1->0.rem(), s, ts),
        ts.len() > 0,
    ensures
        wfx(ts[0], path),
        st_ok(st.drop_last().push(f1), s, path.len() as int),
        st_wf(st.drop_last().push(f1), s, path),
        st_ents(st, s, path) =~= ents(ts[0], path) + st_ents(st.drop_last().push(f1), s, path),
        forall|t: T| #[trigger] st_in(st, s, path, t) ==> sub(t, path, ts[0]) && st_in(st.drop_last().push(f1), s, path, t),
{
    let s1 = st.drop_last().push(f1);
    assert(s1.drop_last() =~= st.drop_last());
    assert(fr_ts(f1, s) =~= ts.skip(1));
    assert(fr_ts(st.last(), s) == ts);
    assert(wfx(fr_ts(st.last(), s)[0], path));
    assert(entsc(ts, path) == ents(ts[0], path) + entsc(ts.skip(1), path));
    assert forall|i: int| 0 <= i < fr_ts(s1.last(), s).len() implies wfx(#[trigger] fr_ts(s1.last(), s)[i], path) by {
        assert(wfx(fr_ts(st.last(), s)[i + 1], path));
    }
    assert forall|t: T| #[trigger] st_in(st, s, path, t) implies sub(t, path, ts[0]) && st_in(s1, s, path, t) by {
        assert(sub(t, path, fr_ts(st.last(), s)[0]));
        assert forall|i: int| 0 <= i < fr_ts(s1.last(), s).len() implies sub(t, path, #[trigger] fr_ts(s1.last(), s)[i]) by {
            assert(sub(t, path, fr_ts(st.last(), s)[i + 1]));
        }
    }
}

proof fn lemma_g_end<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>)
    requires
        st.len() > 0,
        st_wf(st, s, path),
        st_ok(st, s, path.len() as int),
        st.last().1 is Some ==> irepr(st.last().1->0.rem(), s, Seq::empty()),
    ensures
        st_wf(st.drop_last().push((st.last().0, None)), s, path),
        st_wf(st.drop_last(), s, path.take(path.len() - st.last().0)),
        forall|t: T| #[trigger] st_in(st, s, path, t) ==> st_in(st.drop_last().push((st.last().0, None)), s, path, t),
        forall|t: T| #[trigger] st_in(st, s, path, t) ==> st_in(st.drop_last(), s, path.take(path.len() - st.last().0), t),
{
    let s1 = st.drop_last().push((st.last().0, None));
    assert(s1.drop_last() =~= st.drop_last());
    assert(fr_ts(s1.last(), s) =~= Seq::empty());
}

// ---------------------------------------------------------------------------------------------------------------
// `Iterator::map`: `next` of the result asks the iterator once and applies the function to what it delivers
// ---------------------------------------------------------------------------------------------------------------

trait Source: Sized {
    type Out;

    spec fn sok(self) -> bool;

    /// `r` comes next, `after` is what is left
    spec fn gives(self, after: Self, r: Option<Self::Out>) -> bool;

    fn step(&mut self) -> (r: Option<Self::Out>)
        requires
            old(self).sok(),
        ensures
            final(self).sok(),
            old(self).gives(*final(self), r),
    ;

    fn map<Y, F: Fn(Self::Out) -> Y>(self, f: F) -> (r: Map<Self, F>)
        ensures
            r.it == self,
            r.f == f,
    {
        Map { it: self, f }
    }
}

struct Map<I, F> {
    it: I,
    f: F,
}

impl<I: Source, Y, F: Fn(I::Out) -> Y> Source for Map<I, F> {
    type Out = Y;

    spec fn sok(self) -> bool {
        self.it.sok() && forall|x: I::Out| #[trigger] call_requires(self.f, (x,))
    }

    spec fn gives(self, after: Self, r: Option<Y>) -> bool {
        &&& after.f == self.f
        &&& exists|x: Option<I::Out>| #[trigger] self.it.gives(after.it, x) && match x {
            Some(x) => r is Some && call_ensures(self.f, (x,), r->0),
            None => r is None,
        }
    }

    fn step(&mut self) -> (r: Option<Y>) {
        let x = self.it.step();
        match x {
            Some(x) => Some((self.f)(x)),
            None => None,
        }
    }
}

impl<S: BlobStore> Source for KeyValueIter<S> {
    type Out = Result<(IterKey, Value<S>), S::Error>;

    spec fn sok(self) -> bool {
        self.ok()
    }

    spec fn gives(self, after: Self, r: Option<Self::Out>) -> bool {
        after.store == self.store && match r {
            Some(Ok((k, x))) => valok(x, self.store) && self.ents().len() > 0 && k.kb() == self.ents()[0].0 && rv(self.store, x.vv()) == Some(self.ents()[0].1) && after.ents() =~= self.ents().skip(1),
            None => self.ents().len() == 0 && after.ents().len() == 0,
            Some(Err(_)) => after.ents().len() == 0,
        }
    }

    fn step(&mut self) -> (r: Option<Self::Out>) {
        self.next()
    }
}

impl<S: BlobStore> Source for ValueIter<S> {
    type Out = Result<Value<S>, S::Error>;

    spec fn sok(self) -> bool {
        self.ok()
    }

    spec fn gives(self, after: Self, r: Option<Self::Out>) -> bool {
        after.store == self.store && match r {
            Some(Ok(x)) => valok(x, self.store) && self.vals().len() > 0 && rv(self.store, x.vv()) == Some(self.vals()[0]) && after.vals() =~= self.vals().skip(1),
            None => self.vals().len() == 0 && after.vals().len() == 0,
            Some(Err(_)) => after.vals().len() == 0,
        }
    }

    fn step(&mut self) -> (r: Option<Self::Out>) {
        self.next()
    }
}

impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> Source for GroupBy<S, F> {
    type Out = Result<TreeNode<S>, S::Error>;

    spec fn sok(self) -> bool {
        self.ok()
    }

    spec fn gives(self, after: Self, r: Option<Self::Out>) -> bool {
        after.store == self.store && after.descend == self.descend && match r {
            Some(Ok(n)) => self.part(after, n) && forall|t: T| #[trigger] self.of(t) ==> after.of(t),
            None => self.ents().len() == 0 && after.ents().len() == 0,
            Some(Err(_)) => after.ents().len() == 0,
        }
    }

    fn step(&mut self) -> (r: Option<Self::Out>) {
        self.next()
    }
}

/// an adapter that only takes results apart
spec fn opens<X, F: Fn(Result<X, NoError>) -> X>(f: F) -> bool {
    &&& forall|x: Result<X, NoError>| #[trigger] call_requires(f, (x,))
    &&& forall|x: Result<X, NoError>, y: X| #[trigger] call_ensures(f, (x,), y) ==> x == Ok::<X, NoError>(y)
}

/// an adapter that makes trees of nodes
spec fn wraps<S: BlobStore, F: Fn(Result<TreeNode<S>, S::Error>) -> Result<RadixTree<S>, S::Error>>(f: F, s: S) -> bool {
    &&& forall|x: Result<TreeNode<S>, S::Error>| #[trigger] call_requires(f, (x,))
    &&& forall|x: Result<TreeNode<S>, S::Error>, y: Result<RadixTree<S>, S::Error>| #[trigger] call_ensures(f, (x,), y) ==> match x {
        Ok(n) => y == Ok::<RadixTree<S>, S::Error>(RadixTree { node: n, store: s }),
        Err(e) => y == Err::<RadixTree<S>, S::Error>(e),
    }
}
