// ---------------------------------------------------------------------------------------------------------------
// The entries of a tree: in order of their keys, each exactly once, and nothing else
// ---------------------------------------------------------------------------------------------------------------

/// the order of byte strings
spec fn lexlt(a: Seq<u8>, b: Seq<u8>) -> bool {
    let n = cpl(a, b);
    n < b.len() && (n == a.len() || a[n as int] < b[n as int])
}

proof fn lemma_lexlt_at(a: Seq<u8>, b: Seq<u8>, n: int)
    requires
        0 <= n <= a.len(),
        n < b.len(),
        a.take(n) == b.take(n),
        n == a.len() || a[n] < b[n],
    ensures
        lexlt(a, b),
{
    lemma_cpl(a, b);
    let m = cpl(a, b) as int;
    if m < n {
        assert(a.take(n)[m] == a[m]);
        assert(b.take(n)[m] == b[m]);
    } else if m > n {
        assert(a.take(m)[n] == a[n]);
        assert(b.take(m)[n] == b[n]);
    }
}

type Es = Seq<(Seq<u8>, Seq<u8>)>;

spec fn sorted(es: Es) -> bool {
    forall|i: int, j: int| 0 <= i < j < es.len() ==> lexlt(#[trigger] es[i].0, #[trigger] es[j].0)
}

/// an entry that belongs to the tree
spec fn in_tree(t: T, pre: Seq<u8>, e: (Seq<u8>, Seq<u8>)) -> bool {
    pre.is_prefix_of(e.0) && lk(t, e.0.skip(pre.len() as int)) == Some(e.1)
}

/// the key `pre + k` is listed if the tree has the key `k`
spec fn listed(es: Es, t: T, pre: Seq<u8>, k: Seq<u8>) -> bool {
    lk(t, k) is Some ==> es.contains((pre + k, lk(t, k)->0))
}

/// exactly the entries of the tree, with `pre` in front of the keys
spec fn lists(es: Es, t: T, pre: Seq<u8>) -> bool {
    &&& sorted(es)
    &&& forall|i: int| 0 <= i < es.len() ==> in_tree(t, pre, #[trigger] es[i])
    &&& forall|k: Seq<u8>| #[trigger] listed(es, t, pre, k)
}

spec fn in_list(ts: Seq<T>, pre: Seq<u8>, e: (Seq<u8>, Seq<u8>)) -> bool {
    pre.is_prefix_of(e.0) && lkc(ts, e.0.skip(pre.len() as int)) == Some(e.1)
}

spec fn listedc(es: Es, ts: Seq<T>, pre: Seq<u8>, k: Seq<u8>) -> bool {
    lkc(ts, k) is Some ==> es.contains((pre + k, lkc(ts, k)->0))
}

spec fn listsc(es: Es, ts: Seq<T>, pre: Seq<u8>) -> bool {
    &&& sorted(es)
    &&& forall|i: int| 0 <= i < es.len() ==> in_list(ts, pre, #[trigger] es[i])
    &&& forall|k: Seq<u8>| #[trigger] listedc(es, ts, pre, k)
}

/// lookup in a list: in its head or in its tail
proof fn lemma_lkc_head(ts: Seq<T>, k: Seq<u8>)
    requires
        wfc(ts),
        ts.len() > 0,
    ensures
        wfn(ts[0]),
        wfc(ts.skip(1)),
        k.len() > 0 && k[0] == ts[0].p()[0] ==> lkc(ts, k) == lk(ts[0], k) && lkc(ts.skip(1), k) is None,
        !(k.len() > 0 && k[0] == ts[0].p()[0]) ==> lkc(ts, k) == lkc(ts.skip(1), k) && lk(ts[0], k) is None,
        lkc(ts.skip(1), k) is Some ==> k.len() > 0 && k[0] > ts[0].p()[0],
{
    let x = ts.skip(1);
    assert forall|i: int, j: int| 0 <= i < j < x.len() implies (#[trigger] x[i]).p()[0] < (#[trigger] x[j]).p()[0] by {
        assert(ts[i + 1].p()[0] < ts[j + 1].p()[0]);
    }
    assert forall|i: int| 0 <= i < x.len() implies wfn(#[trigger] x[i]) by {
        assert(wfn(ts[i + 1]));
    }
    assert(wfn(ts[0]));
    if k.len() > 0 {
        let b = k[0];
        if hasc(x, b) {
            let i = idx(x, b);
            assert(isc(x, b, i));
            assert(ts[0].p()[0] < ts[i + 1].p()[0]);
            assert(isc(ts, b, i + 1));
            lemma_idx(ts, b, i + 1);
        }
        if b == ts[0].p()[0] {
            assert(isc(ts, b, 0));
            lemma_idx(ts, b, 0);
        } else {
            if hasc(ts, b) {
                let i = idx(ts, b);
                assert(isc(ts, b, i));
                assert(isc(x, b, i - 1));
            }
            if ts[0].p().is_prefix_of(k) {
                assert(k.take(ts[0].p().len() as int)[0] == ts[0].p()[0]);
            }
        }
    } else if ts[0].p().is_prefix_of(k) {
    }
}

proof fn lemma_ents_lists(t: T, pre: Seq<u8>)
    requires
        wfc(t.c()),
    ensures
        lists(ents(t, pre), t, pre),
    decreases t, 1nat,
{
    let q = pre + t.p();
    let cs = entsc(t.c(), q);
    let es = ents(t, pre);
    let hd: Es = match t.v() {
        Some(v) => seq![(q, v)],
        None => Seq::empty(),
    };
    lemma_entsc_lists(t.c(), q);
    assert(es == hd + cs);
    let n = q.len() as int;
    // what the children have
    assert forall|i: int| 0 <= i < cs.len() implies q.is_prefix_of(#[trigger] cs[i].0) && cs[i].0.len() > n && in_tree(t, pre, cs[i]) by {
        let e = cs[i];
        assert(in_list(t.c(), q, e));
        let r = e.0.skip(n);
        assert(e.0 =~= q + r);
        assert(e.0.take(pre.len() as int) =~= pre);
        let k = e.0.skip(pre.len() as int);
        assert(k =~= t.p() + r);
        assert(k.take(t.p().len() as int) =~= t.p());
        assert(k.skip(t.p().len() as int) =~= r);
        assert(lk(t, k) == lkc(t.c(), r));
    }
    assert forall|i: int| 0 <= i < es.len() implies in_tree(t, pre, #[trigger] es[i]) by {
        if i < hd.len() {
            assert(es[i] == (q, t.v()->0));
            assert(q.take(pre.len() as int) =~= pre);
            assert(q.skip(pre.len() as int) =~= t.p());
            assert(t.p().take(t.p().len() as int) =~= t.p());
        } else {
            assert(es[i] == cs[i - hd.len()]);
        }
    }
    assert(sorted(es)) by {
        assert forall|i: int, j: int| 0 <= i < j < es.len() implies lexlt(#[trigger] es[i].0, #[trigger] es[j].0) by {
            assert(es[j] == cs[j - hd.len()]);
            if i < hd.len() {
                assert(es[i].0 == q);
                let y = cs[j - hd.len()];
                assert(q.is_prefix_of(cs[j - hd.len()].0));
                assert(q.take(n) =~= q);
                lemma_lexlt_at(q, y.0, n);
            } else {
                assert(es[i] == cs[i - hd.len()]);
                assert(lexlt(cs[i - hd.len()].0, cs[j - hd.len()].0));
            }
        }
    }
    assert forall|k: Seq<u8>| #[trigger] listed(es, t, pre, k) by {
        if lk(t, k) is Some {
            let r = k.skip(t.p().len() as int);
            assert(k =~= t.p() + r);
            if r.len() == 0 {
                assert(pre + k =~= q);
                assert(es[0] == (pre + k, lk(t, k)->0));
            } else {
                assert(lk(t, k) == lkc(t.c(), r));
                assert(listedc(cs, t.c(), q, r));
                let e = (q + r, lkc(t.c(), r)->0);
                let i = choose|i: int| 0 <= i < cs.len() && cs[i] == e;
                assert(q + r =~= pre + k);
                assert(es[i + hd.len()] == cs[i]);
            }
        }
    }
}

proof fn lemma_entsc_lists(ts: Seq<T>, pre: Seq<u8>)
    requires
        wfc(ts),
    ensures
        listsc(entsc(ts, pre), ts, pre),
    decreases ts, 0nat,
{
    let es = entsc(ts, pre);
    let n = pre.len() as int;
    if ts.len() == 0 {
        assert forall|k: Seq<u8>| #[trigger] listedc(es, ts, pre, k) by {
            assert(ts =~= Seq::empty());
            lemma_lkc_nil(k);
        }
    } else {
        let a = ents(ts[0], pre);
        let b = entsc(ts.skip(1), pre);
        assert(es == a + b);
        lemma_lkc_head(ts, Seq::empty());
        lemma_ents_lists(ts[0], pre);
        lemma_entsc_lists(ts.skip(1), pre);
        assert forall|i: int| 0 <= i < es.len() implies in_list(ts, pre, #[trigger] es[i]) by {
            let k = es[i].0.skip(n);
            lemma_lkc_head(ts, k);
            if i < a.len() {
                assert(in_tree(ts[0], pre, a[i]));
            } else {
                assert(in_list(ts.skip(1), pre, b[i - a.len()]));
            }
        }
        assert(sorted(es)) by {
            assert forall|i: int, j: int| 0 <= i < j < es.len() implies lexlt(#[trigger] es[i].0, #[trigger] es[j].0) by {
                if j < a.len() {
                    assert(lexlt(a[i].0, a[j].0));
                } else if i >= a.len() {
                    assert(lexlt(b[i - a.len()].0, b[j - a.len()].0));
                } else {
                    let x = a[i].0;
                    let y = b[j - a.len()].0;
                    assert(in_tree(ts[0], pre, a[i]));
                    assert(in_list(ts.skip(1), pre, b[j - a.len()]));
                    lemma_lkc_head(ts, x.skip(n));
                    lemma_lkc_head(ts, y.skip(n));
                    assert(x.skip(n)[0] == x[n]);
                    assert(y.skip(n)[0] == y[n]);
                    lemma_lexlt_at(x, y, n);
                }
            }
        }
        assert forall|k: Seq<u8>| #[trigger] listedc(es, ts, pre, k) by {
            lemma_lkc_head(ts, k);
            if lkc(ts, k) is Some {
                let e = (pre + k, lkc(ts, k)->0);
                if k.len() > 0 && k[0] == ts[0].p()[0] {
                    assert(listed(a, ts[0], pre, k));
                    let i = choose|i: int| 0 <= i < a.len() && a[i] == e;
                    assert(es[i] == e);
                } else {
                    assert(listedc(b, ts.skip(1), pre, k));
                    let i = choose|i: int| 0 <= i < b.len() && b[i] == e;
                    assert(es[i + a.len()] == e);
                }
            }
        }
    }
}

// --------------------------------------------------------------------------------------------------------------- scans

/// exactly the entries whose keys start with `p`
spec fn scans(es: Es, t: T, p: Seq<u8>) -> bool {
    &&& sorted(es)
    &&& forall|i: int| 0 <= i < es.len() ==> p.is_prefix_of((#[trigger] es[i]).0) && lk(t, es[i].0) == Some(es[i].1)
    &&& forall|k: Seq<u8>| p.is_prefix_of(k) && #[trigger] lk(t, k) is Some ==> es.contains((k, lk(t, k)->0))
}

/// the end of the key is what has been matched of the node's key fragment
proof fn lemma_ft_tail(t: T, p: Seq<u8>)
    ensures
        match ft(t, p) {
            Ft::Found(x) => x.p().len() <= p.len() && p.skip(p.len() - x.p().len()) == x.p(),
            Ft::Prefix(x, n) => n <= p.len() && n <= x.p().len() && p.skip(p.len() - n) == x.p().take(n as int),
            Ft::NotFound => true,
        },
    decreases t,
{
    let n = cpl(t.p(), p);
    lemma_cpl(t.p(), p);
    if p.len() == n && t.p().len() == n {
        assert(p.skip(0) =~= p);
        assert(p.take(n as int) =~= p);
        assert(t.p().take(n as int) =~= t.p());
    } else if p.len() == n {
        assert(p.skip(0) =~= p);
        assert(p.take(n as int) =~= p);
    } else if t.p().len() == n {
        if hasc(t.c(), p[n as int]) {
            let i = idx(t.c(), p[n as int]);
            assert(isc(t.c(), p[n as int], i));
            let q = p.skip(n as int);
            lemma_ft_tail(t.c()[i], q);
            match ft(t.c()[i], q) {
                Ft::Found(x) => assert(p.skip(p.len() - x.p().len()) =~= q.skip(q.len() - x.p().len())),
                Ft::Prefix(x, m) => assert(p.skip(p.len() - m) =~= q.skip(q.len() - m)),
                Ft::NotFound => {}
            }
        }
    }
}

/// the entries below the node that `find` comes to, with the right part of the key in front
proof fn lemma_scan(t: T, p: Seq<u8>)
    requires
        wf(t),
    ensures
        match ft(t, p) {
            Ft::Found(x) => scans(ents(x, p.take(p.len() - x.p().len())), t, p),
            Ft::Prefix(x, n) => scans(ents(x, p.take(p.len() - n)), t, p),
            Ft::NotFound => scans(Seq::empty(), t, p),
        },
{
    let e = Seq::<u8>::empty();
    lemma_ft_tail(t, p);
    lemma_ft_rest(t, p, e);
    match ft(t, p) {
        Ft::Found(x) => {
            let pre = p.take(p.len() - x.p().len());
            assert(pre + x.p() =~= p);
            assert(p + e =~= p);
            assert(ents(x, pre) == ents(with_p(x, e), p));
            lemma_scan0(t, p, with_p(x, e), p);
        }
        Ft::Prefix(x, n) => {
            let pre = p.take(p.len() - n);
            let b = x.p().skip(n as int);
            assert(pre + x.p() =~= p + b) by {
                assert(x.p() =~= x.p().take(n as int) + b);
            }
            assert(ents(x, pre) == ents(with_p(x, b), p));
            lemma_scan0(t, p, with_p(x, b), p);
        }
        Ft::NotFound => {
            assert forall|k: Seq<u8>| p.is_prefix_of(k) && #[trigger] lk(t, k) is Some implies false by {
                let r = k.skip(p.len() as int);
                assert(k =~= p + r);
                lemma_ft_rest(t, p, r);
            }
        }
    }
}

proof fn lemma_scan0(t: T, p: Seq<u8>, x: T, pre: Seq<u8>)
    requires
        wf(t),
        wfc(x.c()),
        pre == p,
        forall|r: Seq<u8>| #[trigger] lk(x, r) == ft_lk(ft(t, p), r),
    ensures
        scans(ents(x, p), t, p),
{
    let es = ents(x, p);
    lemma_ents_lists(x, p);
    assert forall|i: int| 0 <= i < es.len() implies p.is_prefix_of((#[trigger] es[i]).0) && lk(t, es[i].0) == Some(es[i].1) by {
        assert(in_tree(x, p, es[i]));
        let r = es[i].0.skip(p.len() as int);
        assert(es[i].0 =~= p + r);
        lemma_ft_rest(t, p, r);
    }
    assert forall|k: Seq<u8>| p.is_prefix_of(k) && #[trigger] lk(t, k) is Some implies es.contains((k, lk(t, k)->0)) by {
        let r = k.skip(p.len() as int);
        assert(k =~= p + r);
        lemma_ft_rest(t, p, r);
        assert(listed(es, x, p, r));
    }
}

/// `TreeNodeIter::from_arc(Arc::new(vec![node]))`
fn one_node<S: BlobStore>(node: TreeNode<S>, Ghost(s): Ghost<S>) -> (r: TreeNodeIter<'static, S>)
    requires
        node.inv(),
        node.nw().tight(),
        rep(node.nw(), s),
    ensures
        it_ok(r, s),
        itv(r.rem(), s) == seq![tv(node.nw(), s)],
{
    let v = vec_of(node);
    let r = TreeNodeIter::from_arc(Arc::new(v));
    proof {
        assert(irepr(r.rem(), s, seq![tv(node.nw(), s)]));
    }
    r
}

proof fn lemma_valsc_one(t: T)
    ensures
        valsc(seq![t]) =~= vals(t),
{
    lemma_valsc(t, seq![t]);
    assert(seq![t].skip(1) =~= Seq::empty());
    assert(valsc(Seq::empty()) =~= Seq::empty());
}
