// ---------------------------------------------------------------------------------------------------------------
// Lookup
// ---------------------------------------------------------------------------------------------------------------

/// where a search for a key ends
ghost enum Ft {
    Found(T),
    Prefix(T, nat),
    NotFound,
}

spec fn ft(t: T, k: Seq<u8>) -> Ft
    decreases t,
{
    let n = cpl(t.p(), k);
    if k.len() == n && t.p().len() == n {
        Ft::Found(t)
    } else if k.len() == n {
        Ft::Prefix(t, n)
    } else if t.p().len() == n {
        if hasc(t.c(), k[n as int]) {
            ft(t.c()[idx(t.c(), k[n as int])], k.skip(n as int))
        } else {
            Ft::NotFound
        }
    } else {
        Ft::NotFound
    }
}

/// what is handed to the continuation of `find`
spec fn fr_ok<S: BlobStore>(fr: FindResult<&TreeNodeRef<S>>, s: S, t: T, k: Seq<u8>) -> bool {
    match fr {
        FindResult::Found(x) => ft(t, k) is Found && x.inv() && x.nw().tight() && repr(x.nw(), s, ft(t, k)->Found_0),
        FindResult::Prefix { tree, matching } => ft(t, k) is Prefix && x_prefix(tree, s, ft(t, k)->Prefix_0) && matching == ft(t, k)->Prefix_1,
        FindResult::NotFound => ft(t, k) is NotFound,
    }
}

spec fn x_prefix<S: BlobStore>(x: &TreeNodeRef<S>, s: S, t: T) -> bool {
    x.inv() && x.nw().tight() && repr(x.nw(), s, t)
}

/// the value that a possibly stored value stands for
spec fn vrep<S: BlobStore>(v: Option<Value<S>>, s: S) -> Option<Seq<u8>> {
    match v {
        Some(x) => rv(s, x.vv()),
        None => None,
    }
}

/// a value that was handed out: usable, and it is a value
spec fn vok<S: BlobStore>(v: Option<Value<S>>, s: S) -> bool {
    v is Some ==> v->0.inv() && !v->0.vv().none() && (v->0.vv() is Id ==> s.readable())
}

/// a usable tree: represents something in normal form
spec fn good<S: BlobStore>(n: NV<S>, s: S) -> bool {
    rep(n, s) && n.tight() && wf(tv(n, s))
}

spec fn hasp(t: T, p: Seq<u8>) -> bool {
    exists|k: Seq<u8>| p.is_prefix_of(k) && lk(t, k) is Some
}

/// the first place where two sequences differ (or the end of the shorter one) is unique
proof fn lemma_cpl_is<A>(a: Seq<A>, b: Seq<A>, n: nat)
    requires
        n <= a.len(),
        n <= b.len(),
        forall|i: int| 0 <= i < n ==> a[i] == b[i],
        n < a.len() && n < b.len() ==> a[n as int] != b[n as int],
    ensures
        cpl(a, b) == n,
    decreases n,
{
    if n > 0 {
        assert(a[0] == b[0]);
        assert forall|i: int| 0 <= i < n - 1 implies a.skip(1)[i] == b.skip(1)[i] by { assert(a[i + 1] == b[i + 1]); }
        lemma_cpl_is(a.skip(1), b.skip(1), (n - 1) as nat);
    }
}

proof fn lemma_cpl<A>(a: Seq<A>, b: Seq<A>)
    ensures
        cpl(a, b) <= a.len(),
        cpl(a, b) <= b.len(),
        a.take(cpl(a, b) as int) == b.take(cpl(a, b) as int),
        cpl(a, b) < a.len() && cpl(a, b) < b.len() ==> a[cpl(a, b) as int] != b[cpl(a, b) as int],
        cpl(a, b) == a.len() <==> a.is_prefix_of(b),
        cpl(a, b) == b.len() <==> b.is_prefix_of(a),
        cpl(a, b) == cpl(b, a),
    decreases a.len(),
{
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] {
        assert(a.take(0) =~= b.take(0));
        if a.is_prefix_of(b) && a.len() > 0 && b.len() > 0 {
            assert(a[0] == b.take(a.len() as int)[0]);
        }
        if b.is_prefix_of(a) && a.len() > 0 && b.len() > 0 {
            assert(b[0] == a.take(b.len() as int)[0]);
        }
    } else {
        let x = a.skip(1);
        let y = b.skip(1);
        lemma_cpl(x, y);
        let n = cpl(x, y) as int;
        assert(a.take(n + 1) =~= seq![a[0]] + x.take(n));
        assert(b.take(n + 1) =~= seq![b[0]] + y.take(n));
        if x.is_prefix_of(y) {
            assert(a.is_prefix_of(b)) by {
                assert(a =~= seq![a[0]] + x);
                assert(b.take(a.len() as int) =~= seq![b[0]] + y.take(x.len() as int));
            }
        }
        if a.is_prefix_of(b) {
            assert(x =~= y.take(x.len() as int)) by {
                assert(a == b.take(a.len() as int));
                assert forall|i: int| 0 <= i < x.len() implies x[i] == y[i] by {
                    assert(a[i + 1] == b.take(a.len() as int)[i + 1]);
                }
            }
        }
        if y.is_prefix_of(x) {
            assert(b.is_prefix_of(a)) by {
                assert(b =~= seq![b[0]] + y);
                assert(a.take(b.len() as int) =~= seq![a[0]] + x.take(y.len() as int));
            }
        }
        if b.is_prefix_of(a) {
            assert(y =~= x.take(y.len() as int)) by {
                assert forall|i: int| 0 <= i < y.len() implies x[i] == y[i] by {
                    assert(b[i + 1] == a.take(b.len() as int)[i + 1]);
                }
            }
        }
    }
}

/// the search finds the value
proof fn lemma_ft_lk(t: T, k: Seq<u8>)
    ensures
        lk(t, k) == (match ft(t, k) {
            Ft::Found(x) => x.v(),
            _ => None,
        }),
    decreases t,
{
    let n = cpl(t.p(), k);
    lemma_cpl(t.p(), k);
    if k.len() == n && t.p().len() == n {
    } else if k.len() == n {
    } else if t.p().len() == n {
        if hasc(t.c(), k[n as int]) {
            assert(isc(t.c(), k[n as int], idx(t.c(), k[n as int])));
            lemma_ft_lk(t.c()[idx(t.c(), k[n as int])], k.skip(n as int));
        }
    }
}

/// every canonical subtree has a key
proof fn lemma_some_key(t: T) -> (k: Seq<u8>)
    requires
        wfn(t),
    ensures
        lk(t, k) is Some,
    decreases t,
{
    if t.v() is Some {
        assert(t.p().skip(t.p().len() as int).len() == 0);
        assert(t.p().is_prefix_of(t.p()));
        t.p()
    } else {
        let c = t.c()[0];
        assert(wfn(c));
        let r = lemma_some_key(c);
        let k = t.p() + r;
        assert(k.skip(t.p().len() as int) =~= r);
        lemma_lk_child(t, k, 0);
        k
    }
}

/// lookup below a child
proof fn lemma_lk_child(t: T, k: Seq<u8>, i: int)
    requires
        wfc(t.c()),
        0 <= i < t.c().len(),
        t.p().is_prefix_of(k),
        lk(t.c()[i], k.skip(t.p().len() as int)) is Some,
    ensures
        lk(t, k) == lk(t.c()[i], k.skip(t.p().len() as int)),
{
    let r = k.skip(t.p().len() as int);
    let c = t.c()[i];
    assert(wfn(c));
    assert(c.p().is_prefix_of(r));
    assert(c.p()[0] == r[0]);
    assert(isc(t.c(), r[0], i));
    lemma_idx(t.c(), r[0], i);
}

proof fn lemma_key_prefix(t: T, k: Seq<u8>)
    ensures
        lk(t, k) is Some ==> t.p().is_prefix_of(k),
{
}

proof fn lemma_ft_hasp(t: T, p: Seq<u8>)
    requires
        wfc(t.c()),
        wfn(t) || t.v() is Some || t.c().len() >= 1,
    ensures
        hasp(t, p) == !(ft(t, p) is NotFound),
    decreases t,
{
    let n = cpl(t.p(), p);
    lemma_cpl(t.p(), p);
    if p.len() == n {
        // some key of t
        let k = if t.v() is Some {
            t.p()
        } else {
            let c = t.c()[0];
            assert(wfn(c));
            let r = lemma_some_key(c);
            let k = t.p() + r;
            assert(k.skip(t.p().len() as int) =~= r);
            lemma_lk_child(t, k, 0);
            k
        };
        assert(t.p().skip(t.p().len() as int).len() == 0);
        assert(p.is_prefix_of(k)) by {
            assert(p.is_prefix_of(t.p()));
            assert(k.take(p.len() as int) =~= t.p().take(p.len() as int));
        }
        assert(lk(t, k) is Some);
    } else if t.p().len() == n {
        let r = p.skip(n as int);
        if hasc(t.c(), p[n as int]) {
            let i = idx(t.c(), p[n as int]);
            assert(isc(t.c(), p[n as int], i));
            assert(wfn(t.c()[i]));
            lemma_ft_hasp(t.c()[i], r);
            if hasp(t.c()[i], r) {
                let q = choose|k: Seq<u8>| r.is_prefix_of(k) && lk(t.c()[i], k) is Some;
                let k = t.p() + q;
                assert(k.skip(t.p().len() as int) =~= q);
                lemma_lk_child(t, k, i);
                assert(p =~= t.p() + r);
                assert(p.is_prefix_of(k)) by {
                    assert(k.take(p.len() as int) =~= t.p() + q.take(r.len() as int));
                }
            }
            if hasp(t, p) {
                let k = choose|k: Seq<u8>| p.is_prefix_of(k) && lk(t, k) is Some;
                let q = k.skip(n as int);
                assert(k[n as int] == p[n as int]) by {
                    assert(k.take(p.len() as int)[n as int] == p[n as int]);
                }
                assert(r.is_prefix_of(q)) by {
                    assert(q.take(r.len() as int) =~= k.take(p.len() as int).skip(n as int));
                }
                assert(lk(t.c()[i], q) is Some);
            }
        } else if hasp(t, p) {
            let k = choose|k: Seq<u8>| p.is_prefix_of(k) && lk(t, k) is Some;
            assert(k[n as int] == p[n as int]) by {
                assert(k.take(p.len() as int)[n as int] == p[n as int]);
            }
        }
    } else if hasp(t, p) {
        let k = choose|k: Seq<u8>| p.is_prefix_of(k) && lk(t, k) is Some;
        assert(k[n as int] == p[n as int]) by {
            assert(k.take(p.len() as int)[n as int] == p[n as int]);
        }
        assert(k[n as int] == t.p()[n as int]) by {
            assert(k.take(t.p().len() as int)[n as int] == t.p()[n as int]);
        }
    }
}

/// the empty tree has no keys
proof fn lemma_hasp_empty(t: T, p: Seq<u8>)
    requires
        t.v() is None,
        t.c().len() == 0,
    ensures
        !hasp(t, p),
{
    assert forall|k: Seq<u8>| lk(t, k) is None by {}
}

// --------------------------------------------------------------------------------------------------------------- entries

/// the entries of a tree in order
spec fn ents(t: T, pre: Seq<u8>) -> Seq<(Seq<u8>, Seq<u8>)>
    decreases t, 1nat,
{
    (match t.v() {
        Some(v) => seq![(pre + t.p(), v)],
        None => Seq::empty(),
    }) + entsc(t.c(), pre + t.p())
}

spec fn entsc(ts: Seq<T>, pre: Seq<u8>) -> Seq<(Seq<u8>, Seq<u8>)>
    decreases ts, 0nat,
{
    if ts.len() == 0 {
        Seq::empty()
    } else {
        ents(ts[0], pre) + entsc(ts.skip(1), pre)
    }
}

/// its values in order
spec fn vals(t: T) -> Seq<Seq<u8>> {
    ents(t, Seq::empty()).map_values(|e: (Seq<u8>, Seq<u8>)| e.1)
}

proof fn lemma_ents_nonempty(t: T, pre: Seq<u8>)
    requires
        wfn(t),
    ensures
        ents(t, pre).len() > 0,
    decreases t,
{
    if t.v() is None {
        assert(wfn(t.c()[0]));
        lemma_ents_nonempty(t.c()[0], pre + t.p());
    }
}

/// the values do not depend on the prefix
proof fn lemma_ents_pre(t: T, a: Seq<u8>, b: Seq<u8>)
    ensures
        ents(t, a).len() == ents(t, b).len(),
        forall|i: int| 0 <= i < ents(t, a).len() ==> (#[trigger] ents(t, a)[i]).1 == ents(t, b)[i].1,
    decreases t, 1nat,
{
    lemma_entsc_pre(t.c(), a + t.p(), b + t.p());
}

proof fn lemma_entsc_pre(ts: Seq<T>, a: Seq<u8>, b: Seq<u8>)
    ensures
        entsc(ts, a).len() == entsc(ts, b).len(),
        forall|i: int| 0 <= i < entsc(ts, a).len() ==> (#[trigger] entsc(ts, a)[i]).1 == entsc(ts, b)[i].1,
    decreases ts, 0nat,
{
    if ts.len() > 0 {
        lemma_ents_pre(ts[0], a, b);
        lemma_entsc_pre(ts.skip(1), a, b);
    }
}

/// the entries of the last child come last
proof fn lemma_entsc_last(ts: Seq<T>, pre: Seq<u8>)
    requires
        ts.len() > 0,
        ents(ts.last(), pre).len() > 0,
    ensures
        entsc(ts, pre).len() > 0,
        entsc(ts, pre).last() == ents(ts.last(), pre).last(),
    decreases ts.len(),
{
    let x = ts.skip(1);
    if ts.len() == 1 {
        assert(entsc(x, pre).len() == 0);
        assert(entsc(ts, pre) =~= ents(ts[0], pre));
    } else {
        assert(x.last() == ts.last());
        lemma_entsc_last(x, pre);
    }
}

spec fn is_first_value(v: Option<Seq<u8>>, t: T) -> bool {
    match v {
        Some(x) => vals(t).len() > 0 && vals(t)[0] == x,
        None => vals(t).len() == 0,
    }
}

spec fn is_last_value(v: Option<Seq<u8>>, t: T) -> bool {
    match v {
        Some(x) => vals(t).len() > 0 && vals(t).last() == x,
        None => vals(t).len() == 0,
    }
}

spec fn is_first_entry(v: Option<(Seq<u8>, Option<Seq<u8>>)>, t: T, pre: Seq<u8>) -> bool {
    match v {
        Some(x) => ents(t, pre).len() > 0 && ents(t, pre)[0].0 == x.0 && x.1 == Some(ents(t, pre)[0].1),
        None => ents(t, pre).len() == 0,
    }
}

spec fn is_last_entry(v: Option<(Seq<u8>, Option<Seq<u8>>)>, t: T, pre: Seq<u8>) -> bool {
    match v {
        Some(x) => ents(t, pre).len() > 0 && ents(t, pre).last().0 == x.0 && x.1 == Some(ents(t, pre).last().1),
        None => ents(t, pre).len() == 0,
    }
}

spec fn erep<S: BlobStore>(v: Option<(Vec<u8>, Value<S>)>, s: S) -> Option<(Seq<u8>, Option<Seq<u8>>)> {
    match v {
        Some(x) => Some((x.0@, rv(s, x.1.vv()))),
        None => None,
    }
}

spec fn eok<S: BlobStore>(v: Option<(Vec<u8>, Value<S>)>, s: S) -> bool {
    v is Some ==> (v->0).1.inv() && !(v->0).1.vv().none() && ((v->0).1.vv() is Id ==> s.readable())
}

/// first and last of a node whose children are in normal form
proof fn lemma_ends(t: T, pre: Seq<u8>)
    requires
        wfc(t.c()),
    ensures
        t.v() is Some ==> ents(t, pre).len() > 0 && ents(t, pre)[0] == (pre + t.p(), t.v()->0),
        t.c().len() > 0 ==> wfn(t.c()[0]) && wfn(t.c().last()) && ents(t, pre).len() > 0 && ents(t.c()[0], pre + t.p()).len() > 0 && ents(
            t.c().last(),
            pre + t.p(),
        ).len() > 0 && ents(t, pre).last() == ents(t.c().last(), pre + t.p()).last(),
        t.v() is None && t.c().len() > 0 ==> ents(t, pre)[0] == ents(t.c()[0], pre + t.p())[0],
        t.c().len() == 0 ==> ents(t, pre) =~= (match t.v() {
            Some(v) => seq![(pre + t.p(), v)],
            None => Seq::empty(),
        }),
{
    if t.c().len() > 0 {
        lemma_ents_nonempty(t.c()[0], pre + t.p());
        lemma_ents_nonempty(t.c().last(), pre + t.p());
        lemma_entsc_last(t.c(), pre + t.p());
    }
}

proof fn lemma_vals(t: T)
    requires
        wfc(t.c()),
    ensures
        t.v() is Some ==> vals(t).len() > 0 && vals(t)[0] == t.v()->0,
        t.c().len() > 0 ==> wfn(t.c()[0]) && wfn(t.c().last()) && vals(t).len() > 0 && vals(t.c()[0]).len() > 0 && vals(t.c().last()).len() > 0
            && vals(t).last() == vals(t.c().last()).last(),
        t.v() is None && t.c().len() > 0 ==> vals(t)[0] == vals(t.c()[0])[0],
        t.c().len() == 0 ==> vals(t) =~= (match t.v() {
            Some(v) => seq![v],
            None => Seq::empty(),
        }),
{
    let e = Seq::<u8>::empty();
    lemma_ends(t, e);
    if t.c().len() > 0 {
        lemma_ents_pre(t.c()[0], e + t.p(), e);
        lemma_ents_pre(t.c().last(), e + t.p(), e);
    }
}
