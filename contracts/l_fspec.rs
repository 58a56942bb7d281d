// ---------------------------------------------------------------------------------------------------------------
// Prefix scans: the keys of the subtree below a prefix
// ---------------------------------------------------------------------------------------------------------------

/// a longer or shorter key fragment in front of a node
proof fn lemma_lk_shift(t: T, a: Seq<u8>, b: Seq<u8>, k: Seq<u8>)
    ensures
        lk(with_p(t, a + b), k) == (if a.is_prefix_of(k) {
            lk(with_p(t, b), k.skip(a.len() as int))
        } else {
            None
        }),
{
    let n = a.len() as int;
    let u = with_p(t, a + b);
    let w = with_p(t, b);
    if a.is_prefix_of(k) {
        let q = k.skip(n);
        if (a + b).is_prefix_of(k) {
            assert(q.take(b.len() as int) =~= (a + b).skip(n));
            assert(b =~= (a + b).skip(n));
            assert(q.skip(b.len() as int) =~= k.skip((a + b).len() as int));
        } else if b.is_prefix_of(q) {
            assert(k.take((a + b).len() as int) =~= a + b);
        }
    } else if (a + b).is_prefix_of(k) {
        assert(k.take(n) =~= (a + b).take(n));
        assert((a + b).take(n) =~= a);
    }
}

/// what follows the key `p` below the node that `find` comes to
spec fn ft_lk(f: Ft, r: Seq<u8>) -> Option<Seq<u8>> {
    match f {
        Ft::Found(x) => lk(with_p(x, Seq::empty()), r),
        Ft::Prefix(x, n) => lk(with_p(x, x.p().skip(n as int)), r),
        Ft::NotFound => None,
    }
}

proof fn lemma_with_p_id(t: T)
    ensures
        with_p(t, t.p()) == t,
{
}

proof fn lemma_ft_rest(t: T, p: Seq<u8>, r: Seq<u8>)
    requires
        wf(t) || wfn(t),
    ensures
        lk(t, p + r) == ft_lk(ft(t, p), r),
        ft(t, p) is Found ==> wfc(ft(t, p)->Found_0.c()),
        ft(t, p) is Prefix ==> wfc(ft(t, p)->Prefix_0.c()) && ft(t, p)->Prefix_1 <= ft(t, p)->Prefix_0.p().len() && (ft(t, p)->Prefix_0.v() is Some || ft(t, p)->Prefix_0.c().len() >= least()),
    decreases t,
{
    let n = cpl(t.p(), p);
    lemma_cpl(t.p(), p);
    lemma_with_p_id(t);
    if p.len() == n && t.p().len() == n {
        assert(p =~= t.p());
        assert(p + Seq::<u8>::empty() =~= p);
        lemma_lk_shift(t, p, Seq::empty(), p + r);
        assert((p + r).skip(p.len() as int) =~= r);
        assert((p + r).take(p.len() as int) =~= p);
    } else if p.len() == n {
        let b = t.p().skip(n as int);
        assert(p + b =~= t.p());
        lemma_lk_shift(t, p, b, p + r);
        assert((p + r).skip(p.len() as int) =~= r);
        assert((p + r).take(p.len() as int) =~= p);
    } else if t.p().len() == n {
        let k = p + r;
        assert(k.skip(n as int) =~= p.skip(n as int) + r);
        assert(k.take(n as int) =~= p.take(n as int));
        assert(t.p().is_prefix_of(k));
        assert(k.skip(n as int)[0] == p[n as int]);
        if hasc(t.c(), p[n as int]) {
            let i = idx(t.c(), p[n as int]);
            assert(isc(t.c(), p[n as int], i));
            assert(wfn(t.c()[i]));
            lemma_ft_rest(t.c()[i], p.skip(n as int), r);
        }
    } else {
        let k = p + r;
        if t.p().is_prefix_of(k) {
            assert(k.take(t.p().len() as int)[n as int] == t.p()[n as int]);
            assert(k[n as int] == p[n as int]);
        }
    }
}

/// the subtree below `p`, with `p` replaced by `sub`, has exactly the entries of the tree whose keys start with `p`
proof fn lemma_filt(t: T, p: Seq<u8>, sub: Seq<u8>)
    requires
        wf(t),
    ensures
        wf(filt(t, p, sub)),
        forall|k: Seq<u8>| #[trigger] lk(filt(t, p, sub), k) == (if sub.is_prefix_of(k) {
            lk(t, p + k.skip(sub.len() as int))
        } else {
            None
        }),
{
    lemma_ft_rest(t, p, sub);
    match ft(t, p) {
        Ft::Found(x) => lemma_canon(with_p(x, sub)),
        Ft::Prefix(x, n) => {}
        Ft::NotFound => { assert(wfc(Seq::<T>::empty())); }
    }
    assert forall|k: Seq<u8>| #[trigger] lk(filt(t, p, sub), k) == (if sub.is_prefix_of(k) {
        lk(t, p + k.skip(sub.len() as int))
    } else {
        None
    }) by {
        assert(wfc(t.c()));
        let r = k.skip(sub.len() as int);
        lemma_ft_rest(t, p, r);
        match ft(t, p) {
            Ft::Found(x) => {
                lemma_canon(with_p(x, sub));
                assert(sub + Seq::<u8>::empty() =~= sub);
                lemma_lk_shift(x, sub, Seq::empty(), k);
            }
            Ft::Prefix(x, n) => {
                lemma_lk_shift(x, sub, x.p().skip(n as int), k);
            }
            Ft::NotFound => {
                lemma_t_empty_lk(k);
            }
        }
    }
}

proof fn lemma_t_empty_lk(k: Seq<u8>)
    ensures
        lk(t_empty(), k) is None,
{
    let q = k.skip(0);
    lemma_lkc_nil(q);
    assert(lk(t_empty(), k) == lkc(t_empty().c(), q) || q.len() == 0);
}
