// ---------------------------------------------------------------------------------------------------------------
// There is only one tree for a given content
// ---------------------------------------------------------------------------------------------------------------

/// some key of a tree that is not empty
proof fn lemma_any_key(t: T) -> (k: Seq<u8>)
    requires
        wf(t),
        t != t_empty(),
    ensures
        lk(t, k) is Some,
        t.p().is_prefix_of(k),
    decreases t,
{
    if t.v() is Some {
        let k = t.p();
        assert(k.take(k.len() as int) =~= k);
        k
    } else {
        if t.c().len() == 0 {
            assert(t.p() =~= Seq::empty());
            assert(t.c() =~= Seq::empty());
        }
        lemma_key_below(t, 0)
    }
}

/// some key below a child
proof fn lemma_key_below(t: T, i: int) -> (k: Seq<u8>)
    requires
        wfc(t.c()),
        0 <= i < t.c().len(),
    ensures
        lk(t, k) is Some,
        t.p().is_prefix_of(k),
        k.len() > t.p().len(),
        k[t.p().len() as int] == t.c()[i].p()[0],
    decreases t, 0int,
{
    let c = t.c()[i];
    assert(wfn(c));
    let r = lemma_any_key(c);
    let k = t.p() + r;
    assert(r[0] == c.p()[0]) by {
        assert(r.take(c.p().len() as int)[0] == c.p()[0]);
    }
    assert(isc(t.c(), r[0], i));
    lemma_idx(t.c(), r[0], i);
    assert(k.take(t.p().len() as int) =~= t.p());
    assert(k.skip(t.p().len() as int) =~= r);
    k
}

/// what all keys have in common is the key fragment of the root
proof fn lemma_common(t: T, q: Seq<u8>)
    requires
        compressed(),
        wf(t),
        t != t_empty(),
        forall|k: Seq<u8>| #[trigger] lk(t, k) is Some ==> q.is_prefix_of(k),
    ensures
        q.is_prefix_of(t.p()),
{
    let n = t.p().len() as int;
    if t.v() is Some {
        assert(t.p().take(n) =~= t.p());
        assert(lk(t, t.p()) is Some);
    } else {
        if t.c().len() == 0 {
            assert(t.p() =~= Seq::empty());
            assert(t.c() =~= Seq::empty());
        }
        let a = lemma_key_below(t, 0);
        let b = lemma_key_below(t, 1);
        assert(wfn(t.c()[0]) && wfn(t.c()[1]));
        if q.len() > n {
            assert(a.take(q.len() as int)[n] == a[n]);
            assert(b.take(q.len() as int)[n] == b[n]);
        } else {
            assert(a.take(q.len() as int) =~= a.take(n).take(q.len() as int));
        }
    }
}

/// two trees with the same entries are equal
proof fn lemma_unique(a: T, b: T)
    requires
        compressed(),
        wf(a),
        wf(b),
        forall|k: Seq<u8>| #[trigger] lk(a, k) == lk(b, k),
    ensures
        a == b,
    decreases a, 1nat,
{
    if a == t_empty() || b == t_empty() {
        if a != t_empty() {
            let k = lemma_any_key(a);
            lemma_t_empty_lk(k);
            assert(lk(a, k) == lk(b, k));
        }
        if b != t_empty() {
            let k = lemma_any_key(b);
            lemma_t_empty_lk(k);
            assert(lk(a, k) == lk(b, k));
        }
    } else {
        assert forall|k: Seq<u8>| #[trigger] lk(a, k) is Some implies b.p().is_prefix_of(k) by {
            assert(lk(a, k) == lk(b, k));
        }
        lemma_common(a, b.p());
        assert forall|k: Seq<u8>| #[trigger] lk(b, k) is Some implies a.p().is_prefix_of(k) by {
            assert(lk(a, k) == lk(b, k));
        }
        lemma_common(b, a.p());
        let p = a.p();
        assert(a.p() =~= b.p());
        assert(p.take(p.len() as int) =~= p);
        assert(lk(a, p) == lk(b, p));
        assert(lk(a, p) == a.v() && lk(b, p) == b.v());
        assert forall|k: Seq<u8>| #[trigger] lkc(a.c(), k) == lkc(b.c(), k) by {
            if k.len() > 0 {
                let x = p + k;
                assert(x.take(p.len() as int) =~= p);
                assert(x.skip(p.len() as int) =~= k);
                assert(lk(a, x) == lk(b, x));
            }
        }
        lemma_unique_list(a.c(), b.c());
    }
}

proof fn lemma_unique_list(x: Seq<T>, y: Seq<T>)
    requires
        compressed(),
        wfc(x),
        wfc(y),
        forall|k: Seq<u8>| #[trigger] lkc(x, k) == lkc(y, k),
    ensures
        x == y,
    decreases x, 0nat,
{
    if x.len() == 0 || y.len() == 0 {
        if x.len() > 0 {
            lemma_list_key(x);
            let k = choose|k: Seq<u8>| #[trigger] lkc(x, k) is Some && k.len() > 0 && k[0] == x[0].p()[0];
            assert(y =~= Seq::empty());
            lemma_lkc_nil(k);
            assert(lkc(x, k) == lkc(y, k));
        }
        if y.len() > 0 {
            lemma_list_key(y);
            let k = choose|k: Seq<u8>| #[trigger] lkc(y, k) is Some && k.len() > 0 && k[0] == y[0].p()[0];
            assert(x =~= Seq::empty());
            lemma_lkc_nil(k);
            assert(lkc(x, k) == lkc(y, k));
        }
        assert(x =~= y);
    } else {
        lemma_list_key(x);
        lemma_list_key(y);
        let kx = choose|k: Seq<u8>| #[trigger] lkc(x, k) is Some && k.len() > 0 && k[0] == x[0].p()[0];
        let ky = choose|k: Seq<u8>| #[trigger] lkc(y, k) is Some && k.len() > 0 && k[0] == y[0].p()[0];
        assert(lkc(x, kx) == lkc(y, kx));
        assert(lkc(x, ky) == lkc(y, ky));
        lemma_lkc_head(y, kx);
        lemma_lkc_head(x, ky);
        assert(x[0].p()[0] == y[0].p()[0]);
        assert forall|k: Seq<u8>| #[trigger] lk(x[0], k) == lk(y[0], k) by {
            lemma_lkc_head(x, k);
            lemma_lkc_head(y, k);
            assert(lkc(x, k) == lkc(y, k));
        }
        lemma_unique(x[0], y[0]);
        assert forall|k: Seq<u8>| #[trigger] lkc(x.skip(1), k) == lkc(y.skip(1), k) by {
            lemma_lkc_head(x, k);
            lemma_lkc_head(y, k);
            assert(lkc(x, k) == lkc(y, k));
        }
        lemma_unique_list(x.skip(1), y.skip(1));
        assert(x =~= seq![x[0]] + x.skip(1));
        assert(y =~= seq![y[0]] + y.skip(1));
    }
}

proof fn lemma_list_key(x: Seq<T>)
    requires
        wfc(x),
        x.len() > 0,
    ensures
        exists|k: Seq<u8>| #[trigger] lkc(x, k) is Some && k.len() > 0 && k[0] == x[0].p()[0],
        wfn(x[0]),
        wfc(x.skip(1)),
{
    lemma_lkc_head(x, Seq::empty());
    let k = lemma_any_key(x[0]);
    assert(k.take(x[0].p().len() as int)[0] == x[0].p()[0]);
    lemma_lkc_head(x, k);
}

/// the standard comparison of two lists of nodes
spec fn deq(a: TreeNode<Detached>, b: TreeNode<Detached>) -> bool {
    tv(a.nw(), Detached) == tv(b.nw(), Detached)
}

/// `==` of `Result<&Arc<Vec<TreeNode>>, &[u8]>` as the standard library defines it: same variant, same ids or the same
/// number of nodes, equal one by one
fn eq_children(
    a: Result<&Arc<Vec<TreeNode<Detached>>>, &[u8]>,
    b: Result<&Arc<Vec<TreeNode<Detached>>>, &[u8]>,
    Ghost(x): Ghost<Seq<T>>,
    Ghost(y): Ghost<Seq<T>>,
) -> (r: bool)
    requires
        match a {
            Ok(v) => v@.len() > 0 && drepr(v@, Detached, x),
            Err(id) => id@.len() == 0 && x.len() == 0,
        },
        match b {
            Ok(v) => v@.len() > 0 && drepr(v@, Detached, y),
            Err(id) => id@.len() == 0 && y.len() == 0,
        },
    ensures
        r == (x == y),
    decreases x, 0nat,
{
    match (a, b) {
        (Ok(v), Ok(w)) => {
            if v.len() != w.len() {
                return false;
            }
            let mut i = 0usize;
            while i < v.len()
                invariant
                    0 <= i <= v@.len(),
                    v@.len() == w@.len(),
                    drepr(v@, Detached, x),
                    drepr(w@, Detached, y),
                    forall|j: int| 0 <= j < i ==> x[j] == y[j],
                decreases v@.len() - i,
            {
                assert(v@[i as int].inv());
                assert(w@[i as int].inv());
                assert(repr(v@[i as int].nw(), Detached, x[i as int]));
                assert(repr(w@[i as int].nw(), Detached, y[i as int]));
                if !v[i].eq(&w[i]) {
                    return false;
                }
                i = i + 1;
            }
            assert(x =~= y);
            true
        },
        (Err(a), Err(b)) => {
            assert(x =~= y);
            true
        },
        (Ok(v), Err(_)) => false,
        (Err(_), Ok(w)) => false,
    }
}
