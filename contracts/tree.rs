// ---------------------------------------------------------------------------------------------------------------
// The abstract tree, and what it means for a node (in memory or encoded in a store) to represent it
// ---------------------------------------------------------------------------------------------------------------

/// key fragment, value, children
ghost enum T {
    Node { p: Seq<u8>, v: Option<Seq<u8>>, c: Seq<T> },
}

impl T {
    spec fn p(self) -> Seq<u8> {
        self->p
    }

    spec fn v(self) -> Option<Seq<u8>> {
        self->v
    }

    spec fn c(self) -> Seq<T> {
        self->c
    }
}

/// a node as it is stored, owned or borrowed
#[verifier::ext_equal]
ghost struct NV<S> {
    p: Raw,
    v: Raw,
    c: Ch<S>,
}

impl<S> NV<S> {
    /// the first byte of the key fragment
    spec fn first(self) -> Option<u8> {
        if self.p.bytes().len() > 0 {
            Some(self.p.bytes()[0])
        } else {
            None
        }
    }

    /// a node without children has no child list
    spec fn tight(self) -> bool {
        self.c is Data ==> self.c->Data_0.len() > 0
    }
}

impl<S> TreeNode<S> {
    spec fn nw(self) -> NV<S> {
        NV { p: self.np(), v: self.nv(), c: self.nc() }
    }
}

/// decoding of one node at the start of a buffer; also the number of bytes it takes
spec fn pn<S>(b: Seq<u8>) -> Option<(NV<S>, nat)> {
    if b.len() == 0 {
        None
    } else {
        let h1 = Header(b[0]);
        let o1 = 1 + hlen(h1) as int;
        if b.len() <= o1 || hnone(h1) {
            None
        } else {
            let h2 = Header(b[o1]);
            let o2 = o1 + 1 + hlen(h2) as int;
            if b.len() <= o2 {
                None
            } else {
                let h3 = Header(b[o2]);
                let o3 = o2 + 1 + hlen(h3) as int;
                if b.len() < o3 || !hid(h3) {
                    None
                } else {
                    Some(
                        (
                            NV {
                                p: raw_of(h1, b.subrange(1, o1)),
                                v: raw_of(h2, b.subrange(o1 + 1, o2)),
                                c: Ch::Id(b.subrange(o2 + 1, o3)),
                            },
                            o3 as nat,
                        ),
                    )
                }
            }
        }
    }
}

/// `n` represents the tree `t` in the store `s`
spec fn repr<S: BlobStore>(n: NV<S>, s: S, t: T) -> bool
    decreases t, 1nat,
{
    &&& rp(s, n.p) == t.p()
    &&& n.p is Id ==> s.readable() && n.p->Id_0.len() > 0 && t.p().len() > 0 && n.p->Id_0[0] == t.p()[0]
    &&& rv(s, n.v) == t.v()
    &&& n.v is Id && !n.v.none() ==> s.readable()
    &&& crepr(n.c, s, t.c())
}

spec fn crepr<S: BlobStore>(c: Ch<S>, s: S, ts: Seq<T>) -> bool
    decreases ts, 1nat,
{
    match c {
        Ch::Data(v) => drepr(v, s, ts),
        Ch::Id(id) => if id.len() == 0 {
            ts.len() == 0
        } else {
            s.readable() && ts.len() > 0 && brepr(s.blob(id.skip(1)), s, ts)
        },
    }
}

spec fn drepr<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, ts: Seq<T>) -> bool
    decreases ts, 0nat,
{
    &&& v.len() == ts.len()
    &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] v[i]).inv() && v[i].nw().tight() && repr(v[i].nw(), s, ts[i])
}

spec fn brepr<S: BlobStore>(b: Seq<u8>, s: S, ts: Seq<T>) -> bool
    decreases ts, 0nat,
{
    if ts.len() == 0 {
        b.len() == 0
    } else {
        match pn::<S>(b) {
            None => false,
            Some(x) => repr(x.0, s, ts[0]) && brepr(b.skip(x.1 as int), s, ts.skip(1)),
        }
    }
}

/// the tree represented by a node
spec fn rep<S: BlobStore>(n: NV<S>, s: S) -> bool {
    exists|t: T| repr(n, s, t)
}

spec fn tv<S: BlobStore>(n: NV<S>, s: S) -> T {
    choose|t: T| repr(n, s, t)
}

proof fn lemma_repr_unique<S: BlobStore>(n: NV<S>, s: S, a: T, b: T)
    requires
        repr(n, s, a),
        repr(n, s, b),
    ensures
        a == b,
    decreases a, 1nat,
{
    lemma_crepr_unique(n.c, s, a.c(), b.c());
}

proof fn lemma_crepr_unique<S: BlobStore>(c: Ch<S>, s: S, a: Seq<T>, b: Seq<T>)
    requires
        crepr(c, s, a),
        crepr(c, s, b),
    ensures
        a == b,
    decreases a, 1nat,
{
    match c {
        Ch::Data(v) => lemma_drepr_unique(v, s, a, b),
        Ch::Id(id) => {
            if id.len() == 0 {
                assert(a =~= b);
            } else {
                lemma_brepr_unique(s.blob(id.skip(1)), s, a, b);
            }
        },
    }
}

proof fn lemma_drepr_unique<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, a: Seq<T>, b: Seq<T>)
    requires
        drepr(v, s, a),
        drepr(v, s, b),
    ensures
        a == b,
    decreases a, 0nat,
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(v[i].inv());
        lemma_repr_unique(v[i].nw(), s, a[i], b[i]);
    }
    assert(a =~= b);
}

proof fn lemma_brepr_unique<S: BlobStore>(x: Seq<u8>, s: S, a: Seq<T>, b: Seq<T>)
    requires
        brepr(x, s, a),
        brepr(x, s, b),
    ensures
        a == b,
    decreases a, 0nat,
{
    if a.len() == 0 {
        assert(b.len() == 0) by {
            if b.len() > 0 {
                assert(pn::<S>(x) is Some);
            }
        }
        assert(a =~= b);
    } else {
        assert(pn::<S>(x) is Some);
        assert(b.len() > 0);
        let n = pn::<S>(x)->0;
        lemma_repr_unique(n.0, s, a[0], b[0]);
        lemma_brepr_unique(x.skip(n.1 as int), s, a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}

broadcast proof fn lemma_tv<S: BlobStore>(n: NV<S>, s: S, t: T)
    requires
        #[trigger] repr(n, s, t),
    ensures
        rep(n, s),
        tv(n, s) == t,
{
    lemma_repr_unique(n, s, t, tv(n, s));
}

broadcast proof fn lemma_tv_rep<S: BlobStore>(n: NV<S>, s: S)
    requires
        #[trigger] rep(n, s),
    ensures
        repr(n, s, tv(n, s)),
{
}

/// unfolds the definition
broadcast proof fn lemma_repr_open<S: BlobStore>(n: NV<S>, s: S, t: T)
    requires
        #[trigger] repr(n, s, t),
    ensures
        rp(s, n.p) == t.p(),
        n.p is Id ==> s.readable() && n.p->Id_0.len() > 0 && t.p().len() > 0 && n.p->Id_0[0] == t.p()[0],
        rv(s, n.v) == t.v(),
        n.v is Id && !n.v.none() ==> s.readable(),
        crepr(n.c, s, t.c()),
{
}

broadcast proof fn lemma_crepr_open<S: BlobStore>(c: Ch<S>, s: S, ts: Seq<T>)
    requires
        #[trigger] crepr(c, s, ts),
    ensures
        c is Data ==> drepr(c->Data_0, s, ts),
        c is Id && c->Id_0.len() == 0 ==> ts.len() == 0,
        c is Id && c->Id_0.len() > 0 ==> s.readable() && ts.len() > 0 && brepr(s.blob(c->Id_0.skip(1)), s, ts),
{
}

/// what an iterator has still to deliver
ghost enum Rem<S> {
    Data(Seq<TreeNode<S>>),
    Bytes(Seq<u8>),
}

spec fn irepr<S: BlobStore>(r: Rem<S>, s: S, ts: Seq<T>) -> bool {
    match r {
        Rem::Data(v) => drepr(v, s, ts),
        Rem::Bytes(b) => brepr(b, s, ts) && s.readable(),
    }
}

spec fn irep<S: BlobStore>(r: Rem<S>, s: S) -> bool {
    exists|ts: Seq<T>| irepr(r, s, ts)
}

spec fn itv<S: BlobStore>(r: Rem<S>, s: S) -> Seq<T> {
    choose|ts: Seq<T>| irepr(r, s, ts)
}

broadcast proof fn lemma_itv<S: BlobStore>(r: Rem<S>, s: S, ts: Seq<T>)
    requires
        #[trigger] irepr(r, s, ts),
    ensures
        irep(r, s),
        itv(r, s) == ts,
{
    let a = itv(r, s);
    match r {
        Rem::Data(v) => lemma_drepr_unique(v, s, ts, a),
        Rem::Bytes(b) => lemma_brepr_unique(b, s, ts, a),
    }
}

broadcast proof fn lemma_itv_rep<S: BlobStore>(r: Rem<S>, s: S)
    requires
        #[trigger] irep(r, s),
    ensures
        irepr(r, s, itv(r, s)),
{
}

/// the next node, and what remains after it
spec fn rem_head<S>(r: Rem<S>) -> Option<NV<S>> {
    match r {
        Rem::Data(v) => if v.len() > 0 {
            Some(v[0].nw())
        } else {
            None
        },
        Rem::Bytes(b) => match pn::<S>(b) {
            Some(x) => Some(x.0),
            None => None,
        },
    }
}

spec fn rem_tail<S>(r: Rem<S>) -> Rem<S> {
    match r {
        Rem::Data(v) => if v.len() > 0 {
            Rem::Data(v.skip(1))
        } else {
            r
        },
        Rem::Bytes(b) => match pn::<S>(b) {
            Some(x) => Rem::Bytes(b.skip(x.1 as int)),
            None => r,
        },
    }
}

broadcast proof fn lemma_rem<S: BlobStore>(r: Rem<S>, s: S, ts: Seq<T>)
    requires
        #[trigger] irepr(r, s, ts),
    ensures
        #[trigger] rem_head(r) is None <==> ts.len() == 0,
        ts.len() > 0 ==> repr(rem_head(r)->0, s, ts[0]) && rem_head(r)->0.tight() && irepr(rem_tail(r), s, ts.skip(1)),
{
    match r {
        Rem::Data(v) => {
            if ts.len() > 0 {
                assert(v[0].inv());
                assert forall|i: int| 0 <= i < ts.skip(1).len() implies (#[trigger] v.skip(1)[i]).inv() && v.skip(1)[i].nw().tight() && repr(
                    v.skip(1)[i].nw(),
                    s,
                    ts.skip(1)[i],
                ) by {
                    assert(v[i + 1].inv());
                }
            }
        },
        Rem::Bytes(b) => {},
    }
}

// --------------------------------------------------------------------------------------------------------------- content

/// number of leading bytes that two byte strings share
spec fn cpl<A>(a: Seq<A>, b: Seq<A>) -> nat
    decreases a.len(),
{
    if a.len() == 0 || b.len() == 0 || a[0] != b[0] {
        0
    } else {
        1 + cpl(a.skip(1), b.skip(1))
    }
}

/// children of a node in normal form: non-empty key fragments with strictly ascending first bytes, no superfluous node
/// Everything below is proved for both readings of "well formed": with `compressed()` a node without a value has at least
/// two children (what every operation leaves when it succeeds), without it at least one (what a failed in-place operation
/// may leave). Nothing is known about `compressed()`, so each contract holds for both.
uninterp spec fn compressed() -> bool;

spec fn least() -> int {
    if compressed() { 2 } else { 1 }
}

spec fn wfn(t: T) -> bool
    decreases t,
{
    t.p().len() > 0 && (t.v() is Some || t.c().len() >= least()) && wfc(t.c())
}

spec fn wfc(ts: Seq<T>) -> bool
    decreases ts,
{
    &&& forall|i: int| 0 <= i < ts.len() ==> wfn(#[trigger] ts[i])
    &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> (#[trigger] ts[i]).p()[0] < (#[trigger] ts[j]).p()[0]
}

/// normal form of a whole tree
spec fn wf(t: T) -> bool {
    wfc(t.c()) && (t.v() is Some || t.c().len() >= least() || (t.c().len() == 0 && t.p().len() == 0))
}

/// position of the child that starts with a byte
spec fn hasc(ts: Seq<T>, b: u8) -> bool {
    exists|i: int| isc(ts, b, i)
}

spec fn isc(ts: Seq<T>, b: u8, i: int) -> bool {
    0 <= i < ts.len() && ts[i].p().len() > 0 && ts[i].p()[0] == b
}

spec fn idx(ts: Seq<T>, b: u8) -> int {
    choose|i: int| isc(ts, b, i)
}

/// the value of a key
spec fn lk(t: T, k: Seq<u8>) -> Option<Seq<u8>>
    decreases t,
{
    if !t.p().is_prefix_of(k) {
        None
    } else {
        let r = k.skip(t.p().len() as int);
        if r.len() == 0 {
            t.v()
        } else if hasc(t.c(), r[0]) {
            lk(t.c()[idx(t.c(), r[0])], r)
        } else {
            None
        }
    }
}

spec fn lkc(ts: Seq<T>, k: Seq<u8>) -> Option<Seq<u8>> {
    if k.len() > 0 && hasc(ts, k[0]) {
        lk(ts[idx(ts, k[0])], k)
    } else {
        None
    }
}

broadcast group group_tree {
    lemma_tv,
    lemma_tv_rep,
    lemma_itv,
    lemma_itv_rep,
    lemma_rem,
    lemma_repr_open,
    lemma_crepr_open,
    lemma_rem_nodes,
    lemma_pn,
}
