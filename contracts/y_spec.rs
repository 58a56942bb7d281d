// ---------------------------------------------------------------------------------------------------------------
// Nodes of any content (C15): nothing is known about prefixes, order, emptiness or what the store answers, only that
// the nodes that are loaded are valid (which the compiler guarantees for owned data) and that nothing has to be read
// from the store of detached trees. The functions under these contracts do not panic, whatever the store contains.
// ---------------------------------------------------------------------------------------------------------------

/// the nodes below a node, as far as they can be decoded
spec fn kids<S: BlobStore>(c: Ch<S>, s: S) -> Seq<NV<S>> {
    match c {
        Ch::Data(v) => vnodes(v),
        Ch::Id(id) => if id.len() == 0 {
            Seq::empty()
        } else {
            bnodes(s.blob(id.skip(1)))
        },
    }
}

/// at most `d` levels: blobs do not refer to each other in a cycle
spec fn okd<S: BlobStore>(n: NV<S>, s: S, d: nat) -> bool
    decreases d,
{
    &&& d > 0
    &&& n.p is Id ==> s.readable()
    &&& n.v is Id && !n.v.none() ==> s.readable()
    &&& match n.c {
        Ch::Id(id) => id.len() > 0 ==> s.readable(),
        Ch::Data(v) => vinv(v),
    }
    &&& forall|i: int| 0 <= i < kids(n.c, s).len() ==> okd(#[trigger] kids(n.c, s)[i], s, (d - 1) as nat)
}

#[verifier::opaque]
spec fn okn<S: BlobStore>(n: NV<S>, s: S) -> bool {
    exists|d: nat| okd(n, s, d)
}

spec fn okns<S: BlobStore>(ns: Seq<NV<S>>, s: S) -> bool {
    forall|i: int| 0 <= i < ns.len() ==> okn(#[trigger] ns[i], s)
}

/// the number of levels
#[verifier::opaque]
spec fn dep<S: BlobStore>(n: NV<S>, s: S) -> nat {
    choose|d: nat| okd(n, s, d) && forall|e: nat| #[trigger] okd(n, s, e) ==> d <= e
}

#[verifier::opaque]
spec fn mdep<S: BlobStore>(ns: Seq<NV<S>>, s: S) -> nat
    decreases ns.len(),
{
    if ns.len() == 0 {
        0
    } else {
        let a = dep(ns[0], s);
        let b = mdep(ns.skip(1), s);
        if a < b { b } else { a }
    }
}

/// levels of what an iterator, or a list, still delivers
spec fn rdep<S: BlobStore>(r: Rem<S>, s: S) -> nat {
    mdep(rem_nodes(r), s)
}

spec fn odep<S: BlobStore>(it: Option<TreeNodeIter<S>>, s: S) -> nat {
    match it {
        Some(x) => rdep(x.rem(), s),
        None => 0,
    }
}

spec fn vdep<S: BlobStore>(v: Seq<TreeNode<S>>, s: S) -> nat {
    mdep(vnodes(v), s)
}

spec fn okv<S: BlobStore>(v: Seq<TreeNode<S>>, s: S) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).inv() && okn(v[i].nw(), s)
}

spec fn okr<S: BlobStore>(r: Rem<S>, s: S) -> bool {
    match r {
        Rem::Data(v) => okv(v, s),
        Rem::Bytes(b) => s.readable() && okns(bnodes::<S>(b), s),
    }
}

spec fn oki<S: BlobStore>(it: TreeNodeIter<S>, s: S) -> bool {
    it.inv() && okr(it.rem(), s)
}

spec fn okopt<S: BlobStore>(it: Option<TreeNodeIter<S>>, s: S) -> bool {
    it is Some ==> oki(it->0, s) && (it->0).fresh()
}

spec fn okref<S: BlobStore>(n: TreeNodeRef<S>, s: S) -> bool {
    n.inv() && okn(n.nw(), s) && (n.0 is Err ==> s.readable())
}

spec fn okarc(a: Option<Arc<Vec<TreeNode<Detached>>>>) -> bool {
    a is Some ==> okv((a->0)@, Detached)
}

proof fn lemma_okd_mono<S: BlobStore>(n: NV<S>, s: S, d: nat, e: nat)
    requires
        okd(n, s, d),
        d <= e,
    ensures
        okd(n, s, e),
    decreases d,
{
    assert forall|i: int| 0 <= i < kids(n.c, s).len() implies okd(#[trigger] kids(n.c, s)[i], s, (e - 1) as nat) by {
        lemma_okd_mono(kids(n.c, s)[i], s, (d - 1) as nat, (e - 1) as nat);
    }
}

proof fn lemma_least<S: BlobStore>(n: NV<S>, s: S, d: nat)
    requires
        okd(n, s, d),
    ensures
        okd(n, s, dep(n, s)),
        dep(n, s) <= d,
    decreases d,
{
    reveal(dep);
    if exists|e: nat| e < d && #[trigger] okd(n, s, e) {
        let e = choose|e: nat| e < d && #[trigger] okd(n, s, e);
        lemma_least(n, s, e);
    } else {
        assert(okd(n, s, d) && forall|e: nat| #[trigger] okd(n, s, e) ==> d <= e);
    }
}

proof fn lemma_dep<S: BlobStore>(n: NV<S>, s: S)
    requires
        okn(n, s),
    ensures
        okd(n, s, dep(n, s)),
{
    reveal(okn);
    let d = choose|d: nat| okd(n, s, d);
    lemma_least(n, s, d);
}

broadcast proof fn lemma_mdep_in<S: BlobStore>(ns: Seq<NV<S>>, s: S, i: int)
    requires
        0 <= i < ns.len(),
    ensures
        #![trigger mdep(ns, s), ns[i]]
        dep(ns[i], s) <= mdep(ns, s),
    decreases ns.len(),
{
    reveal(mdep);
    if i > 0 {
        lemma_mdep_in(ns.skip(1), s, i - 1);
    }
}

broadcast proof fn lemma_mdep_zero<S: BlobStore>(ns: Seq<NV<S>>, s: S)
    requires
        ns.len() == 0,
    ensures
        #[trigger] mdep(ns, s) == 0,
{
    reveal(mdep);
}

proof fn lemma_mdep_le<S: BlobStore>(ns: Seq<NV<S>>, s: S, m: nat)
    requires
        forall|i: int| 0 <= i < ns.len() ==> dep(#[trigger] ns[i], s) <= m,
    ensures
        mdep(ns, s) <= m,
    decreases ns.len(),
{
    reveal(mdep);
    if ns.len() > 0 {
        assert forall|i: int| 0 <= i < ns.skip(1).len() implies dep(#[trigger] ns.skip(1)[i], s) <= m by {
            assert(ns.skip(1)[i] == ns[i + 1]);
        }
        lemma_mdep_le(ns.skip(1), s, m);
        assert(dep(ns[0], s) <= m);
    }
}

/// what holds of the nodes below
proof fn lemma_okn_kids<S: BlobStore>(n: NV<S>, s: S)
    requires
        okn(n, s),
    ensures
        okns(kids(n.c, s), s),
        dep(n, s) == 1 + mdep(kids(n.c, s), s),
{
    lemma_dep(n, s);
    let ns = kids(n.c, s);
    let d = dep(n, s);
    assert forall|i: int| 0 <= i < ns.len() implies okn(#[trigger] ns[i], s) && dep(ns[i], s) <= d - 1 by {
        assert(okd(ns[i], s, (d - 1) as nat));
        reveal(okn);
        lemma_least(ns[i], s, (d - 1) as nat);
    }
    lemma_mdep_le(ns, s, (d - 1) as nat);
    let m = mdep(ns, s);
    assert forall|i: int| 0 <= i < ns.len() implies okd(#[trigger] ns[i], s, m) by {
        lemma_dep(ns[i], s);
        lemma_mdep_in(ns, s, i);
        lemma_okd_mono(ns[i], s, dep(ns[i], s), m);
    }
    assert(okd(n, s, m + 1));
    lemma_least(n, s, m + 1);
}

broadcast proof fn lemma_mdep_push<S: BlobStore>(ns: Seq<NV<S>>, s: S, n: NV<S>)
    ensures
        #[trigger] mdep(ns.push(n), s) == (if mdep(ns, s) < dep(n, s) {
            dep(n, s)
        } else {
            mdep(ns, s)
        }),
    decreases ns.len(),
{
    reveal(mdep);
    assert(ns.push(n)[0] == (if ns.len() > 0 { ns[0] } else { n }));
    if ns.len() > 0 {
        assert(ns.push(n).skip(1) =~= ns.skip(1).push(n));
        lemma_mdep_push(ns.skip(1), s, n);
    } else {
        assert(ns.push(n).skip(1) =~= ns);
        assert(mdep(ns.push(n).skip(1), s) == 0);
    }
}

broadcast proof fn lemma_vdep_push<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, n: TreeNode<S>)
    ensures
        #[trigger] vdep(v.push(n), s) == (if vdep(v, s) < dep(n.nw(), s) {
            dep(n.nw(), s)
        } else {
            vdep(v, s)
        }),
{
    assert(vnodes(v.push(n)) =~= vnodes(v).push(n.nw()));
    lemma_mdep_push(vnodes(v), s, n.nw());
}

broadcast proof fn lemma_vdep_one<S: BlobStore>(v: Seq<TreeNode<S>>, s: S)
    requires
        v.len() == 1,
    ensures
        #[trigger] mdep(vnodes(v), s) == dep(v[0].nw(), s),
{
    reveal(mdep);
    assert(vnodes(v)[0] == v[0].nw());
    assert(vnodes(v).skip(1).len() == 0);
    assert(mdep(vnodes(v).skip(1), s) == 0);
}

proof fn lemma_vnodes<S: BlobStore>(v: Seq<TreeNode<S>>, s: S)
    ensures
        okv(v, s) <==> vinv(v) && okns(vnodes(v), s),
{
    if vinv(v) && okns(vnodes(v), s) {
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).inv() && okn(v[i].nw(), s) by {
            assert(vnodes(v)[i] == v[i].nw());
        }
    }
    if okv(v, s) {
        assert forall|i: int| 0 <= i < vnodes(v).len() implies okn(#[trigger] vnodes(v)[i], s) by {
            assert(v[i].inv());
        }
    }
}

/// what it means, as an equivalence
broadcast proof fn lemma_okn<S: BlobStore>(n: NV<S>, s: S)
    ensures
        #[trigger] okn(n, s) <==> {
            &&& n.p is Id ==> s.readable()
            &&& n.v is Id && !n.v.none() ==> s.readable()
            &&& n.c is Id && n.c->Id_0.len() > 0 ==> s.readable() && okns(bnodes::<S>(s.blob(n.c->Id_0.skip(1))), s)
            &&& n.c is Data ==> okv(n.c->Data_0, s)
        },
{
    if okn(n, s) {
        lemma_okn_kids(n, s);
        lemma_dep(n, s);
        if n.c is Data {
            lemma_vnodes(n.c->Data_0, s);
        }
    }
    if (n.p is Id ==> s.readable()) && (n.v is Id && !n.v.none() ==> s.readable()) && (n.c is Id && n.c->Id_0.len() > 0 ==> s.readable() && okns(bnodes::<S>(s.blob(n.c->Id_0.skip(1))), s)) && (n.c is Data
        ==> okv(n.c->Data_0, s)) {
        let ns = kids(n.c, s);
        if n.c is Data {
            lemma_vnodes(n.c->Data_0, s);
        }
        let m = mdep(ns, s);
        assert forall|i: int| 0 <= i < ns.len() implies okd(#[trigger] ns[i], s, m) by {
            lemma_dep(ns[i], s);
            lemma_mdep_in(ns, s, i);
            lemma_okd_mono(ns[i], s, dep(ns[i], s), m);
        }
        assert(okd(n, s, m + 1));
        reveal(okn);
    }
}

/// levels of a node and of what is below it
broadcast proof fn lemma_dep_kids<S: BlobStore>(n: NV<S>, s: S)
    requires
        okn(n, s),
    ensures
        #[trigger] dep(n, s) == 1 + mdep(kids(n.c, s), s),
{
    lemma_okn_kids(n, s);
}

proof fn lemma_okr<S: BlobStore>(r: Rem<S>, s: S)
    requires
        okr(r, s),
    ensures
        okns(rem_nodes(r), s),
{
    if r is Data {
        lemma_vnodes(r->Data_0, s);
    }
}

/// the next node of an iterator
broadcast proof fn lemma_okr_head<S: BlobStore>(r: Rem<S>, s: S)
    requires
        #[trigger] okr(r, s),
    ensures
        #[trigger] rem_head(r) is Some ==> okn(rem_head(r)->0, s) && dep(rem_head(r)->0, s) <= rdep(r, s),
{
    lemma_okr(r, s);
    if rem_head(r) is Some {
        assert(rem_nodes(r)[0] == rem_head(r)->0);
        lemma_mdep_in(rem_nodes(r), s, 0);
    }
}

/// and the nodes after it
broadcast proof fn lemma_okr_tail<S: BlobStore>(r: Rem<S>, s: S)
    requires
        #[trigger] okr(r, s),
    ensures
        okr(#[trigger] rem_tail(r), s),
        rdep(rem_tail(r), s) <= rdep(r, s),
{
    reveal(mdep);
    lemma_okr(r, s);
    let ns = rem_nodes(r);
    match r {
        Rem::Data(v) => {
            if v.len() > 0 {
                assert forall|i: int| 0 <= i < v.skip(1).len() implies (#[trigger] v.skip(1)[i]).inv() && okn(v.skip(1)[i].nw(), s) by {
                    assert(v[i + 1].inv());
                }
                assert(vnodes(v.skip(1)) =~= ns.skip(1));
            }
        },
        Rem::Bytes(b) => {
            if pn::<S>(b) is Some {
                let x = pn::<S>(b)->0;
                lemma_pn::<S>(b);
                assert(ns.skip(1) =~= bnodes::<S>(b.skip(x.1 as int)));
                assert forall|i: int| 0 <= i < ns.skip(1).len() implies okn(#[trigger] ns.skip(1)[i], s) by {
                    assert(ns.skip(1)[i] == ns[i + 1]);
                }
            }
        },
    }
}

/// any node of an iterator
broadcast proof fn lemma_okr_in<S: BlobStore>(r: Rem<S>, s: S, n: NV<S>)
    requires
        #[trigger] okr(r, s),
        #[trigger] rem_nodes(r).contains(n),
    ensures
        okn(n, s),
        dep(n, s) <= rdep(r, s),
{
    lemma_okr(r, s);
    let k = choose|k: int| 0 <= k < rem_nodes(r).len() && rem_nodes(r)[k] == n;
    lemma_mdep_in(rem_nodes(r), s, k);
}

broadcast proof fn lemma_okr_last<S: BlobStore>(r: Rem<S>, s: S, n: NV<S>)
    requires
        #[trigger] okr(r, s),
        #[trigger] is_last(rem_nodes(r), Some(n)),
    ensures
        okn(n, s),
        dep(n, s) <= rdep(r, s),
{
    assert(rem_nodes(r)[rem_nodes(r).len() - 1] == n);
    assert(rem_nodes(r).contains(n));
    lemma_okr_in(r, s, n);
}

/// loading the children of a node
broadcast proof fn lemma_ok_load<S: BlobStore>(n: NV<S>, s: S, it: Option<TreeNodeIter<S>>, strict: bool)
    requires
        #[trigger] okn(n, s),
        #[trigger] cload(n.c, s, it, strict),
    ensures
        okopt(it, s),
        dep(n, s) == 1 + odep(it, s),
{
    broadcast use lemma_mdep_zero;
    lemma_okn(n, s);
    lemma_okn_kids(n, s);
    if it is Some && n.c is Data {
        let v = n.c->Data_0;
        assert(okv(v, s));
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).inv() by {
        }
    }
}

broadcast proof fn lemma_okv_push<S: BlobStore>(v: Seq<TreeNode<S>>, s: S, x: TreeNode<S>)
    requires
        okv(v, s),
        x.inv(),
        okn(x.nw(), s),
    ensures
        #[trigger] okv(v.push(x), s),
{
}

/// what is known of a valid node
broadcast proof fn lemma_okn_open<S: BlobStore>(n: NV<S>, s: S)
    requires
        #[trigger] okn(n, s),
    ensures
        n.p is Id ==> s.readable(),
        n.v is Id && !n.v.none() ==> s.readable(),
        n.c is Id && n.c->Id_0.len() > 0 ==> s.readable() && okns(bnodes::<S>(s.blob(n.c->Id_0.skip(1))), s),
        n.c is Data ==> okv(n.c->Data_0, s),
{
    lemma_okn(n, s);
}

broadcast group group_ok {
    lemma_okn_open,
    lemma_okr_head,
    lemma_okr_tail,
    lemma_okr_in,
    lemma_okr_last,
    lemma_ok_load,
    lemma_okv_push,
    lemma_dep_kids,
    lemma_vdep_one,
    lemma_mdep_zero,
    lemma_vdep_push,
}

broadcast group group_okc {
    lemma_okn,
    lemma_okr_head,
    lemma_okr_tail,
    lemma_ok_load,
    lemma_okv_push,
    lemma_dep_kids,
    lemma_vdep_one,
    lemma_mdep_zero,
    lemma_vdep_push,
}

/// `TreeNodeIter::from_arc(Arc::new(vec![node]))`
fn one_node<S: BlobStore>(node: TreeNode<S>, Ghost(s): Ghost<S>) -> (r: TreeNodeIter<'static, S>)
    requires
        node.inv(),
        okn(node.nw(), s),
    ensures
        oki(r, s),
        r.fresh(),
{
    let v = vec_of(node);
    let r = TreeNodeIter::from_arc(Arc::new(v));
    r
}

/// `transmute` of a list of nodes without store: only the marker type changes
#[verifier::external_body]
fn cast_children<S: BlobStore>(a: Option<Arc<Vec<TreeNode<S>>>>, Ghost(s): Ghost<S>) -> (r: Option<Arc<Vec<TreeNode<Detached>>>>)
    requires
        no_store::<S>(),
    ensures
        a is Some <==> r is Some,
        a is Some && okv((a->0)@, s) ==> okv((r->0)@, Detached),
{
    unimplemented!()
}

/// where a search can end
spec fn ok_fr<S: BlobStore>(fr: FindResult<&TreeNodeRef<S>>, s: S, k: Seq<u8>) -> bool {
    match fr {
        FindResult::Found(t) => okref(*t, s) && rp(s, t.nw().p).len() <= k.len(),
        FindResult::Prefix { tree, matching } => okref(*tree, s) && matching <= k.len() && matching <= rp(s, tree.nw().p).len(),
        FindResult::NotFound => true,
    }
}

spec fn okval<S: BlobStore>(v: Option<Value<S>>, s: S) -> bool {
    v is Some ==> valok(v->0, s)
}

type Fr<S> = (usize, Option<TreeNodeIter<'static, S>>);

spec fn okst<S: BlobStore>(st: Seq<Fr<S>>, s: S) -> bool {
    forall|i: int| 0 <= i < st.len() ==> (#[trigger] st[i]).1 is Some ==> oki(st[i].1->0, s)
}

impl<S: BlobStore> KeyValueIter<S> {
    spec fn ok(self) -> bool {
        okst(self.stack@, self.store)
    }
}

impl<S: BlobStore> ValueIter<S> {
    spec fn ok(self) -> bool {
        forall|i: int| 0 <= i < self.stack@.len() ==> oki(#[trigger] self.stack@[i], self.store)
    }
}

spec fn ok_desc<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>>(f: F, s: S) -> bool {
    forall|p: &[u8], n: &TreeNodeRef<S>| okref(*n, s) ==> #[trigger] call_requires(f, (p, n))
}

impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> GroupBy<S, F> {
    spec fn ok(self) -> bool {
        okst(self.stack@, self.store) && ok_desc(self.descend, self.store)
    }
}

impl<S: BlobStore> RadixTree<S> {
    spec fn ok(self) -> bool {
        self.node.inv() && okn(self.node.nw(), self.store)
    }
}

// ---- the iterators terminate ----

/// the number of nodes, `d` levels deep
spec fn szf<S: BlobStore>(ns: Seq<NV<S>>, s: S, d: nat) -> nat
    decreases d, ns.len(),
{
    if ns.len() == 0 {
        0
    } else {
        1 + (if d == 0 { 0 } else { szf(kids(ns[0].c, s), s, (d - 1) as nat) }) + szf(ns.skip(1), s, d)
    }
}

#[verifier::opaque]
spec fn szl<S: BlobStore>(ns: Seq<NV<S>>, s: S) -> nat {
    szf(ns, s, mdep(ns, s))
}

proof fn lemma_szf<S: BlobStore>(ns: Seq<NV<S>>, s: S, d: nat, e: nat)
    requires
        okns(ns, s),
        mdep(ns, s) <= d,
        mdep(ns, s) <= e,
    ensures
        szf(ns, s, d) == szf(ns, s, e),
    decreases d, ns.len(),
{
    if ns.len() > 0 {
        lemma_okns_parts(ns, s);
        lemma_szf(ns.skip(1), s, d, e);
        lemma_szf(kids(ns[0].c, s), s, (d - 1) as nat, (e - 1) as nat);
    }
}

proof fn lemma_okns_parts<S: BlobStore>(ns: Seq<NV<S>>, s: S)
    requires
        okns(ns, s),
        ns.len() > 0,
    ensures
        okns(ns.skip(1), s),
        okns(kids(ns[0].c, s), s),
        mdep(ns.skip(1), s) <= mdep(ns, s),
        mdep(kids(ns[0].c, s), s) + 1 <= mdep(ns, s),
{
    reveal(mdep);
    assert(okn(ns[0], s));
    lemma_okn_kids(ns[0], s);
    assert forall|i: int| 0 <= i < ns.skip(1).len() implies okn(#[trigger] ns.skip(1)[i], s) by {
        assert(ns.skip(1)[i] == ns[i + 1]);
    }
}

proof fn lemma_szl<S: BlobStore>(ns: Seq<NV<S>>, s: S)
    requires
        okns(ns, s),
        ns.len() > 0,
    ensures
        szl(ns, s) == 1 + szl(kids(ns[0].c, s), s) + szl(ns.skip(1), s),
{
    reveal(szl);
    lemma_okns_parts(ns, s);
    let d = mdep(ns, s);
    lemma_szf(ns.skip(1), s, d, mdep(ns.skip(1), s));
    lemma_szf(kids(ns[0].c, s), s, (d - 1) as nat, mdep(kids(ns[0].c, s), s));
}

spec fn osz<S: BlobStore>(it: Option<TreeNodeIter<S>>, s: S) -> nat {
    match it {
        Some(x) => szl(rem_nodes(x.rem()), s),
        None => 0,
    }
}

proof fn lemma_rem_tail<S: BlobStore>(r: Rem<S>)
    requires
        rem_head(r) is Some,
    ensures
        rem_nodes(r).len() > 0,
        rem_nodes(r)[0] == rem_head(r)->0,
        rem_nodes(rem_tail(r)) == rem_nodes(r).skip(1),
{
    match r {
        Rem::Data(v) => {
            assert(vnodes(v.skip(1)) =~= vnodes(v).skip(1));
        },
        Rem::Bytes(b) => {
            let x = pn::<S>(b)->0;
            lemma_pn::<S>(b);
            assert(rem_nodes(r).skip(1) =~= bnodes::<S>(b.skip(x.1 as int)));
        },
    }
}

/// one node delivered, its children loaded
proof fn lemma_sz_into<S: BlobStore>(r: Rem<S>, s: S, it: Option<TreeNodeIter<S>>)
    requires
        okr(r, s),
        rem_head(r) is Some,
        cload((rem_head(r)->0).c, s, it, false),
    ensures
        szl(rem_nodes(r), s) == 1 + osz(it, s) + szl(rem_nodes(rem_tail(r)), s),
{
    lemma_okr(r, s);
    lemma_rem_tail(r);
    lemma_szl(rem_nodes(r), s);
    let c = (rem_head(r)->0).c;
    if it is None {
        assert(kids(c, s).len() == 0);
        reveal(szl);
    } else {
        assert(rem_nodes(it->0.rem()) == kids(c, s));
    }
}

spec fn st_steps<S: BlobStore>(st: Seq<Fr<S>>, s: S) -> nat
    decreases st.len(),
{
    if st.len() == 0 {
        0
    } else {
        (match st.last().1 {
            Some(it) => 3 * osz(Some(it), s) + 2,
            None => 1,
        }) + st_steps(st.drop_last(), s)
    }
}

spec fn vst_steps<S: BlobStore>(st: Seq<TreeNodeIter<S>>, s: S) -> nat
    decreases st.len(),
{
    if st.len() == 0 {
        0
    } else {
        2 * osz(Some(st.last()), s) + 1 + vst_steps(st.drop_last(), s)
    }
}

/// `s2`: the stack after a step into the next node
proof fn lemma_st_into<S: BlobStore>(st: Seq<Fr<S>>, s2: Seq<Fr<S>>, s: S)
    requires
        okst(st, s),
        st.len() > 0,
        s2.len() == st.len() + 1,
        s2.drop_last().drop_last() =~= st.drop_last(),
        st.last().1 is Some,
        rem_head(st.last().1->0.rem()) is Some,
        s2[s2.len() - 2].1 is Some,
        s2[s2.len() - 2].1->0.rem() == rem_tail(st.last().1->0.rem()),
        cload((rem_head(st.last().1->0.rem())->0).c, s, s2.last().1, false),
    ensures
        st_steps(s2, s) < st_steps(st, s),
{
    reveal_with_fuel(st_steps, 3);
    lemma_sz_into(st.last().1->0.rem(), s, s2.last().1);
}

proof fn lemma_st_end<S: BlobStore>(st: Seq<Fr<S>>, s2: Seq<Fr<S>>, s: S)
    requires
        st.len() > 0,
        s2 =~= st.drop_last() || s2.len() == st.len() && s2.drop_last() =~= st.drop_last() && s2.last().1 is None && st.last().1 is Some,
    ensures
        st_steps(s2, s) < st_steps(st, s),
{
}

proof fn lemma_vst_into<S: BlobStore>(st: Seq<TreeNodeIter<S>>, s2: Seq<TreeNodeIter<S>>, s: S, it: Option<TreeNodeIter<S>>)
    requires
        forall|i: int| 0 <= i < st.len() ==> oki(#[trigger] st[i], s),
        st.len() > 0,
        rem_head(st.last().rem()) is Some,
        cload((rem_head(st.last().rem())->0).c, s, it, false),
        match it {
            Some(x) => s2.len() == st.len() + 1 && s2.last() == x && s2.drop_last().drop_last() =~= st.drop_last() && s2[s2.len() - 2].rem() == rem_tail(st.last().rem()),
            None => s2.len() == st.len() && s2.drop_last() =~= st.drop_last() && s2.last().rem() == rem_tail(st.last().rem()),
        },
    ensures
        vst_steps(s2, s) < vst_steps(st, s),
{
    reveal_with_fuel(vst_steps, 3);
    assert(oki(st.last(), s));
    lemma_sz_into(st.last().rem(), s, it);
}

proof fn lemma_vst_end<S: BlobStore>(st: Seq<TreeNodeIter<S>>, s2: Seq<TreeNodeIter<S>>, s: S)
    requires
        st.len() > 0,
        s2 =~= st.drop_last(),
    ensures
        vst_steps(s2, s) < vst_steps(st, s),
{
}

// ---- merges ----

/// the function can be called on all values of the two stores, and leaves a value (even if it fails)
#[verifier::prophetic]
spec fn wok<A: BlobStore, B: BlobStore, E, F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), E>>(f: F, ab: A, bb: B) -> bool {
    &&& forall|m: &mut Value<A>, b: &ValueRef<B>| valok(*m, ab) && vrok(*b, bb) ==> #[trigger] call_requires(f, (m, b))
    &&& forall|m: &mut Value<A>, b: &ValueRef<B>, r: Result<(), E>|
        valok(*m, ab) && vrok(*b, bb) && #[trigger] call_ensures(f, (m, b), r) ==> valok(*final(m), ab)
}

spec fn cok<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E>>(f: F, ab: A, bb: B) -> bool {
    &&& forall|a: &ValueRef<A>, b: &ValueRef<B>| vrok(*a, ab) && vrok(*b, bb) ==> #[trigger] call_requires(f, (a, b))
    &&& forall|a: &ValueRef<A>, b: &ValueRef<B>, r: Option<Value>|
        #[trigger] call_ensures(f, (a, b), Ok(r)) && r is Some ==> valok(r->0, Detached)
}

spec fn dok<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E>>(f: F, ab: A, bb: B) -> bool {
    forall|a: &ValueRef<A>, b: &ValueRef<B>| vrok(*a, ab) && vrok(*b, bb) ==> #[trigger] call_requires(f, (a, b))
}

spec fn aok<B: BlobStore, E, F: Fn(&ValueRef<B>) -> Result<bool, E>>(f: F, bb: B) -> bool {
    forall|b: &ValueRef<B>| vrok(*b, bb) ==> #[trigger] call_requires(f, (b,))
}

proof fn lemma_okv_skip<S: BlobStore>(v: Seq<TreeNode<S>>, s: S)
    requires
        okv(v, s),
        v.len() > 0,
    ensures
        okv(v.skip(1), s),
        vdep(v.skip(1), s) <= vdep(v, s),
        dep(v[0].nw(), s) <= vdep(v, s),
{
    reveal(mdep);
    assert(vnodes(v).skip(1) =~= vnodes(v.skip(1)));
    assert(vnodes(v)[0] == v[0].nw());
    lemma_mdep_in(vnodes(v), s, 0);
    assert forall|i: int| 0 <= i < v.skip(1).len() implies (#[trigger] v.skip(1)[i]).inv() && okn(v.skip(1)[i].nw(), s) by {
        assert(v[i + 1].inv());
    }
}

proof fn lemma_okv_cat<S: BlobStore>(a: Seq<TreeNode<S>>, b: Seq<TreeNode<S>>, s: S)
    requires
        okv(a, s),
        okv(b, s),
    ensures
        okv(a + b, s),
        okv(b.skip(b.len() as int), s),
        b.take(b.len() as int) == b,
{
    assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]).inv() && okn((a + b)[i].nw(), s) by {
        if i < a.len() {
            assert(a[i].inv());
        } else {
            assert(b[i - a.len()].inv());
        }
    }
    assert(b.take(b.len() as int) =~= b);
}

proof fn lemma_okv_less<S: BlobStore>(b: Seq<TreeNode<S>>, a: Seq<TreeNode<S>>, s: S)
    requires
        okv(a, s),
        okv(b, s),
        b.len() > 0,
    ensures
        okv(a + b.take(1), s),
        okv(b.skip(1), s),
        vdep(b.skip(1), s) <= vdep(b, s),
{
    lemma_okv_skip(b, s);
    assert forall|i: int| 0 <= i < b.take(1).len() implies (#[trigger] b.take(1)[i]).inv() && okn(b.take(1)[i].nw(), s) by {
        assert(b[i].inv());
    }
    lemma_okv_cat(a, b.take(1), s);
}

proof fn lemma_okv_sorted<S: BlobStore>(a: Seq<TreeNode<S>>, b: Seq<TreeNode<S>>, s: S)
    requires
        okv(a, s),
        sorted_perm(a, b),
    ensures
        okv(b, s),
{
    let p = choose|p: Seq<int>| #[trigger] perm(p, a.len()) && forall|i: int| 0 <= i < a.len() ==> b[i] == a[#[trigger] p[i]];
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).inv() && okn(b[i].nw(), s) by {
        assert(b[i] == a[p[i]]);
        assert(a[p[i]].inv());
    }
}

/// the encoding of one node
spec fn whole<S>(e: Seq<u8>) -> bool {
    match pn::<S>(e) {
        Some(x) => x.1 == e.len(),
        None => false,
    }
}

proof fn lemma_whole<N: BlobStore, S: BlobStore>(n: NV<N>, s: S, a0: Seq<u8>, a1: Seq<u8>, a2: Seq<u8>, a3: Seq<u8>)
    requires
        !n.p.none(),
        a1 == a0 + a1.skip(a0.len() as int),
        a2 == a1 + a2.skip(a1.len() as int),
        a1.len() > a0.len(),
        a2.len() > a1.len(),
        ser_raw(s, n.p, 1, a1.skip(a0.len() as int)),
        ser_raw(s, n.v, 0, a2.skip(a1.len() as int)),
        a3.len() > a2.len(),
        a3 =~= a2 + a3.skip(a2.len() as int),
        hid(Header(a3[a2.len() as int])),
        a3.len() == a2.len() + 1 + hlen(Header(a3[a2.len() as int])),
    ensures
        a3 == a0 + a3.skip(a0.len() as int),
        whole::<S>(a3.skip(a0.len() as int)),
        (pn::<S>(a3.skip(a0.len() as int))->0).0.c == Ch::<S>::Id(a3.skip(a2.len() as int + 1)),
        s.readable() && (a3.len() > a2.len() + 1 ==> okns(bnodes::<S>(s.blob(a3.skip(a2.len() as int + 1).skip(1))), s)) ==> okn((pn::<S>(a3.skip(a0.len() as int))->0).0, s),
{
    let e1 = a1.skip(a0.len() as int);
    let e2 = a2.skip(a1.len() as int);
    let e3 = a3.skip(a2.len() as int);
    let e = a3.skip(a0.len() as int);
    assert(a3 =~= a0 + e);
    assert(e =~= e1 + e2 + e3);
    let o1 = e1.len() as int;
    let o2 = o1 + e2.len();
    assert(e.subrange(1, o1) =~= e1.skip(1));
    assert(e.subrange(o1 + 1, o2) =~= e2.skip(1));
    assert(e.subrange(o2 + 1, e.len() as int) =~= e3.skip(1));
    assert(e[0] == e1[0]);
    assert(e[o1] == e2[0]);
    assert(e[o2] == e3[0]);
    assert(e3.skip(1) =~= a3.skip(a2.len() as int + 1));
    lemma_okn((pn::<S>(e)->0).0, s);
}

/// what follows an encoded node does not matter
proof fn lemma_pn_app<S>(b: Seq<u8>, r: Seq<u8>)
    requires
        pn::<S>(b) is Some,
    ensures
        pn::<S>(b + r) == pn::<S>(b),
{
    let x = b + r;
    let h1 = Header(b[0]);
    let o1 = 1 + hlen(h1) as int;
    let h2 = Header(b[o1]);
    let o2 = o1 + 1 + hlen(h2) as int;
    let h3 = Header(b[o2]);
    let o3 = o2 + 1 + hlen(h3) as int;
    assert(x.subrange(1, o1) =~= b.subrange(1, o1));
    assert(x.subrange(o1 + 1, o2) =~= b.subrange(o1 + 1, o2));
    assert(x.subrange(o2 + 1, o3) =~= b.subrange(o2 + 1, o3));
}

/// a node of a tree of any kind, if its ids are read from `s`
spec fn xokd<N, S: BlobStore>(n: NV<N>, s: S, d: nat) -> bool
    decreases d,
{
    &&& d > 0
    &&& match n.c {
        Ch::Data(v) => forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).inv() && xokd(v[i].nw(), s, (d - 1) as nat),
        Ch::Id(id) => id.len() > 0 ==> okns(bnodes::<S>(s.blob(id.skip(1))), s),
    }
}

proof fn lemma_xokd_same<S: BlobStore>(n: NV<S>, s: S, d: nat)
    requires
        okd(n, s, d),
    ensures
        xokd(n, s, d),
    decreases d,
{
    match n.c {
        Ch::Data(v) => {
            assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).inv() && xokd(v[i].nw(), s, (d - 1) as nat) by {
                assert(kids(n.c, s)[i] == v[i].nw());
                lemma_xokd_same(v[i].nw(), s, (d - 1) as nat);
            }
        },
        Ch::Id(id) => {
            if id.len() > 0 {
                let ns = bnodes::<S>(s.blob(id.skip(1)));
                assert(ns == kids(n.c, s));
                assert forall|i: int| 0 <= i < ns.len() implies okn(#[trigger] ns[i], s) by {
                    assert(okd(ns[i], s, (d - 1) as nat));
                    reveal(okn);
                }
            }
        },
    }
}

proof fn lemma_xokd_detached<S: BlobStore>(n: NV<Detached>, s: S, d: nat)
    requires
        okd(n, Detached, d),
    ensures
        xokd(n, s, d),
    decreases d,
{
    if n.c is Data {
        let v = n.c->Data_0;
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).inv() && xokd(v[i].nw(), s, (d - 1) as nat) by {
            assert(kids(n.c, Detached)[i] == v[i].nw());
            lemma_xokd_detached(v[i].nw(), s, (d - 1) as nat);
        }
    }
}

/// a list of encoded nodes without a rest
spec fn full<S>(b: Seq<u8>) -> bool
    decreases b.len(),
{
    b.len() == 0 || match pn::<S>(b) {
        Some(x) => full::<S>(b.skip(x.1 as int)),
        None => false,
    }
}

/// one more node at the end of a list
proof fn lemma_bnodes_push<S: BlobStore>(b: Seq<u8>, e: Seq<u8>, s: S)
    requires
        full::<S>(b),
        whole::<S>(e),
        okns(bnodes::<S>(b), s),
        okn((pn::<S>(e)->0).0, s),
    ensures
        full::<S>(b + e),
        okns(bnodes::<S>(b + e), s),
    decreases b.len(),
{
    let n = (pn::<S>(e)->0).0;
    let r = bnodes::<S>(b + e);
    if b.len() == 0 {
        assert(b + e =~= e);
        let z = e.skip(e.len() as int);
        assert(z.len() == 0);
        assert(bnodes::<S>(z) =~= Seq::empty());
        assert(r =~= seq![n]);
        assert(full::<S>(z));
    } else {
        let x = pn::<S>(b)->0;
        let ns = bnodes::<S>(b);
        lemma_pn_app::<S>(b, e);
        lemma_pn::<S>(b);
        let b1 = b.skip(x.1 as int);
        assert((b + e).skip(x.1 as int) =~= b1 + e);
        assert forall|i: int| 0 <= i < bnodes::<S>(b1).len() implies okn(#[trigger] bnodes::<S>(b1)[i], s) by {
            assert(ns[i + 1] == bnodes::<S>(b1)[i]);
        }
        lemma_bnodes_push(b1, e, s);
        assert(ns[0] == x.0);
        assert(r =~= seq![x.0] + bnodes::<S>(b1 + e));
        assert forall|i: int| 0 <= i < r.len() implies okn(#[trigger] r[i], s) by {
            if i > 0 {
                assert(r[i] == bnodes::<S>(b1 + e)[i - 1]);
            }
        }
    }
}

/// what is stored under an id: no cycles
spec fn fine<S: BlobStore>(s: S, id: Seq<u8>) -> bool {
    pn::<S>(s.blob(id)) is Some ==> okn((pn::<S>(s.blob(id))->0).0, s)
}

/// `u8::try_from(n).unwrap_or_default()`: a hint that nothing depends on
#[verifier::external_body]
fn small(n: usize) -> (r: u8) {
    n.try_into().unwrap_or_default()
}

/// `Result::unwrap`
fn node_of<X>(r: Result<X, AnyErr>) -> (x: X)
    requires
        r is Ok,
    ensures
        r == Ok::<X, AnyErr>(x),
{
    match r {
        Ok(x) => x,
        Err(_) => vstd::pervasive::unreached(),
    }
}
