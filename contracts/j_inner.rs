//@pre #[verifier::rlimit(60)]
fn inner_combine<A, B, E, F>(
    a: &TreeNodeRef<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<TreeNode<Detached>, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E> + Copy, {
    //@spec requires nok(*a, ab), nok(*b, bb), comb_ok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> r->Ok_0.inv() && good(r->Ok_0.nw(), Detached) && merged(inner_c::<A, B, E, F>(f, ab, bb), tv(a.nw(), ab), tv(b.nw(), bb), tv(r->Ok_0.nw(), Detached)),
    //@spec decreases cnt(tv(a.nw(), ab)) + cnt(tv(b.nw(), bb)), 0nat,
    //@ broadcast use lemma_cload;
    //@ let ghost ta = tv(a.nw(), ab);
    //@ let ghost tb = tv(b.nw(), bb);
    //@ proof { lemma_canon_wf(ta); }
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cut_common(ta, tb, n as nat); }
    //@ let ghost ta1 = if n < ta.p().len() { cut(ta, n as nat) } else { ta };
    //@ let ghost tb1 = if n < tb.p().len() { cut(tb, n as nat) } else { tb };
    let value;
    let children;
    if n == ap.len() && n == bp.len() {
        value = if let Some(bv) = b.value_opt() {
            if let Some(av) = a.value_opt() {
                f(&av, &bv)?
            } else {
                None
            }
        } else {
            None
        };
        let ac = a.load_children(&ab)?;
        let bc = b.load_children(&bb)?;
        //@ proof { assert(optl(ac, ab) =~= ta1.c()); assert(optl(bc, bb) =~= tb1.c()); }
        children = inner_combine_children(ac, ab, bc, bb, f)?;
    } else if n == ap.len() {
        value = None;
        let ac = a.load_children(&ab)?;
        let bc = [b.clone_shortened(&bb, n)?];
        //@ proof { assert(optl(ac, ab) =~= ta1.c()); lemma_drepr_one(bc@, bb, shorten(tb, n as nat)); assert(tb1.c() =~= seq![shorten(tb, n as nat)]); }
        children = inner_combine_children(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
    } else if n == bp.len() {
        value = None;
        let ac = [a.clone_shortened(&ab, n)?];
        let bc = b.load_children(&bb)?;
        //@ proof { lemma_drepr_one(ac@, ab, shorten(ta, n as nat)); assert(ta1.c() =~= seq![shorten(ta, n as nat)]); assert(optl(bc, bb) =~= tb1.c()); }
        children = inner_combine_children(TreeNodeIter::from_slice(&ac), ab, bc, bb, f)?;
    } else {
        //@ proof { lemma_two_drop(inner_c::<A, B, E, F>(f, ab, bb), shorten(ta, n as nat), shorten(tb, n as nat)); assert(ta1.c() =~= seq![shorten(ta, n as nat)]); assert(tb1.c() =~= seq![shorten(tb, n as nat)]); }
        value = None;
        children = None;
    }
    let mut res = TreeNode::EMPTY;
    //@ let ghost cl = detl(children);
    //@ proof { assert(mergedc(inner_c::<A, B, E, F>(f, ab, bb), ta1.c(), tb1.c(), cl)); assert(wfc(cl)); assert(iter_det(children, cl)); }
    res.set_prefix_slice(&ap[..n]);
    res.set_value(value);
    res.set_children_arc_opt(children);
    //@ let ghost z = rv(Detached, res.nw().v);
    //@ let ghost t2 = T::Node { p: ta1.p(), v: z, c: cl };
    //@ proof { assert(ap@.subrange(0, n as int) =~= ta1.p()); assert(ta1.p() == tb1.p()); assert((inner_c::<A, B, E, F>(f, ab, bb))(ta1.v(), tb1.v(), z)); if cl.len() == 0 { assert(cl =~= Seq::empty()); lemma_crepr_empty::<Detached>(Seq::empty(), Detached); } assert(crepr(res.nw().c, Detached, cl)); lemma_mk(res.nw(), Detached, ta1.p(), z, cl); lemma_merge_end(inner_c::<A, B, E, F>(f, ab, bb), ta, tb, ta1, tb1, t2); }
    res.canonicalize(&Detached).unwrap_safe();
    Ok(res)
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::rlimit(60)]
//@pre #[verifier::allow_complex_invariants]
fn inner_combine_children<'a, A, B, E, F>(
    ac: Option<TreeNodeIter<'a, A>>,
    ab: A,
    bc: Option<TreeNodeIter<'a, B>>,
    bb: B,
    f: F,
) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E> + Copy, {
    //@spec requires optok(ac, ab), optok(bc, bb), comb_ok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> iter_det(r->Ok_0, detl(r->Ok_0)) && wfc(detl(r->Ok_0)) && mergedc(inner_c::<A, B, E, F>(f, ab, bb), optl(ac, ab), optl(bc, bb), detl(r->Ok_0)),
    //@spec decreases cntc(optl(ac, ab)) + cntc(optl(bc, bb)), 1nat,
    //@ let ghost ta = optl(ac, ab);
    //@ let ghost tb = optl(bc, bb);
    //@ proof { lemma_lists(inner_c::<A, B, E, F>(f, ab, bb), ta); lemma_lists(inner_c::<A, B, E, F>(f, ab, bb), tb); assert(wfc(Seq::<T>::empty())); assert forall|o: Option<Arc<Vec<TreeNode<Detached>>>>, ts: Seq<T>| #[trigger] iter_det(o, ts) implies detl(o) == ts by { lemma_detl(o, ts); } }
    Ok(match (ac, bc) {
        (Some(ac), Some(bc)) => {
            let mut res = Vec::new();
            let mut iter = OuterJoin::<A, B, E>::new(ac, bc);
            //@ let ghost mut i = 0int; let ghost mut j = 0int; let ghost mut lo = 0int; let ghost mut rs = Seq::<T>::empty();
            //@ let ghost mut ra = iter.a.rem(); let ghost mut rb = iter.b.rem();
            //@ proof { lemma_join_init(inner_c::<A, B, E, F>(f, ab, bb), ta, tb); assert(ta.skip(0) =~= ta); assert(tb.skip(0) =~= tb); lemma_drepr_nil(res@, Detached); }
            while let Some(x) = iter.next() {
                //@spec invariant jinv(inner_c::<A, B, E, F>(f, ab, bb), ta, tb, i, j, rs, lo), iter.a.inv(), iter.b.inv(), ra == iter.a.rem(), rb == iter.b.rem(), irepr(ra, ab, ta.skip(i)), irepr(rb, bb, tb.skip(j)), drepr(res@, Detached, rs), ra is Bytes ==> ab.readable(), rb is Bytes ==> bb.readable(),
                //@spec comb_ok::<A, B, E, F>(f, ab, bb),
                //@spec ensures i == ta.len(), j == tb.len(),
                //@spec decreases ta.len() - i + tb.len() - j,
                //@ let ghost a0 = ra; let ghost b0 = rb; let ghost rs0 = rs; let ghost res0 = res@; let ghost i0 = i; let ghost j0 = j; let ghost lo0 = lo;
                //@ proof { lemma_heads(a0, ab, ta, i, b0, bb, tb, j); }
                //@ proof { match jcmp(hd(ta, i), hd(tb, j)) {
                //@ Some(Ordering::Less) => { lemma_join_a(inner_c::<A, B, E, F>(f, ab, bb), ta, tb, i, j, rs, lo); lo = ta[i].p()[0] + 1; i = i + 1; }
                //@ Some(Ordering::Greater) => { lemma_join_b(inner_c::<A, B, E, F>(f, ab, bb), ta, tb, i, j, rs, lo); lo = tb[j].p()[0] + 1; j = j + 1; }
                //@ _ => { } } }
                if let (Some(a), Some(b)) = x? {
                    let r = inner_combine(&a, ab.clone(), &b, bb.clone(), f)?;
                    //@ let ghost tr = tv(r.nw(), Detached);
                    //@ proof { lemma_is_empty(r.nw(), Detached); lemma_join_ab(inner_c::<A, B, E, F>(f, ab, bb), ta, tb, i, j, rs, lo, tr); lo = ta[i].p()[0] + 1; i = i + 1; j = j + 1;
                    //@ if full(tr) { lemma_drepr_push(res@, Detached, rs, r, tr); rs = rs.push(tr); } }
                    if !r.is_empty() {
                        res.push(r);
                    }
                }
                //@ proof { ra = iter.a.rem(); rb = iter.b.rem(); }
            }
            //@ proof { lemma_join_done(inner_c::<A, B, E, F>(f, ab, bb), ta, tb, i, j, rs, lo); if res@.len() > 0 { assert(irepr(Rem::Data(res@), Detached, rs)); } else { assert(rs =~= Seq::empty()); } }
            if res.is_empty() {
                None
            } else {
                Some(Arc::new(res))
            }
        }
        _ => None,
    })
}
