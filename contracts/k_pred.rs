//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
//@pre #[verifier::rlimit(60)]
fn inner_combine_pred<A, B, E, F>(
    a: &TreeNodeRef<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<bool, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E> + Copy, {
    //@spec requires nok(*a, ab), nok(*b, bb), dec_ok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> qres(inner_q::<A, B, E, F>(f, ab, bb), tv(a.nw(), ab), tv(b.nw(), bb), r->Ok_0),
    //@spec decreases cnt(tv(a.nw(), ab)) + cnt(tv(b.nw(), bb)), 0nat,
    //@ broadcast use lemma_cload;
    //@ let ghost ta = tv(a.nw(), ab);
    //@ let ghost tb = tv(b.nw(), bb);
    //@ proof { lemma_canon_wf(ta); }
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cut_common(ta, tb, n as nat); }
    //@ let ghost ta1 = if n < ta.p().len() { cut(ta, n as nat) } else { ta };
    //@ let ghost tb1 = if n < tb.p().len() { cut(tb, n as nat) } else { tb };
    //@ let ghost sx = shorten(ta, n as nat); let ghost sy = shorten(tb, n as nat);
    //@ proof { if ta1.p() == tb1.p() { lemma_qnode(inner_q::<A, B, E, F>(f, ab, bb), ta, tb, ta1, tb1); } }
    if n == ap.len() && n == bp.len() {
        if let (Some(av), Some(bv)) = (a.value_opt(), b.value_opt()) {
            if f(&av, &bv)? {
                return Ok(true);
            }
        }
        let ac = a.load_children(&ab)?;
        let bc = b.load_children(&bb)?;
        //@ proof { assert(optl(ac, ab) =~= ta1.c()); assert(optl(bc, bb) =~= tb1.c()); }
        return inner_combine_children_pred(ac, ab, bc, bb, f);
    } else if n == ap.len() {
        let bc = b.clone_shortened(&bb, n)?;
        let bc = TreeNodeRef::owned(&bc);
        //@ let ghost mut i = 0int;
        //@ proof { assert(tb1.c() =~= seq![sy]); assert(ta1.c().skip(0) =~= ta1.c()); }
        if let Some(mut ac) = a.load_children(&ab)? {
            while let Some(ac) = ac.next() {
                //@~ while let Some(xx) = ac.next()
                //@~ invariant 0 <= i <= ta1.c().len(), ac.inv(), wfc(ta1.c()), irepr(ac.rem(), ab, ta1.c().skip(i)), forall|k: int| 0 <= k < i ==> qres(inner_q::<A, B, E, F>(f, ab, bb), #[trigger] ta1.c()[k], sy, false), ac.rem() is Bytes ==> ab.readable(),
                //@~ ensures i == ta1.c().len(),
                //@~ decreases ta1.c().len() - i,
                //@~ { let ac = xx;
                //@ proof { lemma_skip_one(ta1.c(), i); lemma_cnt(ta1.c(), i); assert(wfn(ta1.c()[i])); assert(good(ac.nw(), ab)); }
                if inner_combine_pred(&ac, ab.clone(), &bc, bb.clone(), f)? {
                    //@ proof { lemma_qsome_a(inner_q::<A, B, E, F>(f, ab, bb), ta1.c(), i, sy); }
                    return Ok(true);
                }
                //@ proof { i = i + 1; }
            }
        }
        //@ proof { lemma_qall_a(inner_q::<A, B, E, F>(f, ab, bb), ta1.c(), sy); }
    } else if n == bp.len() {
        let ac = a.clone_shortened(&ab, n)?;
        let ac = TreeNodeRef::owned(&ac);
        //@ let ghost mut i = 0int;
        //@ proof { assert(ta1.c() =~= seq![sx]); assert(tb1.c().skip(0) =~= tb1.c()); }
        if let Some(mut bc) = b.load_children(&bb)? {
            while let Some(bc) = bc.next() {
                //@~ while let Some(xx) = bc.next()
                //@~ invariant 0 <= i <= tb1.c().len(), bc.inv(), wfc(tb1.c()), irepr(bc.rem(), bb, tb1.c().skip(i)), forall|k: int| 0 <= k < i ==> qres(inner_q::<A, B, E, F>(f, ab, bb), sx, #[trigger] tb1.c()[k], false), bc.rem() is Bytes ==> bb.readable(),
                //@~ ensures i == tb1.c().len(),
                //@~ decreases tb1.c().len() - i,
                //@~ { let bc = xx;
                //@ proof { lemma_skip_one(tb1.c(), i); lemma_cnt(tb1.c(), i); assert(wfn(tb1.c()[i])); assert(good(bc.nw(), bb)); }
                if inner_combine_pred(&ac, ab.clone(), &bc, bb.clone(), f)? {
                    //@ proof { lemma_qsome_b(inner_q::<A, B, E, F>(f, ab, bb), sx, tb1.c(), i); }
                    return Ok(true);
                }
                //@ proof { i = i + 1; }
            }
        }
        //@ proof { lemma_qall_b(inner_q::<A, B, E, F>(f, ab, bb), sx, tb1.c()); }
    }
    //@ proof { if n < ta.p().len() && n < tb.p().len() { lemma_two_drop(none(inner_q::<A, B, E, F>(f, ab, bb)), sx, sy); assert(ta1.c() =~= seq![sx]); assert(tb1.c() =~= seq![sy]); } }
    Ok(false)
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::rlimit(60)]
//@pre #[verifier::allow_complex_invariants]
fn inner_combine_children_pred<A, B, E, F>(
    ac: Option<TreeNodeIter<A>>,
    ab: A,
    bc: Option<TreeNodeIter<B>>,
    bb: B,
    f: F,
) -> Result<bool, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E> + Copy, {
    //@spec requires optok(ac, ab), optok(bc, bb), dec_ok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> qresc(inner_q::<A, B, E, F>(f, ab, bb), optl(ac, ab), optl(bc, bb), r->Ok_0),
    //@spec decreases cntc(optl(ac, ab)) + cntc(optl(bc, bb)), 1nat,
    //@ let ghost ta = optl(ac, ab);
    //@ let ghost tb = optl(bc, bb);
    //@ proof { lemma_lists(none(inner_q::<A, B, E, F>(f, ab, bb)), ta); lemma_lists(none(inner_q::<A, B, E, F>(f, ab, bb)), tb); lemma_join_init(none(inner_q::<A, B, E, F>(f, ab, bb)), ta, tb); assert(ta.take(0) =~= Seq::empty()); assert(tb.take(0) =~= Seq::empty()); }
    if let (Some(ac), Some(bc)) = (ac, bc) {
        let mut iter = OuterJoin::<A, B, E>::new(ac, bc);
        //@ let ghost mut i = 0int; let ghost mut j = 0int; let ghost mut lo = 0int;
        //@ let ghost mut ra = iter.a.rem(); let ghost mut rb = iter.b.rem();
        //@ proof { assert(ta.skip(0) =~= ta); assert(tb.skip(0) =~= tb); }
        while let Some(x) = iter.next() {
            //@spec invariant jinv(none(inner_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo), iter.a.inv(), iter.b.inv(), ra == iter.a.rem(), rb == iter.b.rem(), irepr(ra, ab, ta.skip(i)), irepr(rb, bb, tb.skip(j)), ra is Bytes ==> ab.readable(), rb is Bytes ==> bb.readable(),
            //@spec dec_ok::<A, B, E, F>(f, ab, bb),
            //@spec ensures i == ta.len(), j == tb.len(),
            //@spec decreases ta.len() - i + tb.len() - j,
            //@ proof { lemma_heads(ra, ab, ta, i, rb, bb, tb, j);
            //@ match jcmp(hd(ta, i), hd(tb, j)) {
            //@ Some(Ordering::Less) => { lemma_join_a(none(inner_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo); lo = ta[i].p()[0] + 1; i = i + 1; }
            //@ Some(Ordering::Greater) => { lemma_join_b(none(inner_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo); lo = tb[j].p()[0] + 1; j = j + 1; }
            //@ _ => { } } }
            if let (Some(a), Some(b)) = x? {
                if inner_combine_pred(&a, ab.clone(), &b, bb.clone(), f)? {
                    //@ proof { lemma_qchild(inner_q::<A, B, E, F>(f, ab, bb), ta, tb, i, j); }
                    return Ok(true);
                }
                //@ proof { lemma_join_ab(none(inner_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo, t_empty()); lemma_wf_full(t_empty()); lo = ta[i].p()[0] + 1; i = i + 1; j = j + 1; }
            }
            //@ proof { ra = iter.a.rem(); rb = iter.b.rem(); }
        }
        //@ proof { lemma_join_done(none(inner_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo); }
    }
    Ok(false)
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
//@pre #[verifier::rlimit(60)]
fn left_combine_pred<A, B, E, F>(
    a: &TreeNodeRef<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<bool, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E> + Copy, {
    //@spec requires nok(*a, ab), nok(*b, bb), dec_ok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> qres(left_q::<A, B, E, F>(f, ab, bb), tv(a.nw(), ab), tv(b.nw(), bb), r->Ok_0),
    //@spec decreases cnt(tv(a.nw(), ab)) + cnt(tv(b.nw(), bb)), 0nat,
    //@ broadcast use lemma_cload;
    //@ let ghost ta = tv(a.nw(), ab);
    //@ let ghost tb = tv(b.nw(), bb);
    //@ proof { lemma_canon_wf(ta); }
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cut_common(ta, tb, n as nat); }
    //@ let ghost ta1 = if n < ta.p().len() { cut(ta, n as nat) } else { ta };
    //@ let ghost tb1 = if n < tb.p().len() { cut(tb, n as nat) } else { tb };
    //@ let ghost sx = shorten(ta, n as nat); let ghost sy = shorten(tb, n as nat);
    //@ proof { if ta1.p() == tb1.p() { lemma_qnode(left_q::<A, B, E, F>(f, ab, bb), ta, tb, ta1, tb1); } }
    if n == ap.len() && n == bp.len() {
        match (a.value_opt(), b.value_opt()) {
            (Some(av), Some(bv)) => {
                if f(&av, &bv)? {
                    return Ok(true);
                }
            }
            (Some(_), None) => return Ok(true),
            _ => {}
        }
        let ac = a.load_children(&ab)?;
        let bc = b.load_children(&bb)?;
        //@ proof { assert(optl(ac, ab) =~= ta1.c()); assert(optl(bc, bb) =~= tb1.c()); }
        left_combine_children_pred(ac, ab, bc, bb, f)
    } else if n == ap.len() {
        if a.value_opt().is_some() {
            return Ok(true);
        };
        let ac = a.load_children(&ab)?;
        let bc = [b.clone_shortened(&bb, n)?];
        //@ proof { assert(optl(ac, ab) =~= ta1.c()); lemma_drepr_one(bc@, bb, shorten(tb, n as nat)); assert(tb1.c() =~= seq![shorten(tb, n as nat)]); }
        left_combine_children_pred(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)
    } else if n == bp.len() {
        let ac = [a.clone_shortened(&ab, n)?];
        let bc = b.load_children(&bb)?;
        //@ proof { lemma_drepr_one(ac@, ab, shorten(ta, n as nat)); assert(ta1.c() =~= seq![shorten(ta, n as nat)]); assert(optl(bc, bb) =~= tb1.c()); }
        left_combine_children_pred(TreeNodeIter::from_slice(&ac), ab, bc, bb, f)
    } else {
        //@ proof { lemma_disjoint(ta, tb, n as nat); let k = lemma_some_key(ta); assert(lk(ta, k) is None || lk(tb, k) is None); assert(qk(left_q::<A, B, E, F>(f, ab, bb), ta, tb, k)); }
        Ok(true)
    }
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::rlimit(60)]
//@pre #[verifier::allow_complex_invariants]
fn left_combine_children_pred<A, B, E, F>(
    ac: Option<TreeNodeIter<A>>,
    ab: A,
    bc: Option<TreeNodeIter<B>>,
    bb: B,
    f: F,
) -> Result<bool, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E> + Copy, {
    //@spec requires optok(ac, ab), optok(bc, bb), dec_ok::<A, B, E, F>(f, ab, bb), ac is Some ==> optl(ac, ab).len() > 0,
    //@spec ensures r is Ok ==> qresc(left_q::<A, B, E, F>(f, ab, bb), optl(ac, ab), optl(bc, bb), r->Ok_0),
    //@spec decreases cntc(optl(ac, ab)) + cntc(optl(bc, bb)), 1nat,
    //@ let ghost ta = optl(ac, ab);
    //@ let ghost tb = optl(bc, bb);
    //@ proof { lemma_lists(none(left_q::<A, B, E, F>(f, ab, bb)), ta); lemma_lists(none(left_q::<A, B, E, F>(f, ab, bb)), tb); lemma_join_init(none(left_q::<A, B, E, F>(f, ab, bb)), ta, tb); assert(ta.take(0) =~= Seq::empty()); assert(tb.take(0) =~= Seq::empty()); }
    match (ac, bc) {
        (Some(ac), Some(bc)) => {
            let mut iter = OuterJoin::<A, B, E>::new(ac, bc);
            //@ let ghost mut i = 0int; let ghost mut j = 0int; let ghost mut lo = 0int;
            //@ let ghost mut ra = iter.a.rem(); let ghost mut rb = iter.b.rem();
            //@ proof { assert(ta.skip(0) =~= ta); assert(tb.skip(0) =~= tb); }
            while let Some(x) = iter.next() {
                //@spec invariant jinv(none(left_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo), iter.a.inv(), iter.b.inv(), ra == iter.a.rem(), rb == iter.b.rem(), irepr(ra, ab, ta.skip(i)), irepr(rb, bb, tb.skip(j)), ra is Bytes ==> ab.readable(), rb is Bytes ==> bb.readable(),
                //@spec dec_ok::<A, B, E, F>(f, ab, bb),
                //@spec ensures i == ta.len(), j == tb.len(),
                //@spec decreases ta.len() - i + tb.len() - j,
                //@ proof { lemma_heads(ra, ab, ta, i, rb, bb, tb, j);
                //@ match jcmp(hd(ta, i), hd(tb, j)) {
                //@ Some(Ordering::Less) => { lemma_qleft(left_q::<A, B, E, F>(f, ab, bb), ta, tb, i, j, lo); }
                //@ Some(Ordering::Greater) => { lemma_join_b(none(left_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo); lo = tb[j].p()[0] + 1; j = j + 1; }
                //@ _ => { } } }
                match x? {
                    (Some(a), Some(b)) => {
                        if left_combine_pred(&a, ab.clone(), &b, bb.clone(), f)? {
                            //@ proof { lemma_qchild(left_q::<A, B, E, F>(f, ab, bb), ta, tb, i, j); }
                            return Ok(true);
                        }
                        //@ proof { lemma_join_ab(none(left_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo, t_empty()); lemma_wf_full(t_empty()); lo = ta[i].p()[0] + 1; i = i + 1; j = j + 1; }
                    }
                    (Some(_), None) => return Ok(true),
                    _ => {}
                }
                //@ proof { ra = iter.a.rem(); rb = iter.b.rem(); }
            }
            //@ proof { lemma_join_done(none(left_q::<A, B, E, F>(f, ab, bb)), ta, tb, i, j, Seq::empty(), lo); }
        }
        (Some(_), None) => return Ok(true),
        //@~ (Some(_), None) => { proof { lemma_qleft(left_q::<A, B, E, F>(f, ab, bb), ta, tb, 0, 0, 0); } return Ok(true); }
        _ => {}
    }
    Ok(false)
}
