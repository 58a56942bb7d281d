//@pre #[verifier::rlimit(40)]
fn retain_prefix_with<A, B, F>(
    a: &mut TreeNode<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<(), A::Error>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
    A::Error: From<B::Error>, {
    //@spec requires old(a).inv(), good(old(a).nw(), ab), nok(*b, bb), accepts_ok::<B, A::Error, F>(f, bb),
    //@spec ensures r is Ok ==> final(a).inv() && good(final(a).nw(), ab) && pm(accepts::<B, A::Error, F>(f, bb), kp(true), tv(old(a).nw(), ab), tv(b.nw(), bb), tv(final(a).nw(), ab)),
    //@spec r is Err ==> final(a).inv() && rep(final(a).nw(), ab) && final(a).nw().tight(), r is Err && !compressed() ==> good(final(a).nw(), ab) && pm(accepts::<B, A::Error, F>(f, bb), ke(true), tv(old(a).nw(), ab), tv(b.nw(), bb), tv(final(a).nw(), ab)),
    //@spec decreases cnt(tv(old(a).nw(), ab)) + cnt(tv(b.nw(), bb)), 0nat,
    //@ broadcast use lemma_cload;
    //@ let ghost ta = tv(a.nw(), ab);
    //@ let ghost tb = tv(b.nw(), bb);
    //@ proof { lemma_pm_half(accepts::<B, A::Error, F>(f, bb), true, ta, tb, ta); }
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cut_common(ta, tb, n as nat); lemma_cpl(ta.p(), tb.p()); }
    //@ let ghost mut t2 = ta; let ghost n0 = a.nw();
    //@ let ghost ta1 = if n < ta.p().len() { cut(ta, n as nat) } else { ta };
    //@ let ghost tb1 = if n < tb.p().len() { cut(tb, n as nat) } else { tb };
    let res = if n == ap.len() && n == bp.len() {
        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
            let bc = b.load_children(&bb)?;
            a.set_value_slice(None);
            //@ let ghost z = rv(ab, a.nw().v);
            //@ let ghost n1 = a.nw();
            //@ proof { assert(tb1.v() is Some ==> accepts::<B, A::Error, F>(f, bb)(tb1.v()->0, false)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_pstuck(accepts::<B, A::Error, F>(f, bb), true, n1, ab, ta, tb, ta1, tb1, z); }
            let ac = a.load_children_mut(&ab)?;
            //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); assert(optl(bc, bb) =~= tb1.c()); }
            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)
            //@~ let res = retain_prefix_children_with(ac, ab.clone(), bc, bb, f);
            //@~ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), ke(true), ta, tb, ta1, tb1, t2); } }
            //@~ res
        } else {
            Ok(())
        }
    } else if n == bp.len() {
        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
            let bc = b.load_children(&bb)?;
            a.split(&ab, n)?;
            //@ let ghost z = rv(ab, a.nw().v);
            //@ let ghost n1 = a.nw();
            //@ proof { assert(tb1.v() is Some ==> accepts::<B, A::Error, F>(f, bb)(tb1.v()->0, false)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_pstuck(accepts::<B, A::Error, F>(f, bb), true, n1, ab, ta, tb, ta1, tb1, z); }
            let ac = a.load_children_mut(&ab)?;
            //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); assert(optl(bc, bb) =~= tb1.c()); }
            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)
            //@~ let res = retain_prefix_children_with(ac, ab.clone(), bc, bb, f);
            //@~ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), ke(true), ta, tb, ta1, tb1, t2); } }
            //@~ res
        } else {
            Ok(())
        }
    } else if n == ap.len() {
        let bc = [b.clone_shortened(&bb, n)?];
        a.set_value_slice(None);
        //@ let ghost z = rv(ab, a.nw().v);
        //@ let ghost n1 = a.nw();
        //@ proof { assert(tb1.v() is Some ==> accepts::<B, A::Error, F>(f, bb)(tb1.v()->0, false)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_pstuck(accepts::<B, A::Error, F>(f, bb), true, n1, ab, ta, tb, ta1, tb1, z); }
        let ac = a.load_children_mut(&ab)?;
        //@ proof { lemma_drepr_one(bc@, bb, shorten(tb, n as nat)); }
        //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); }
        retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)
        //@~ let res = retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f);
        //@~ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), ke(true), ta, tb, ta1, tb1, t2); } }
        //@~ res
    } else {
        a.set_value_slice(None);
        a.set_children_arc_opt(None);
        //@ proof { lemma_pnode_disjoint(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, n as nat); t2 = T::Node { p: ta.p(), v: None, c: Seq::empty() }; lemma_mk(a.nw(), ab, ta.p(), None, Seq::empty()); assert(wfc(Seq::<T>::empty())); assert(canon(t2) == t_empty()); lemma_wf_full(t2); }
        Ok(())
    };
    //@ proof { if n == tb.p().len() && a.nw() == n0 { if tb.v() is Some && accepts::<B, A::Error, F>(f, bb)(tb.v()->0, true) { assert(tb.p() =~= ta.p().take(n as int)); lemma_pnode_hit(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb); } } assert(repr(a.nw(), ab, t2)); }
    //@ proof { if res is Ok { lemma_pm_canonized(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, a.nw(), ab); lemma_pm_half(accepts::<B, A::Error, F>(f, bb), true, ta, tb, t2); } if !compressed() { lemma_pm_canonized(accepts::<B, A::Error, F>(f, bb), ke(true), ta, tb, a.nw(), ab); } }
    a.canonicalize(&ab)?;
    res
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::rlimit(60)]
//@pre #[verifier::allow_complex_invariants]
fn retain_prefix_children_with<'a, A, B, F>(
    ac: &'a mut Vec<TreeNode<A>>,
    ab: A,
    bc: Option<TreeNodeIter<'a, B>>,
    bb: B,
    f: F,
) -> Result<(), A::Error>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
    A::Error: From<B::Error>, {
    //@spec requires irep(Rem::Data(old(ac)@), ab), wfc(itv(Rem::Data(old(ac)@), ab)), optok(bc, bb), accepts_ok::<B, A::Error, F>(f, bb),
    //@spec ensures r is Ok ==> irep(Rem::Data(final(ac)@), ab) && wfc(itv(Rem::Data(final(ac)@), ab)) && pmc(accepts::<B, A::Error, F>(f, bb), kp(true), itv(Rem::Data(old(ac)@), ab), optl(bc, bb), itv(Rem::Data(final(ac)@), ab)),
    //@spec r is Err ==> irep(Rem::Data(final(ac)@), ab), r is Err && !compressed() ==> wfc(itv(Rem::Data(final(ac)@), ab)) && pmc(accepts::<B, A::Error, F>(f, bb), ke(true), itv(Rem::Data(old(ac)@), ab), optl(bc, bb), itv(Rem::Data(final(ac)@), ab)),
    //@spec decreases cntc(itv(Rem::Data(old(ac)@), ab)) + cntc(optl(bc, bb)), 1nat,
    //@ let ghost ta = itv(Rem::Data(ac@), ab);
    //@ let ghost tb = optl(bc, bb);
    //@ proof { assert(ac.len() <= usize::MAX); }
    //@ proof { lemma_plists(accepts::<B, A::Error, F>(f, bb), kp(true), ta); lemma_plists(accepts::<B, A::Error, F>(f, bb), kp(true), tb); }
    if let Some(bc) = bc {
        if ac.is_empty() {
            //@ proof { assert(ta =~= Seq::empty()); }
            return Ok(());
        }
        let mut acb = InPlaceVecBuilder::from(ac);
        let mut bci = bc;
        //@ let ghost fin = acb.fin();
        //@ let ghost mut i = 0int; let ghost mut j = 0int; let ghost mut lo = 0int; let ghost mut rs = Seq::<T>::empty();
        //@ proof { lemma_pjoin_init(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb); assert(ta.skip(0) =~= ta); assert(tb.skip(0) =~= tb); lemma_drepr_nil(acb.tgt(), ab); }
        while let Some(ordering) = cmp(&acb, &mut bci) {
            //@spec invariant pjinv(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, i, j, rs, lo), acb.fin() == fin, bci.inv(), drepr(acb.src(), ab, ta.skip(i)), drepr(acb.tgt(), ab, rs), irepr(bci.rem(), bb, tb.skip(j)),
            //@spec accepts_ok::<B, A::Error, F>(f, bb),
            //@spec ensures i == ta.len(), j == tb.len(),
            //@spec decreases ta.len() - i + tb.len() - j,
            //@ let ghost s0 = acb.src(); let ghost t0 = acb.tgt(); let ghost n0 = bci.rem(); let ghost rs0 = rs;
            //@ proof { lemma_heads(Rem::Data(s0), ab, ta, i, n0, bb, tb, j); }
            match ordering {
                Ordering::Less => {
                    acb.consume(1, false);
                    //@ proof { lemma_pjoin_a(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, i, j, rs, lo); lo = ta[i].p()[0] + 1; i = i + 1; }
                }
                Ordering::Equal => {
                    let ac = acb.source_slice_mut().get_mut(0).unwrap();
                    //@ assert(s0[0].inv()); assert(*ac == s0[0]); assert(ac.nw() == s0[0].nw()); assert(rem_head(Rem::Data(s0)) == Some(s0[0].nw())); assert(good(ac.nw(), ab));
                    let bc = bci.next().unwrap();
                    let res = retain_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
                    let non_empty = !ac.is_empty();
                    //@ let ghost r1 = tv(ac.nw(), ab); let ghost a1 = *ac;
                    //@ proof { lemma_is_empty(ac.nw(), ab); lemma_drepr_push(t0, ab, rs, a1, r1); if res is Ok { lemma_pjoin_ab(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, i, j, rs, lo, r1); } else if !compressed() { lemma_pjinv_half(accepts::<B, A::Error, F>(f, bb), true, ta, tb, i, j, rs, lo); lemma_pjoin_ab(accepts::<B, A::Error, F>(f, bb), ke(true), ta, tb, i, j, rs, lo, r1); } }
                    acb.consume(1, non_empty);
                    //@ proof { assert(acb.src() =~= s0.skip(1)); assert(acb.tgt() =~= (if non_empty { t0.push(a1) } else { t0 })); if non_empty { rs = rs.push(r1); } lo = ta[i].p()[0] + 1; i = i + 1; j = j + 1; }
                    if res.is_err() {
                        //@ let ghost s1 = acb.src(); let ghost t1 = acb.tgt();
                        acb.consume(usize::MAX, true);
                        //@ proof { assert(acb.tgt() =~= t1 + s1); lemma_drepr_cat(t1, s1, ab, rs, ta.skip(i)); assert(irepr(Rem::Data(acb.tgt()), ab, rs + ta.skip(i))); if !compressed() { lemma_prest(accepts::<B, A::Error, F>(f, bb), true, ta, tb, i, j, rs, lo); } }
                        //@ acb.done();
                        return res;
                    }
                }
                Ordering::Greater => {
                    let _ = bci.next().unwrap();
                    //@ proof { lemma_pjoin_b(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, i, j, rs, lo); lo = tb[j].p()[0] + 1; j = j + 1; }
                }
            }
        }
        //@ acb.done();
        //@ proof { assert(irepr(Rem::Data(fin), ab, rs)); }
        //@ proof { lemma_pjoin_done(accepts::<B, A::Error, F>(f, bb), kp(true), ta, tb, i, j, rs, lo); }
    } else {
        ac.clear();
        //@ proof { lemma_drepr_nil(ac@, ab); assert(irepr(Rem::Data(ac@), ab, Seq::empty())); assert(wfc(Seq::<T>::empty())); }
    }
    Ok(())
}

//@pre #[verifier::rlimit(40)]
fn remove_prefix_with<A, B, F>(
    a: &mut TreeNode<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<(), A::Error>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
    A::Error: From<B::Error>, {
    //@spec requires old(a).inv(), good(old(a).nw(), ab), nok(*b, bb), accepts_ok::<B, A::Error, F>(f, bb),
    //@spec ensures r is Ok ==> final(a).inv() && good(final(a).nw(), ab) && pm(accepts::<B, A::Error, F>(f, bb), kp(false), tv(old(a).nw(), ab), tv(b.nw(), bb), tv(final(a).nw(), ab)),
    //@spec r is Err ==> final(a).inv() && rep(final(a).nw(), ab) && final(a).nw().tight(), r is Err && !compressed() ==> good(final(a).nw(), ab) && pm(accepts::<B, A::Error, F>(f, bb), ke(false), tv(old(a).nw(), ab), tv(b.nw(), bb), tv(final(a).nw(), ab)),
    //@spec decreases cnt(tv(old(a).nw(), ab)) + cnt(tv(b.nw(), bb)), 0nat,
    //@ broadcast use lemma_cload;
    //@ let ghost ta = tv(a.nw(), ab);
    //@ let ghost tb = tv(b.nw(), bb);
    //@ proof { lemma_pm_half(accepts::<B, A::Error, F>(f, bb), false, ta, tb, ta); }
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cut_common(ta, tb, n as nat); lemma_cpl(ta.p(), tb.p()); }
    //@ let ghost mut t2 = ta;
    //@ let ghost ta1 = if n < ta.p().len() { cut(ta, n as nat) } else { ta };
    //@ let ghost tb1 = if n < tb.p().len() { cut(tb, n as nat) } else { tb };
    let res = if n == ap.len() && n == bp.len() {
        if b.value_opt().is_some() && f(&b.value_opt().unwrap())? {
            a.set_value_slice(None);
            a.set_children_arc_opt(None);
            //@ proof { assert(accepts::<B, A::Error, F>(f, bb)(tb.v()->0, true)); assert(tb.p().is_prefix_of(ta.p())) by { assert(tb.p() =~= ta.p().take(n as int)); } lemma_pnode_hit(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb); t2 = T::Node { p: ta.p(), v: None, c: Seq::empty() }; lemma_mk(a.nw(), ab, ta.p(), None, Seq::empty()); assert(wfc(Seq::<T>::empty())); assert(canon(t2) == t_empty()); lemma_wf_full(t2); lemma_pm_nil(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, t2); }
            Ok(())
        } else {
            //@ let ghost z = rv(ab, a.nw().v);
            //@ let ghost n1 = a.nw();
            //@ proof { assert(tb1.v() is Some ==> accepts::<B, A::Error, F>(f, bb)(tb1.v()->0, false)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_pstuck(accepts::<B, A::Error, F>(f, bb), false, n1, ab, ta, tb, ta1, tb1, z); }
            let bc = b.load_children(&bb)?;
            let ac = a.load_children_mut(&ab)?;
            //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); assert(optl(bc, bb) =~= tb1.c()); }
            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)
            //@~ let res = remove_prefix_children_with(ac, ab.clone(), bc, bb, f);
            //@~ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), ke(false), ta, tb, ta1, tb1, t2); } }
            //@~ res
        }
    } else if n == bp.len() {
        if b.value_opt().is_some() && f(&b.value_opt().unwrap())? {
            a.set_value_slice(None);
            a.set_children_arc_opt(None);
            //@ proof { assert(accepts::<B, A::Error, F>(f, bb)(tb.v()->0, true)); assert(tb.p().is_prefix_of(ta.p())) by { assert(tb.p() =~= ta.p().take(n as int)); } lemma_pnode_hit(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb); t2 = T::Node { p: ta.p(), v: None, c: Seq::empty() }; lemma_mk(a.nw(), ab, ta.p(), None, Seq::empty()); assert(wfc(Seq::<T>::empty())); assert(canon(t2) == t_empty()); lemma_wf_full(t2); lemma_pm_nil(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, t2); }
            Ok(())
        } else {
            let bc = b.load_children(&bb)?;
            a.split(&ab, n)?;
            //@ let ghost z = rv(ab, a.nw().v);
            //@ let ghost n1 = a.nw();
            //@ proof { assert(tb1.v() is Some ==> accepts::<B, A::Error, F>(f, bb)(tb1.v()->0, false)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_pstuck(accepts::<B, A::Error, F>(f, bb), false, n1, ab, ta, tb, ta1, tb1, z); }
            let ac = a.load_children_mut(&ab)?;
            //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); assert(optl(bc, bb) =~= tb1.c()); }
            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)
            //@~ let res = remove_prefix_children_with(ac, ab.clone(), bc, bb, f);
            //@~ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), ke(false), ta, tb, ta1, tb1, t2); } }
            //@~ res
        }
    } else if n == ap.len() {
        //@ let ghost z = rv(ab, a.nw().v);
        //@ let ghost n1 = a.nw();
        //@ proof { assert(tb1.v() is Some ==> accepts::<B, A::Error, F>(f, bb)(tb1.v()->0, false)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_pstuck(accepts::<B, A::Error, F>(f, bb), false, n1, ab, ta, tb, ta1, tb1, z); }
        let bc = [b.clone_shortened(&bb, n)?];
        let ac = a.load_children_mut(&ab)?;
        //@ proof { lemma_drepr_one(bc@, bb, shorten(tb, n as nat)); }
        //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); }
        remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)
        //@~ let res = remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f);
        //@~ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_pm_mid(accepts::<B, A::Error, F>(f, bb), ke(false), ta, tb, ta1, tb1, t2); } }
        //@~ res
    } else {
        //@ proof { lemma_pnode_disjoint(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, n as nat); }
        Ok(())
    };
    //@ proof { assert(repr(a.nw(), ab, t2)); }
    //@ proof { if res is Ok { lemma_pm_canonized(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, a.nw(), ab); lemma_pm_half(accepts::<B, A::Error, F>(f, bb), false, ta, tb, t2); } if !compressed() { lemma_pm_canonized(accepts::<B, A::Error, F>(f, bb), ke(false), ta, tb, a.nw(), ab); } }
    a.canonicalize(&ab)?;
    res
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::rlimit(60)]
//@pre #[verifier::allow_complex_invariants]
fn remove_prefix_children_with<'a, A, B, F>(
    ac: &'a mut Vec<TreeNode<A>>,
    ab: A,
    bc: Option<TreeNodeIter<'a, B>>,
    bb: B,
    f: F,
) -> Result<(), A::Error>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    F: Fn(&ValueRef<B>) -> Result<bool, A::Error> + Copy,
    A::Error: From<B::Error>, {
    //@spec requires irep(Rem::Data(old(ac)@), ab), wfc(itv(Rem::Data(old(ac)@), ab)), optok(bc, bb), accepts_ok::<B, A::Error, F>(f, bb),
    //@spec ensures r is Ok ==> irep(Rem::Data(final(ac)@), ab) && wfc(itv(Rem::Data(final(ac)@), ab)) && pmc(accepts::<B, A::Error, F>(f, bb), kp(false), itv(Rem::Data(old(ac)@), ab), optl(bc, bb), itv(Rem::Data(final(ac)@), ab)),
    //@spec r is Err ==> irep(Rem::Data(final(ac)@), ab), r is Err && !compressed() ==> wfc(itv(Rem::Data(final(ac)@), ab)) && pmc(accepts::<B, A::Error, F>(f, bb), ke(false), itv(Rem::Data(old(ac)@), ab), optl(bc, bb), itv(Rem::Data(final(ac)@), ab)),
    //@spec decreases cntc(itv(Rem::Data(old(ac)@), ab)) + cntc(optl(bc, bb)), 1nat,
    //@ let ghost ta = itv(Rem::Data(ac@), ab);
    //@ let ghost tb = optl(bc, bb);
    //@ proof { assert(ac.len() <= usize::MAX); }
    //@ proof { lemma_plists(accepts::<B, A::Error, F>(f, bb), kp(false), ta); lemma_plists(accepts::<B, A::Error, F>(f, bb), kp(false), tb); }
    if let Some(bc) = bc {
        if ac.is_empty() {
            //@ proof { assert(ta =~= Seq::empty()); }
            return Ok(());
        }
        let mut acb = InPlaceVecBuilder::from(ac);
        let mut bci = bc;
        //@ let ghost fin = acb.fin();
        //@ let ghost mut i = 0int; let ghost mut j = 0int; let ghost mut lo = 0int; let ghost mut rs = Seq::<T>::empty();
        //@ proof { lemma_pjoin_init(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb); assert(ta.skip(0) =~= ta); assert(tb.skip(0) =~= tb); lemma_drepr_nil(acb.tgt(), ab); }
        while let Some(ordering) = cmp(&acb, &mut bci) {
            //@spec invariant pjinv(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, i, j, rs, lo), acb.fin() == fin, bci.inv(), drepr(acb.src(), ab, ta.skip(i)), drepr(acb.tgt(), ab, rs), irepr(bci.rem(), bb, tb.skip(j)),
            //@spec accepts_ok::<B, A::Error, F>(f, bb),
            //@spec ensures i == ta.len(), j == tb.len(),
            //@spec decreases ta.len() - i + tb.len() - j,
            //@ let ghost s0 = acb.src(); let ghost t0 = acb.tgt(); let ghost n0 = bci.rem(); let ghost rs0 = rs;
            //@ proof { lemma_heads(Rem::Data(s0), ab, ta, i, n0, bb, tb, j); }
            match ordering {
                Ordering::Less => {
                    acb.consume(1, true);
                    //@ proof { lemma_pjoin_a(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, i, j, rs, lo); lemma_drepr_push(t0, ab, rs, s0[0], ta[i]); assert(acb.tgt() =~= t0.push(s0[0])); rs = rs.push(ta[i]); lo = ta[i].p()[0] + 1; i = i + 1; }
                }
                Ordering::Equal => {
                    let ac = acb.source_slice_mut().get_mut(0).unwrap();
                    //@ assert(s0[0].inv()); assert(*ac == s0[0]); assert(ac.nw() == s0[0].nw()); assert(rem_head(Rem::Data(s0)) == Some(s0[0].nw())); assert(good(ac.nw(), ab));
                    let bc = bci.next().unwrap();
                    let res = remove_prefix_with(ac, ab.clone(), &bc, bb.clone(), f);
                    let non_empty = !ac.is_empty();
                    //@ let ghost r1 = tv(ac.nw(), ab); let ghost a1 = *ac;
                    //@ proof { lemma_is_empty(ac.nw(), ab); lemma_drepr_push(t0, ab, rs, a1, r1); if res is Ok { lemma_pjoin_ab(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, i, j, rs, lo, r1); } else if !compressed() { lemma_pjinv_half(accepts::<B, A::Error, F>(f, bb), false, ta, tb, i, j, rs, lo); lemma_pjoin_ab(accepts::<B, A::Error, F>(f, bb), ke(false), ta, tb, i, j, rs, lo, r1); } }
                    acb.consume(1, non_empty);
                    //@ proof { assert(acb.src() =~= s0.skip(1)); assert(acb.tgt() =~= (if non_empty { t0.push(a1) } else { t0 })); if non_empty { rs = rs.push(r1); } lo = ta[i].p()[0] + 1; i = i + 1; j = j + 1; }
                    if res.is_err() {
                        //@ let ghost s1 = acb.src(); let ghost t1 = acb.tgt();
                        acb.consume(usize::MAX, true);
                        //@ proof { assert(acb.tgt() =~= t1 + s1); lemma_drepr_cat(t1, s1, ab, rs, ta.skip(i)); assert(irepr(Rem::Data(acb.tgt()), ab, rs + ta.skip(i))); if !compressed() { lemma_prest(accepts::<B, A::Error, F>(f, bb), false, ta, tb, i, j, rs, lo); } }
                        //@ acb.done();
                        return res;
                    }
                }
                Ordering::Greater => {
                    let _ = bci.next().unwrap();
                    //@ proof { lemma_pjoin_b(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, i, j, rs, lo); lo = tb[j].p()[0] + 1; j = j + 1; }
                }
            }
        }
        //@ acb.done();
        //@ proof { assert(irepr(Rem::Data(fin), ab, rs)); }
        //@ proof { lemma_pjoin_done(accepts::<B, A::Error, F>(f, bb), kp(false), ta, tb, i, j, rs, lo); }
    }
    Ok(())
}
