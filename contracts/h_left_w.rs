//@pre #[verifier::rlimit(40)]
fn left_combine_with<A, B, C, F>(
    a: &mut TreeNode<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    c: C,
    f: F,
) -> Result<(), A::Error>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    C: NodeConverter<B, A> + Clone,
    A::Error: From<B::Error>,
    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy, {
    //@spec requires old(a).inv(), good(old(a).nw(), ab), nok(*b, bb), C::conv_ok(bb, ab), with_ok::<A, B, A::Error, F>(f, ab, bb),
    //@spec ensures r is Ok ==> final(a).inv() && good(final(a).nw(), ab) && merged(left_w::<A, B, A::Error, F>(f, ab, bb), tv(old(a).nw(), ab), tv(b.nw(), bb), tv(final(a).nw(), ab)),
    //@spec r is Err ==> final(a).inv() && rep(final(a).nw(), ab) && final(a).nw().tight(), r is Err && !compressed() ==> good(final(a).nw(), ab) && merged(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), tv(old(a).nw(), ab), tv(b.nw(), bb), tv(final(a).nw(), ab)),
    //@spec decreases cnt(tv(old(a).nw(), ab)) + cnt(tv(b.nw(), bb)), 0nat,
    //@ broadcast use lemma_cload;
    //@ let ghost ta = tv(a.nw(), ab);
    //@ let ghost tb = tv(b.nw(), bb);
    //@ proof { lemma_half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb); lemma_lazy(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb); }
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cut_common(ta, tb, n as nat); }
    //@ let ghost mut t2 = ta;
    //@ let ghost ta1 = if n < ta.p().len() { cut(ta, n as nat) } else { ta };
    //@ let ghost tb1 = if n < tb.p().len() { cut(tb, n as nat) } else { tb };
    let res = if n == ap.len() && n == bp.len() {
        let bc = b.load_children(&bb)?;
        let mut res = Ok(());
        if let Some(bv) = b.value_opt() {
            if let Some(mut av) = a.take_value_opt() {
                res = f(&mut av, &bv);
                //@ proof { if res is Ok { lemma_unit(res); } }
                a.set_value_owned(av.as_value_ref().0);
            }
        }
        //@ let ghost z = rv(ab, a.nw().v);
        //@ let ghost n1 = a.nw();
        //@ proof { assert(res is Ok ==> left_w::<A, B, A::Error, F>(f, ab, bb)(ta1.v(), tb1.v(), z)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_stuck(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), n1, ab, ta, tb, ta1, tb1, z); t2 = tv(n1, ab); }
        if res.is_ok() {
            let ac = a.load_children_mut(&ab)?;
            //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); assert(optl(bc, bb) =~= tb1.c()); }
            res = left_combine_children_with(ac, ab.clone(), bc, bb, c, f);
            //@ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_merge_mid(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_merge_mid(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb, ta1, tb1, t2); } }
        }
        res
    } else if n == ap.len() {
        //@ let ghost z = rv(ab, a.nw().v);
        //@ let ghost n1 = a.nw();
        //@ proof { assert(left_w::<A, B, A::Error, F>(f, ab, bb)(ta1.v(), tb1.v(), z)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_stuck(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), n1, ab, ta, tb, ta1, tb1, z); t2 = tv(n1, ab); }
        let bc = [b.clone_shortened(&bb, n)?];
        let ac = a.load_children_mut(&ab)?;
        //@ proof { lemma_drepr_one(bc@, bb, shorten(tb, n as nat)); }
        //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); }
        left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)
        //@~ let res = left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f);
        //@~ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_merge_mid(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_merge_mid(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb, ta1, tb1, t2); } }
        //@~ res
    } else if n == bp.len() {
        let bc = b.load_children(&bb)?;
        a.split(&ab, n)?;
        //@ let ghost z = rv(ab, a.nw().v);
        //@ let ghost n1 = a.nw();
        //@ proof { assert(left_w::<A, B, A::Error, F>(f, ab, bb)(ta1.v(), tb1.v(), z)); lemma_mk(a.nw(), ab, ta1.p(), z, ta1.c()); lemma_stuck(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), n1, ab, ta, tb, ta1, tb1, z); t2 = tv(n1, ab); }
        let ac = a.load_children_mut(&ab)?;
        //@ proof { assert(irepr(Rem::Data(ac@), ab, ta1.c())); assert(optl(bc, bb) =~= tb1.c()); }
        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)
        //@~ let res = left_combine_children_with(ac, ab.clone(), bc, bb, c, f);
        //@~ proof { lemma_with_children(n1, a.nw(), ab); t2 = with_c(tv(n1, ab), itv(Rem::Data(a.nw().c->Data_0), ab)); if res is Ok { lemma_merge_mid(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, ta1, tb1, t2); } else if !compressed() { lemma_merge_mid(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb, ta1, tb1, t2); } }
        //@~ res
    } else {
        //@ proof { lemma_disjoint(ta, tb, n as nat); lemma_canon_wf(ta); assert forall|k: Seq<u8>| #[trigger] mk(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, ta, k) by { } }
        Ok(())
    };
    //@ proof { assert(repr(a.nw(), ab, t2)); if res is Ok { lemma_merged_canonized(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, a.nw(), ab); lemma_merged_weaken(left_w::<A, B, A::Error, F>(f, ab, bb), half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb, t2); } if !compressed() { lemma_merged_canonized(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb, a.nw(), ab); } }
    a.canonicalize(&ab)?;
    res
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
fn left_combine_children_with<'a, A, B, C, F>(
    ac: &'a mut Vec<TreeNode<A>>,
    ab: A,
    bc: Option<TreeNodeIter<'a, B>>,
    bb: B,
    c: C,
    f: F,
) -> Result<(), A::Error>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    C: NodeConverter<B, A> + Clone,
    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
    A::Error: From<B::Error>, {
    //@spec requires irep(Rem::Data(old(ac)@), ab), wfc(itv(Rem::Data(old(ac)@), ab)), optok(bc, bb), C::conv_ok(bb, ab), with_ok::<A, B, A::Error, F>(f, ab, bb),
    //@spec ensures r is Ok ==> irep(Rem::Data(final(ac)@), ab) && wfc(itv(Rem::Data(final(ac)@), ab)) && mergedc(left_w::<A, B, A::Error, F>(f, ab, bb), itv(Rem::Data(old(ac)@), ab), optl(bc, bb), itv(Rem::Data(final(ac)@), ab)),
    //@spec r is Err ==> irep(Rem::Data(final(ac)@), ab), r is Err && !compressed() ==> wfc(itv(Rem::Data(final(ac)@), ab)) && mergedc(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), itv(Rem::Data(old(ac)@), ab), optl(bc, bb), itv(Rem::Data(final(ac)@), ab)),
    //@spec decreases cntc(itv(Rem::Data(old(ac)@), ab)) + cntc(optl(bc, bb)), 1nat,
    //@ let ghost ta = itv(Rem::Data(ac@), ab);
    //@ let ghost tb = optl(bc, bb);
    //@ proof { assert(ac.len() <= usize::MAX); lemma_half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb); }
    //@ proof { lemma_lists(left_w::<A, B, A::Error, F>(f, ab, bb), ta); lemma_lists(left_w::<A, B, A::Error, F>(f, ab, bb), tb); }
    if let Some(bc) = bc {
        if ac.is_empty() {
            //@ proof { assert(ta =~= Seq::empty()); }
            return Ok(());
        }
        let mut acb = InPlaceVecBuilder::from(ac);
        let mut bci = bc;
        //@ let ghost fin = acb.fin();
        //@ let ghost mut i = 0int; let ghost mut j = 0int; let ghost mut lo = 0int; let ghost mut rs = Seq::<T>::empty();
        //@ proof { lemma_join_init(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb); assert(ta.skip(0) =~= ta); assert(tb.skip(0) =~= tb); lemma_drepr_nil(acb.tgt(), ab); }
        while let Some(ordering) = cmp(&acb, &mut bci) {
            //@spec invariant jinv(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, i, j, rs, lo), acb.fin() == fin, bci.inv(), drepr(acb.src(), ab, ta.skip(i)), drepr(acb.tgt(), ab, rs), irepr(bci.rem(), bb, tb.skip(j)),
            //@spec C::conv_ok(bb, ab), with_ok::<A, B, A::Error, F>(f, ab, bb),
            //@spec ensures i == ta.len(), j == tb.len(),
            //@spec decreases ta.len() - i + tb.len() - j,
            //@ let ghost s0 = acb.src(); let ghost t0 = acb.tgt(); let ghost n0 = bci.rem(); let ghost rs0 = rs;
            //@ proof { lemma_heads(Rem::Data(s0), ab, ta, i, n0, bb, tb, j); }
            match ordering {
                Ordering::Less => {
                    acb.consume(1, true);
                    //@ proof { lemma_join_a(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, i, j, rs, lo); lemma_drepr_push(t0, ab, rs, s0[0], ta[i]); assert(acb.tgt() =~= t0.push(s0[0])); rs = rs.push(ta[i]); lo = ta[i].p()[0] + 1; i = i + 1; }
                }
                Ordering::Equal => {
                    let ac = acb.source_slice_mut().get_mut(0).unwrap();
                    //@ assert(s0[0].inv()); assert(*ac == s0[0]); assert(ac.nw() == s0[0].nw()); assert(rem_head(Rem::Data(s0)) == Some(s0[0].nw())); assert(good(ac.nw(), ab));
                    let bc = bci.next().unwrap();
                    let res = left_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
                    let non_empty = !ac.is_empty();
                    //@ let ghost r1 = tv(ac.nw(), ab); let ghost a1 = *ac;
                    //@ proof { lemma_is_empty(ac.nw(), ab); lemma_drepr_push(t0, ab, rs, a1, r1); if res is Ok { lemma_join_ab(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, i, j, rs, lo, r1); } else if !compressed() { lemma_jinv_weaken(left_w::<A, B, A::Error, F>(f, ab, bb), half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb, i, j, rs, lo); lemma_join_ab(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb, i, j, rs, lo, r1); } }
                    acb.consume(1, non_empty);
                    //@ proof { assert(acb.src() =~= s0.skip(1)); assert(acb.tgt() =~= (if non_empty { t0.push(a1) } else { t0 })); if non_empty { rs = rs.push(r1); } lo = ta[i].p()[0] + 1; i = i + 1; j = j + 1; }
                    if res.is_err() {
                        //@ let ghost s1 = acb.src(); let ghost t1 = acb.tgt();
                        acb.consume(usize::MAX, true);
                        //@ proof { assert(acb.tgt() =~= t1 + s1); lemma_drepr_cat(t1, s1, ab, rs, ta.skip(i)); assert(irepr(Rem::Data(acb.tgt()), ab, rs + ta.skip(i))); if !compressed() { lemma_rest(half::<A, B, A::Error, F>(left_w::<A, B, A::Error, F>(f, ab, bb), f, ab, bb), ta, tb, i, j, rs, lo); } }
                        //@ acb.done();
                        return res;
                    }
                }
                Ordering::Greater => {
                    let _ = bci.next().unwrap();
                    //@ proof { lemma_join_b(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, i, j, rs, lo); lo = tb[j].p()[0] + 1; j = j + 1; }
                }
            }
        }
        //@ acb.done();
        //@ proof { assert(irepr(Rem::Data(fin), ab, rs)); }
        //@ proof { lemma_join_done(left_w::<A, B, A::Error, F>(f, ab, bb), ta, tb, i, j, rs, lo); }
    }
    Ok(())
}
