fn inner_combine_with<A, B, C, F>(
    a: &mut TreeNode<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    c: C,
    f: F,
) -> Result<(), A::Error>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    C: NodeConverter<B, A> + Clone,
    A::Error: From<B::Error>,
    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy, {
    //@spec requires old(a).inv(), okn(old(a).nw(), ab), okref(*b, bb), C::conv_ok(bb, ab), wok::<A, B, A::Error, F>(f, ab, bb),
    //@spec ensures final(a).inv(), okn(final(a).nw(), ab),
    //@spec decreases dep(old(a).nw(), ab) + dep(b.nw(), bb), 0nat,
    //@ broadcast use group_okc;
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cpl(ap@, bp@); }
    let res = if n == ap.len() && n == bp.len() {
        let bc = b.load_children(&bb)?;
        let mut res = Ok(());
        if let (Some(mut av), Some(bv)) = (a.take_value_opt(), b.value_opt()) {
            res = f(&mut av, &bv);
            a.set_value_owned(av.as_value_ref().0);
        }
        if res.is_ok() {
            let ac = a.load_children_mut(&ab)?;
            res = inner_combine_children_with(ac, ab.clone(), bc, bb, c, f);
        }
        res
    } else if n == ap.len() {
        let bc = [b.clone_shortened(&bb, n)?];
        a.set_value_slice(None);
        let ac = a.load_children_mut(&ab)?;
        inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)
        //@~ let res = inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f);
        //@~ res
    } else if n == bp.len() {
        let bc = b.load_children(&bb)?;
        a.split(&ab, n)?;
        let ac = a.load_children_mut(&ab)?;
        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)
        //@~ let res = inner_combine_children_with(ac, ab.clone(), bc, bb, c, f);
        //@~ res
    } else {
        a.set_value_slice(None);
        a.set_children_arc_opt(None);
        Ok(())
    };
    a.canonicalize(&ab)?;
    res
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
fn inner_combine_children_with<'a, A, B, C, F>(
    ac: &'a mut Vec<TreeNode<A>>,
    ab: A,
    bc: Option<TreeNodeIter<'a, B>>,
    bb: B,
    c: C,
    f: F,
) -> Result<(), A::Error>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    C: NodeConverter<B, A> + Clone,
    F: Fn(&mut Value<A>, &ValueRef<B>) -> Result<(), A::Error> + Copy,
    A::Error: From<B::Error>, {
    //@spec requires okv(old(ac)@, ab), okopt(bc, bb), C::conv_ok(bb, ab), wok::<A, B, A::Error, F>(f, ab, bb),
    //@spec ensures okv(final(ac)@, ab),
    //@spec decreases vdep(old(ac)@, ab) + odep(bc, bb), 1nat,
    //@ broadcast use group_okc;
    //@ let ghost ma = vdep(ac@, ab); let ghost mb = odep(bc, bb);
    if let Some(bc) = bc {
        if ac.is_empty() {
            return Ok(());
        }
        let mut acb = InPlaceVecBuilder::from(ac);
        let mut bci = bc;
        //@ let ghost fin = acb.fin();
        //@ proof { assert(okv(acb.tgt(), ab)); if acb.src().len() > 0 { assert(acb.src()[0].inv()); } }
        while let Some(ordering) = cmp(&acb, &mut bci) {
            //@spec invariant acb.fin() == fin, oki(bci, bb), okv(acb.src(), ab), okv(acb.tgt(), ab), vdep(acb.src(), ab) <= ma, rdep(bci.rem(), bb) <= mb,
            //@spec C::conv_ok(bb, ab), wok::<A, B, A::Error, F>(f, ab, bb),
            //@spec decreases acb.src().len() + rem_len(bci.rem()),
            //@ broadcast use group_okc;
            //@ proof { if acb.src().len() > 0 { assert(acb.src()[0].inv()); } }
            match ordering {
                Ordering::Less => {
                    //@ proof { lemma_okv_less(acb.src(), acb.tgt(), ab); }
                    acb.consume(1, false);
                }
                Ordering::Equal => {
                    //@ let ghost s0 = acb.src(); let ghost t0 = acb.tgt();
                    //@ proof { assert(s0[0].inv()); lemma_okv_skip(s0, ab); }
                    let ac = acb.source_slice_mut().get_mut(0).unwrap();
                    let bc = bci.next().unwrap();
                    let res = inner_combine_with(ac, ab.clone(), &bc, bb.clone(), c.clone(), f);
                    let non_empty = !ac.is_empty();
                    //@ let ghost a1 = *ac;
                    acb.consume(1, non_empty);
                    //@ proof { lemma_okv_skip(s0, ab); lemma_okv_push(t0, ab, a1); assert(acb.src() =~= s0.skip(1)); assert(acb.tgt() =~= (if non_empty { t0.push(a1) } else { t0 })); }
                    if res.is_err() {
                        //@ proof { lemma_okv_cat(acb.tgt(), acb.src(), ab); }
                        acb.consume(usize::MAX, true);
                        //@ acb.done();
                        return res;
                    }
                }
                Ordering::Greater => {
                    let _ = bci.next().unwrap();
                }
            }
        }
        //@ acb.done();
    } else {
        ac.clear();
    }
    Ok(())
}
