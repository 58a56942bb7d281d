//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
fn inner_combine_pred<A, B, E, F>(
    a: &TreeNodeRef<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<bool, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E> + Copy, {
    //@spec requires okref(*a, ab), okref(*b, bb), dok::<A, B, E, F>(f, ab, bb),
    //@spec decreases dep(a.nw(), ab) + dep(b.nw(), bb), 0nat,
    //@ broadcast use group_ok;
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cpl(ap@, bp@); }
    if n == ap.len() && n == bp.len() {
        if let (Some(av), Some(bv)) = (a.value_opt(), b.value_opt()) {
            if f(&av, &bv)? {
                return Ok(true);
            }
        }
        let ac = a.load_children(&ab)?;
        let bc = b.load_children(&bb)?;
        return inner_combine_children_pred(ac, ab, bc, bb, f);
    } else if n == ap.len() {
        let bc = b.clone_shortened(&bb, n)?;
        let bc = TreeNodeRef::owned(&bc);
        if let Some(mut ac) = a.load_children(&ab)? {
            while let Some(ac) = ac.next() {
                //@~ while let Some(xx) = ac.next()
                //@~ invariant oki(ac, ab), okref(bc, bb), rdep(ac.rem(), ab) < dep(a.nw(), ab), dep(bc.nw(), bb) <= dep(b.nw(), bb), dok::<A, B, E, F>(f, ab, bb),
                //@~ decreases rem_len(ac.rem()),
                //@~ { let ac = xx;
                //@ broadcast use group_ok;
                if inner_combine_pred(&ac, ab.clone(), &bc, bb.clone(), f)? {
                    return Ok(true);
                }
            }
        }
    } else if n == bp.len() {
        let ac = a.clone_shortened(&ab, n)?;
        let ac = TreeNodeRef::owned(&ac);
        if let Some(mut bc) = b.load_children(&bb)? {
            while let Some(bc) = bc.next() {
                //@~ while let Some(xx) = bc.next()
                //@~ invariant oki(bc, bb), okref(ac, ab), rdep(bc.rem(), bb) < dep(b.nw(), bb), dep(ac.nw(), ab) <= dep(a.nw(), ab), dok::<A, B, E, F>(f, ab, bb),
                //@~ decreases rem_len(bc.rem()),
                //@~ { let bc = xx;
                //@ broadcast use group_ok;
                if inner_combine_pred(&ac, ab.clone(), &bc, bb.clone(), f)? {
                    return Ok(true);
                }
            }
        }
    }
    Ok(false)
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
fn inner_combine_children_pred<A, B, E, F>(
    ac: Option<TreeNodeIter<A>>,
    ab: A,
    bc: Option<TreeNodeIter<B>>,
    bb: B,
    f: F,
) -> Result<bool, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E> + Copy, {
    //@spec requires okopt(ac, ab), okopt(bc, bb), dok::<A, B, E, F>(f, ab, bb),
    //@spec decreases odep(ac, ab) + odep(bc, bb), 1nat,
    //@ broadcast use group_ok;
    //@ let ghost ma = odep(ac, ab); let ghost mb = odep(bc, bb);
    if let (Some(ac), Some(bc)) = (ac, bc) {
        let mut iter = OuterJoin::<A, B, E>::new(ac, bc);
        while let Some(x) = iter.next() {
//@spec invariant oki(iter.a, ab), oki(iter.b, bb), rdep(iter.a.rem(), ab) <= ma, rdep(iter.b.rem(), bb) <= mb, dok::<A, B, E, F>(f, ab, bb),
//@spec decreases rem_len(iter.a.rem()) + rem_len(iter.b.rem()),
//@ broadcast use group_ok;
            if let (Some(a), Some(b)) = x? {
                if inner_combine_pred(&a, ab.clone(), &b, bb.clone(), f)? {
                    return Ok(true);
                }
            }
        }
    }
    Ok(false)
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
fn left_combine_pred<A, B, E, F>(
    a: &TreeNodeRef<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<bool, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E> + Copy, {
    //@spec requires okref(*a, ab), okref(*b, bb), dok::<A, B, E, F>(f, ab, bb),
    //@spec decreases dep(a.nw(), ab) + dep(b.nw(), bb), 0nat,
    //@ broadcast use group_ok;
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cpl(ap@, bp@); }
    if n == ap.len() && n == bp.len() {
        match (a.value_opt(), b.value_opt()) {
            (Some(av), Some(bv)) => {
                if f(&av, &bv)? {
                    return Ok(true);
                }
            }
            (Some(_), None) => return Ok(true),
            _ => {}
        }
        let ac = a.load_children(&ab)?;
        let bc = b.load_children(&bb)?;
        left_combine_children_pred(ac, ab, bc, bb, f)
    } else if n == ap.len() {
        if a.value_opt().is_some() {
            return Ok(true);
        };
        let ac = a.load_children(&ab)?;
        let bc = [b.clone_shortened(&bb, n)?];
        left_combine_children_pred(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)
    } else if n == bp.len() {
        let ac = [a.clone_shortened(&ab, n)?];
        let bc = b.load_children(&bb)?;
        left_combine_children_pred(TreeNodeIter::from_slice(&ac), ab, bc, bb, f)
    } else {
        Ok(true)
    }
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
fn left_combine_children_pred<A, B, E, F>(
    ac: Option<TreeNodeIter<A>>,
    ab: A,
    bc: Option<TreeNodeIter<B>>,
    bb: B,
    f: F,
) -> Result<bool, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<bool, E> + Copy, {
    //@spec requires okopt(ac, ab), okopt(bc, bb), dok::<A, B, E, F>(f, ab, bb),
    //@spec decreases odep(ac, ab) + odep(bc, bb), 1nat,
    //@ broadcast use group_ok;
    //@ let ghost ma = odep(ac, ab); let ghost mb = odep(bc, bb);
    match (ac, bc) {
        (Some(ac), Some(bc)) => {
            let mut iter = OuterJoin::<A, B, E>::new(ac, bc);
            while let Some(x) = iter.next() {
//@spec invariant oki(iter.a, ab), oki(iter.b, bb), rdep(iter.a.rem(), ab) <= ma, rdep(iter.b.rem(), bb) <= mb, dok::<A, B, E, F>(f, ab, bb),
//@spec decreases rem_len(iter.a.rem()) + rem_len(iter.b.rem()),
//@ broadcast use group_ok;
                match x? {
                    (Some(a), Some(b)) => {
                        if left_combine_pred(&a, ab.clone(), &b, bb.clone(), f)? {
                            return Ok(true);
                        }
                    }
                    (Some(_), None) => return Ok(true),
                    _ => {}
                }
            }
        }
        (Some(_), None) => return Ok(true),
        _ => {}
    }
    Ok(false)
}
