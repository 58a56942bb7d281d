fn left_combine<A, B, E, F>(
    a: &TreeNodeRef<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<TreeNode<Detached>, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E> + Copy, {
    //@spec requires okref(*a, ab), okref(*b, bb), cok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), Detached),
    //@spec decreases dep(a.nw(), ab) + dep(b.nw(), bb), 0nat,
    //@ broadcast use group_okc;
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cpl(ap@, bp@); }
    let value;
    let children;
    let mut res = TreeNode::EMPTY;
    if n == ap.len() && n == bp.len() {
        value = if let Some(av) = a.value_opt() {
            if let Some(bv) = b.value_opt() {
                f(&av, &bv)?
            } else {
                Some(av.detached(&ab)?)
            }
        } else {
            None
        };
        let ac = a.load_children(&ab)?;
        let bc = b.load_children(&bb)?;
        children = left_combine_children(ac, ab, bc, bb, f)?;
    } else if n == ap.len() {
        value = a.value_opt().map(|x| x.detached(&ab)).transpose()?;
        //@~ value = a.value_opt().map(|x: ValueRef<A>| -> (o: Result<Value, A::Error>) requires vrok(x, ab) ensures o is Ok ==> valok(o->Ok_0, Detached) { x.detached(&ab) }).transpose()?;
        let ac = a.load_children(&ab)?;
        let bc = [b.clone_shortened(&bb, n)?];
        children = left_combine_children(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
    } else if n == bp.len() {
        value = None;
        let ac = [a.clone_shortened(&ab, n)?];
        let bc = b.load_children(&bb)?;
        children = left_combine_children(TreeNodeIter::from_slice(&ac), ab, bc, bb, f)?;
    } else {
        return Ok(a.detached(&ab)?);
    }
    res.set_prefix_slice(&ap[..n]);
    res.set_value(value);
    res.set_children_arc_opt(children);
    res.canonicalize(&Detached).unwrap_safe();
    Ok(res)
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
fn left_combine_children<'a, A, B, E, F>(
    ac: Option<TreeNodeIter<'a, A>>,
    ab: A,
    bc: Option<TreeNodeIter<'a, B>>,
    bb: B,
    f: F,
) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E> + Copy, {
    //@spec requires okopt(ac, ab), okopt(bc, bb), cok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> okarc(r->Ok_0),
    //@spec decreases odep(ac, ab) + odep(bc, bb), 1nat,
    //@ broadcast use group_okc;
    //@ let ghost ma = odep(ac, ab); let ghost mb = odep(bc, bb);
    Ok(match (ac, bc) {
        (Some(ac), Some(bc)) => {
            let mut res = Vec::new();
            let mut iter = OuterJoin::<A, B, E>::new(ac, bc);
            while let Some(x) = iter.next() {
//@spec invariant oki(iter.a, ab), oki(iter.b, bb), rdep(iter.a.rem(), ab) <= ma, rdep(iter.b.rem(), bb) <= mb, okv(res@, Detached), cok::<A, B, E, F>(f, ab, bb),
//@spec decreases rem_len(iter.a.rem()) + rem_len(iter.b.rem()),
//@ broadcast use group_okc;
                match x? {
                    (Some(a), Some(b)) => {
                        let r = left_combine(&a, ab.clone(), &b, bb.clone(), f)?;
                        if !r.is_empty() {
                            res.push(r);
                        }
                    }
                    (Some(a), None) => {
                        res.push(a.detached(&ab)?);
                    }
                    _ => {}
                };
            }
            if res.is_empty() {
                None
            } else {
                Some(Arc::new(res))
            }
        }
        (Some(ac), None) => ac.detached(&ab)?,
        _ => None,
    })
}
