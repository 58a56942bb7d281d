fn outer_combine<A, B, E, F>(
    a: &TreeNodeRef<A>,
    ab: A,
    b: &TreeNodeRef<B>,
    bb: B,
    f: F,
) -> Result<TreeNode<Detached>, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E> + Copy, {
    //@spec requires okref(*a, ab), okref(*b, bb), cok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), Detached),
    //@spec decreases dep(a.nw(), ab) + dep(b.nw(), bb), 0nat,
    //@ broadcast use group_okc;
    let ap = a.load_prefix(&ab)?;
    let bp = b.load_prefix(&bb)?;
    let n = common_prefix(ap.as_ref(), bp.as_ref());
    //@ proof { lemma_cpl(ap@, bp@); }
    let value;
    let children;
    if n == ap.len() && n == bp.len() {
        value = if let Some(bv) = b.value_opt() {
            if let Some(av) = a.value_opt() {
                f(&av, &bv)?
            } else {
                Some(bv.detached(&bb)?)
            }
        } else {
            a.value_opt().map(|x| x.detached(&ab)).transpose()?
            //@~ a.value_opt().map(|x: ValueRef<A>| -> (o: Result<Value, A::Error>) requires vrok(x, ab) ensures o is Ok ==> valok(o->Ok_0, Detached) { x.detached(&ab) }).transpose()?
        };
        let ac = a.load_children(&ab)?;
        let bc = b.load_children(&bb)?;
        children = outer_combine_children(ac, ab, bc, bb, f)?;
    } else if n == ap.len() {
        value = a.value_opt().map(|x| x.detached(&ab)).transpose()?;
        //@~ value = a.value_opt().map(|x: ValueRef<A>| -> (o: Result<Value, A::Error>) requires vrok(x, ab) ensures o is Ok ==> valok(o->Ok_0, Detached) { x.detached(&ab) }).transpose()?;
        let ac = a.load_children(&ab)?;
        let bc = [b.clone_shortened(&bb, n)?];
        children = outer_combine_children(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
    } else if n == bp.len() {
        value = b.value_opt().map(|x| x.detached(&bb)).transpose()?;
        //@~ value = b.value_opt().map(|x: ValueRef<B>| -> (o: Result<Value, B::Error>) requires vrok(x, bb) ensures o is Ok ==> valok(o->Ok_0, Detached) { x.detached(&bb) }).transpose()?;
        let ac = [a.clone_shortened(&ab, n)?];
        let bc = b.load_children(&bb)?;
        children = outer_combine_children(TreeNodeIter::from_slice(&ac), ab, bc, bb, f)?;
    } else {
        value = None;
        let a = DetachConverter.convert_node_shortened(a, &ab, n)?;
        let b = DetachConverter.convert_node_shortened(b, &bb, n)?;
        let vec = if ap[n] > bp[n] {
            vec![b, a]
        } else {
            vec![a, b]
        };
        //@ proof { assert(<DetachConverter as NodeConverter<A, Detached>>::conv_ok(ab, Detached)); assert(<DetachConverter as NodeConverter<B, Detached>>::conv_ok(bb, Detached)); assert(vec@ =~= seq![a, b] || vec@ =~= seq![b, a]); assert(okv(vec@, Detached)); }
        children = Some(Arc::new(vec));
    }
    let mut res = TreeNode::EMPTY;
    res.set_prefix_slice(&ap[..n]);
    res.set_value(value);
    res.set_children_arc_opt(children);
    res.canonicalize(&Detached).unwrap_safe();
    Ok(res)
}

//@pre #[verifier::loop_isolation(false)]
//@pre #[verifier::allow_complex_invariants]
fn outer_combine_children<'a, A, B, E, F>(
    ac: Option<TreeNodeIter<'a, A>>,
    ab: A,
    bc: Option<TreeNodeIter<'a, B>>,
    bb: B,
    f: F,
) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, E>
where
    A: BlobStore + Clone,
    B: BlobStore + Clone,
    E: From<A::Error> + From<B::Error>,
    F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E> + Copy, {
    //@spec requires okopt(ac, ab), okopt(bc, bb), cok::<A, B, E, F>(f, ab, bb),
    //@spec ensures r is Ok ==> okarc(r->Ok_0),
    //@spec decreases odep(ac, ab) + odep(bc, bb), 1nat,
    //@ broadcast use group_okc;
    //@ let ghost ma = odep(ac, ab); let ghost mb = odep(bc, bb);
    Ok(match (ac, bc) {
        (Some(ac), Some(bc)) => {
            let mut res = Vec::new();
            let mut iter = OuterJoin::<A, B, E>::new(ac, bc);
            while let Some(x) = iter.next() {
//@spec invariant oki(iter.a, ab), oki(iter.b, bb), rdep(iter.a.rem(), ab) <= ma, rdep(iter.b.rem(), bb) <= mb, okv(res@, Detached), cok::<A, B, E, F>(f, ab, bb),
//@spec decreases rem_len(iter.a.rem()) + rem_len(iter.b.rem()),
//@ broadcast use group_okc;
                let r = match x? {
                    (Some(a), Some(b)) => outer_combine(&a, ab.clone(), &b, bb.clone(), f)?,
                    (Some(a), None) => a.detached(&ab)?,
                    (None, Some(b)) => b.detached(&bb)?,
                    (None, None) => panic!(),
                };
                if !r.is_empty() {
                    res.push(r);
                }
            }
            if res.is_empty() {
                None
            } else {
                Some(Arc::new(res))
            }
        }
        (None, Some(bc)) => bc.detached(&bb)?,
        (Some(ac), None) => ac.detached(&ab)?,
        (None, None) => None,
    })
}
