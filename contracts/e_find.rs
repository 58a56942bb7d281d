enum FindResult<T> {

    Found(T),

    Prefix {

        tree: T,

        matching: usize,
    },

    NotFound,
}

fn find<S: BlobStore, T>(
    store: &S,
    tree: &TreeNodeRef<S>,
    prefix: &[u8],
    f: impl FnOnce(FindResult<&TreeNodeRef<S>>) -> Result<T, S::Error>,
) -> Result<T, S::Error> {
    //@spec requires tree.inv(), tree.nw().tight(), rep(tree.nw(), *store), wfc(tv(tree.nw(), *store).c()),
    //@spec     forall|fr: FindResult<&TreeNodeRef<S>>| #[trigger] fr_ok(fr, *store, tv(tree.nw(), *store), prefix@) ==> call_requires(f, (fr,)),
    //@spec ensures r is Err || exists|fr: FindResult<&TreeNodeRef<S>>| #[trigger] fr_ok(fr, *store, tv(tree.nw(), *store), prefix@) && call_ensures(f, (fr,), r),
    //@spec decreases tv(tree.nw(), *store),
    let tree_prefix = tree.load_prefix(store)?;
    let n = common_prefix(&tree_prefix, prefix);
    //@ let ghost t = tv(tree.nw(), *store);
    //@ proof { lemma_cpl(t.p(), prefix@); }
    let rt = tree_prefix.len() - n;
    let rp = prefix.len() - n;
    let fr = if rp == 0 && rt == 0 {
        FindResult::Found(tree)
    } else if rp == 0 {
        FindResult::Prefix { tree, matching: n }
    } else if rt == 0 {
        let c = prefix[n];
        let tree_children = tree.load_children(store)?;
        //@ proof { lemma_cload(tree.nw().c, *store, t.c(), tree_children, true); }
        if let Some(tree_children) = tree_children {
            if let Some(child) = tree_children.find(c) {
                //@ proof { lemma_find(tree_children.rem(), *store, t.c(), c, Some(child.nw())); }
                //@ proof { let tc = tv(child.nw(), *store); let k2 = prefix@.skip(n as int); assert(ft(t, prefix@) == ft(tc, k2)); assert(k2 =~= prefix@.subrange(n as int, prefix@.len() as int)); assert forall|fr: FindResult<&TreeNodeRef<S>>| #[trigger] fr_ok(fr, *store, tc, k2) implies fr_ok(fr, *store, t, prefix@) by {} }
                return find(store, &child, &prefix[n..], f);
            } else {
                //@ proof { lemma_find(tree_children.rem(), *store, t.c(), c, None::<NV<S>>); }
                FindResult::NotFound
            }
        } else {
            FindResult::NotFound
        }
    } else {
        FindResult::NotFound
    };
    //@ proof { assert(fr_ok(fr, *store, t, prefix@)); }
    f(fr)
}

fn first_value<S: BlobStore>(
    node: &TreeNodeRef<S>,
    store: &S,
) -> Result<Option<Value<S>>, S::Error> {
    //@spec requires node.inv(), node.nw().tight(), rep(node.nw(), *store), wfc(tv(node.nw(), *store).c()),
    //@spec ensures r is Ok ==> vok(r->Ok_0, *store) && is_first_value(vrep(r->Ok_0, *store), tv(node.nw(), *store)),
    //@spec decreases tv(node.nw(), *store),
    //@ broadcast use lemma_cload;
    //@ proof { lemma_vals(tv(node.nw(), *store)); }
    Ok(match node.value_opt() {
        Some(value) => Some(value.to_owned()),
        None => match node.load_children(store)? {
            Some(mut children) => match children.next() {
                Some(child) => first_value(&child, store)?,
                None => None,
            },
            None => None,
        },
    })
}

fn last_value<S: BlobStore>(
    node: &TreeNodeRef<S>,
    store: &S,
) -> Result<Option<Value<S>>, S::Error> {
    //@spec requires node.inv(), node.nw().tight(), rep(node.nw(), *store), wfc(tv(node.nw(), *store).c()),
    //@spec ensures r is Ok ==> vok(r->Ok_0, *store) && is_last_value(vrep(r->Ok_0, *store), tv(node.nw(), *store)),
    //@spec decreases tv(node.nw(), *store),
    //@ broadcast use lemma_cload;
    //@ broadcast use lemma_lrepr;
    //@ proof { lemma_vals(tv(node.nw(), *store)); }
    Ok(match node.load_children(store)? {
        Some(mut children) => match children.last() {
            Some(child) => last_value(&child, store)?,
            None => node.value_opt().map(|x| x.to_owned()),
            //@~ None => match node.value_opt() { Some(x) => Some(x.to_owned()), None => None },
        },
        None => node.value_opt().map(|x| x.to_owned()),
        //@~ None => match node.value_opt() { Some(x) => Some(x.to_owned()), None => None },
    })
}

fn first_entry<S: BlobStore>(
    mut prefix: Vec<u8>,
    node: &TreeNodeRef<S>,
    store: &S,
) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
    //@spec requires node.inv(), node.nw().tight(), rep(node.nw(), *store), wfc(tv(node.nw(), *store).c()),
    //@spec ensures r is Ok ==> eok(r->Ok_0, *store) && is_first_entry(erep(r->Ok_0, *store), tv(node.nw(), *store), prefix@),
    //@spec decreases tv(node.nw(), *store),
    //@ broadcast use lemma_cload;
    //@ proof { lemma_ends(tv(node.nw(), *store), prefix@); }
    //@ broadcast use lemma_lrepr;
    //@ let ghost p0 = prefix@;
    prefix.extend_from_slice(&node.load_prefix(store)?);
    //@ proof { assert(prefix@ =~= p0 + tv(node.nw(), *store).p()); }
    Ok(match node.value_opt() {
        Some(value) => Some((prefix, value.to_owned())),
        None => match node.load_children(store)? {
            Some(mut children) => match children.next() {
                Some(child) => first_entry(prefix, &child, store)?,
                None => None,
            },
            None => None,
        },
    })
}

fn last_entry<S: BlobStore>(
    mut prefix: Vec<u8>,
    node: &TreeNodeRef<S>,
    store: &S,
) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
    //@spec requires node.inv(), node.nw().tight(), rep(node.nw(), *store), wfc(tv(node.nw(), *store).c()),
    //@spec ensures r is Ok ==> eok(r->Ok_0, *store) && is_last_entry(erep(r->Ok_0, *store), tv(node.nw(), *store), prefix@),
    //@spec decreases tv(node.nw(), *store),
    //@ broadcast use lemma_cload;
    //@ proof { lemma_ends(tv(node.nw(), *store), prefix@); }
    //@ broadcast use lemma_lrepr;
    //@ let ghost p0 = prefix@;
    prefix.extend_from_slice(&node.load_prefix(store)?);
    //@ proof { assert(prefix@ =~= p0 + tv(node.nw(), *store).p()); }
    Ok(match node.load_children(store)? {
        Some(mut children) => match children.last() {
            Some(child) => last_entry(prefix, &child, store)?,
            None => node.value_opt().map(|x| (prefix, x.to_owned())),
            //@~ None => match node.value_opt() { Some(x) => Some((prefix, x.to_owned())), None => None },
        },
        None => node.value_opt().map(|x| (prefix, x.to_owned())),
        //@~ None => match node.value_opt() { Some(x) => Some((prefix, x.to_owned())), None => None },
    })
}

fn common_prefix<'a, T: Eq>(a: &'a [T], b: &'a [T]) -> usize {
    //@hdr fn common_prefix<'a>(a: &'a [u8], b: &'a [u8]) -> (r: usize)
    //@spec ensures r == cpl(a@, b@),
    a.iter().zip(b).take_while(|(a, b)| a == b).count()
    //@~ let n = siter(a).zip(b).take_while(|x: &(&u8, &u8)| -> (o: bool) ensures o == (*x.0 == *x.1) { let (a, b) = x; a == b }).count();
    //@~ proof { lemma_cpl_is(a@, b@, n as nat); }
    //@~ n
}

impl<S: BlobStore> TreeNode<S> {
    fn contains_key(&self, key: &[u8], store: &S) -> Result<bool, S::Error> {
        //@spec requires self.inv(), good(self.nw(), *store),
        //@spec ensures r is Ok ==> r->Ok_0 == (lk(tv(self.nw(), *store), key@) is Some),
        //@ proof { lemma_ft_lk(tv(self.nw(), *store), key@); }
        find(store, &TreeNodeRef(Ok(self)), key, |r| {
        //@~ find(store, &TreeNodeRef(Ok(self)), key, |r: FindResult<&TreeNodeRef<S>>| -> (o: Result<bool, S::Error>)
        //@~ requires self.inv(), good(self.nw(), *store), fr_ok(r, *store, tv(self.nw(), *store), key@),
        //@~ ensures o is Ok && o->Ok_0 == (lk(tv(self.nw(), *store), key@) is Some),
        //@~ {
            Ok(if let FindResult::Found(tree) = r {
                tree.value_opt().is_some()
            } else {
                false
            })
        })
    }

    fn has_prefix(&self, prefix: &[u8], store: &S) -> Result<bool, S::Error> {
        //@spec requires self.inv(), good(self.nw(), *store),
        //@spec ensures r is Ok ==> r->Ok_0 == hasp(tv(self.nw(), *store), prefix@),
        //@ let ghost t = tv(self.nw(), *store);
        //@ proof { if t.v() is Some || t.c().len() > 0 { lemma_ft_hasp(t, prefix@); } else { lemma_hasp_empty(t, prefix@); lemma_cpl(t.p(), prefix@); } }
        find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
        //@~ find(store, &TreeNodeRef(Ok(self)), prefix, |r: FindResult<&TreeNodeRef<S>>| -> (o: Result<bool, S::Error>)
        //@~ requires self.inv(), good(self.nw(), *store), fr_ok(r, *store, tv(self.nw(), *store), prefix@),
        //@~ ensures o is Ok && o->Ok_0 == hasp(tv(self.nw(), *store), prefix@),
        //@~ {
            Ok(match r {
                FindResult::Found(_) => !self.is_empty(),
                FindResult::Prefix { .. } => true,
                FindResult::NotFound => false,
            })
        })
    }

    fn get(&self, key: &[u8], store: &S) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires self.inv(), good(self.nw(), *store),
        //@spec ensures r is Ok ==> vok(r->Ok_0, *store) && vrep(r->Ok_0, *store) == lk(tv(self.nw(), *store), key@),
        //@ proof { lemma_ft_lk(tv(self.nw(), *store), key@); }
        find(store, &TreeNodeRef(Ok(self)), key, |r| {
        //@~ find(store, &TreeNodeRef(Ok(self)), key, |r: FindResult<&TreeNodeRef<S>>| -> (o: Result<Option<Value<S>>, S::Error>)
        //@~ requires self.inv(), good(self.nw(), *store), fr_ok(r, *store, tv(self.nw(), *store), key@),
        //@~ ensures o is Ok && vok(o->Ok_0, *store) && vrep(o->Ok_0, *store) == lk(tv(self.nw(), *store), key@),
        //@~ {
            Ok(if let FindResult::Found(tree) = r {
                tree.value_opt().map(|x| x.to_owned())
                //@~ match tree.value_opt() { Some(x) => Some(x.to_owned()), None => None }
            } else {
                None
            })
        })
    }

}
