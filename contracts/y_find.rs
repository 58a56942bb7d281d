enum FindResult<T> {

    Found(T),

    Prefix {

        tree: T,

        matching: usize,
    },

    NotFound,
}

fn find<S: BlobStore, T>(
    store: &S,
    tree: &TreeNodeRef<S>,
    prefix: &[u8],
    f: impl FnOnce(FindResult<&TreeNodeRef<S>>) -> Result<T, S::Error>,
) -> Result<T, S::Error> {
    //@spec requires okref(*tree, *store), forall|fr: FindResult<&TreeNodeRef<S>>| #[trigger] ok_fr(fr, *store, prefix@) ==> call_requires(f, (fr,)),
    //@spec ensures r is Err || exists|fr: FindResult<&TreeNodeRef<S>>| #[trigger] ok_fr(fr, *store, prefix@) && call_ensures(f, (fr,), r),
    //@spec decreases dep(tree.nw(), *store),
    //@ broadcast use group_ok;
    let tree_prefix = tree.load_prefix(store)?;
    let n = common_prefix(&tree_prefix, prefix);
    //@ proof { lemma_cpl(rp(*store, tree.nw().p), prefix@); }
    let rt = tree_prefix.len() - n;
    let rp = prefix.len() - n;
    let fr = if rp == 0 && rt == 0 {
        FindResult::Found(tree)
    } else if rp == 0 {
        FindResult::Prefix { tree, matching: n }
    } else if rt == 0 {
        let c = prefix[n];
        let tree_children = tree.load_children(store)?;
        if let Some(tree_children) = tree_children {
            if let Some(child) = tree_children.find(c) {
                //@ proof { assert forall|fr: FindResult<&TreeNodeRef<S>>| #[trigger] ok_fr(fr, *store, prefix@.subrange(n as int, prefix@.len() as int)) implies ok_fr(fr, *store, prefix@) by {} }
                return find(store, &child, &prefix[n..], f);
            } else {
                FindResult::NotFound
            }
        } else {
            FindResult::NotFound
        }
    } else {
        FindResult::NotFound
    };
    //@ proof { assert(ok_fr(fr, *store, prefix@)); }
    f(fr)
}

fn first_value<S: BlobStore>(
    node: &TreeNodeRef<S>,
    store: &S,
) -> Result<Option<Value<S>>, S::Error> {
    //@spec requires okref(*node, *store),
    //@spec ensures r is Ok ==> okval(r->Ok_0, *store),
    //@spec decreases dep(node.nw(), *store),
    //@ broadcast use group_ok;
    Ok(match node.value_opt() {
        Some(value) => Some(value.to_owned()),
        None => match node.load_children(store)? {
            Some(mut children) => match children.next() {
                Some(child) => first_value(&child, store)?,
                None => None,
            },
            None => None,
        },
    })
}

fn last_value<S: BlobStore>(
    node: &TreeNodeRef<S>,
    store: &S,
) -> Result<Option<Value<S>>, S::Error> {
    //@spec requires okref(*node, *store),
    //@spec ensures r is Ok ==> okval(r->Ok_0, *store),
    //@spec decreases dep(node.nw(), *store),
    //@ broadcast use group_ok;
    Ok(match node.load_children(store)? {
        Some(mut children) => match children.last() {
            Some(child) => last_value(&child, store)?,
            None => node.value_opt().map(|x| x.to_owned()),
            //@~ None => match node.value_opt() { Some(x) => Some(x.to_owned()), None => None },
        },
        None => node.value_opt().map(|x| x.to_owned()),
        //@~ None => match node.value_opt() { Some(x) => Some(x.to_owned()), None => None },
    })
}

fn first_entry<S: BlobStore>(
    mut prefix: Vec<u8>,
    node: &TreeNodeRef<S>,
    store: &S,
) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
    //@spec requires okref(*node, *store),
    //@spec ensures r is Ok && r->Ok_0 is Some ==> valok((r->Ok_0->0).1, *store),
    //@spec decreases dep(node.nw(), *store),
    //@ broadcast use group_ok;
    prefix.extend_from_slice(&node.load_prefix(store)?);
    Ok(match node.value_opt() {
        Some(value) => Some((prefix, value.to_owned())),
        None => match node.load_children(store)? {
            Some(mut children) => match children.next() {
                Some(child) => first_entry(prefix, &child, store)?,
                None => None,
            },
            None => None,
        },
    })
}

fn last_entry<S: BlobStore>(
    mut prefix: Vec<u8>,
    node: &TreeNodeRef<S>,
    store: &S,
) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
    //@spec requires okref(*node, *store),
    //@spec ensures r is Ok && r->Ok_0 is Some ==> valok((r->Ok_0->0).1, *store),
    //@spec decreases dep(node.nw(), *store),
    //@ broadcast use group_ok;
    prefix.extend_from_slice(&node.load_prefix(store)?);
    Ok(match node.load_children(store)? {
        Some(mut children) => match children.last() {
            Some(child) => last_entry(prefix, &child, store)?,
            None => node.value_opt().map(|x| (prefix, x.to_owned())),
            //@~ None => match node.value_opt() { Some(x) => Some((prefix, x.to_owned())), None => None },
        },
        None => node.value_opt().map(|x| (prefix, x.to_owned())),
        //@~ None => match node.value_opt() { Some(x) => Some((prefix, x.to_owned())), None => None },
    })
}

fn common_prefix<'a, T: Eq>(a: &'a [T], b: &'a [T]) -> usize {
    //@hdr fn common_prefix<'a>(a: &'a [u8], b: &'a [u8]) -> (r: usize)
    //@spec ensures r == cpl(a@, b@),
    //@ broadcast use group_ok;
    a.iter().zip(b).take_while(|(a, b)| a == b).count()
    //@~ let n = siter(a).zip(b).take_while(|x: &(&u8, &u8)| -> (o: bool) ensures o == (*x.0 == *x.1) { let (a, b) = x; a == b }).count();
    //@~ proof { lemma_cpl_is(a@, b@, n as nat); }
    //@~ n
}

impl<S: BlobStore> TreeNode<S> {
    fn contains_key(&self, key: &[u8], store: &S) -> Result<bool, S::Error> {
        //@spec requires self.inv(), okn(self.nw(), *store),
        //@ broadcast use group_ok;
        find(store, &TreeNodeRef(Ok(self)), key, |r| {
        //@~ find(store, &TreeNodeRef(Ok(self)), key, |r: FindResult<&TreeNodeRef<S>>| -> (o: Result<bool, S::Error>)
        //@~ requires self.inv(), ok_fr(r, *store, key@),
        //@~ {
            Ok(if let FindResult::Found(tree) = r {
                tree.value_opt().is_some()
            } else {
                false
            })
        })
    }

    fn has_prefix(&self, prefix: &[u8], store: &S) -> Result<bool, S::Error> {
        //@spec requires self.inv(), okn(self.nw(), *store),
        //@ broadcast use group_ok;
        find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
        //@~ find(store, &TreeNodeRef(Ok(self)), prefix, |r: FindResult<&TreeNodeRef<S>>| -> (o: Result<bool, S::Error>)
        //@~ requires self.inv(), ok_fr(r, *store, prefix@),
        //@~ {
            Ok(match r {
                FindResult::Found(_) => !self.is_empty(),
                FindResult::Prefix { .. } => true,
                FindResult::NotFound => false,
            })
        })
    }

    fn get(&self, key: &[u8], store: &S) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires self.inv(), okn(self.nw(), *store),
        //@spec ensures r is Ok ==> okval(r->Ok_0, *store),
        //@ broadcast use group_ok;
        find(store, &TreeNodeRef(Ok(self)), key, |r| {
        //@~ find(store, &TreeNodeRef(Ok(self)), key, |r: FindResult<&TreeNodeRef<S>>| -> (o: Result<Option<Value<S>>, S::Error>)
        //@~ requires self.inv(), ok_fr(r, *store, key@),
        //@~ ensures o is Ok ==> okval(o->Ok_0, *store),
        //@~ {
            Ok(if let FindResult::Found(tree) = r {
                tree.value_opt().map(|x| x.to_owned())
                //@~ match tree.value_opt() { Some(x) => Some(x.to_owned()), None => None }
            } else {
                None
            })
        })
    }

}
