impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
    fn detached(&self, store: &S) -> Result<TreeNode<Detached>, S::Error>
    where
        S: BlobStore, {
        //@spec requires self.inv(), okn(self.nw(), *store),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), Detached),
        //@spec decreases dep(self.nw(), *store), 1nat,
        //@ broadcast use group_okc;
        self.to_owned().detached(store)
    }

}

impl<'a> TreeNodeRef<'a, Detached> {
    pub fn downcast<S2: BlobStore>(&self) -> TreeNode<S2> {
        //@spec requires self.inv(), okn(self.nw(), Detached), self.0 is Ok,
        //@spec ensures r.inv() && forall|s: S2| #[trigger] okn(r.nw(), s),
        //@ broadcast use group_okc;
        match self.dispatch() {
            Ok(owned) => owned.downcast(),
            Err(_) => unreachable!(),
        }
    }

}

impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
    fn detached(&self, store: &S) -> Result<TreeNode<Detached>, S::Error> {
        //@spec requires okref(*self, *store),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), Detached),
        //@spec decreases dep(self.nw(), *store), 2nat,
        //@ broadcast use group_okc;
        match self.dispatch() {
            Ok(inner) => inner.detached(store),
            Err(inner) => inner.detached(store),
        }
    }

}

impl TreeNode<Detached> {
    //@pre #[verifier::external_body]
    pub fn downcast<S2: BlobStore>(&self) -> TreeNode<S2> {
        //@spec requires self.inv(), okn(self.nw(), Detached),
        //@spec ensures r.inv() && forall|s: S2| #[trigger] okn(r.nw(), s),
        let res = self.clone();
        unsafe { std::mem::transmute(res) }
    }

}

impl<S: BlobStore> TreeNode<S> {
    fn detached(&self, store: &S) -> Result<TreeNode<Detached>, S::Error> {
        //@spec requires self.inv(), okn(self.nw(), *store),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), Detached),
        //@spec decreases dep(self.nw(), *store), 0nat,
        //@ broadcast use group_okc;
        let mut res = TreeNode::EMPTY;
        //@~ let mut res = TreeNode::<Detached>::EMPTY;
        res.set_prefix_slice(self.load_prefix(store)?.as_ref());
        res.set_value(self.load_value(store)?);
        if let Some(mut children) = self.load_children(store)? {
            let mut rc = Vec::new();
            while let Some(child) = children.next() {
                //@spec invariant oki(children, *store), okv(rc@, Detached), rdep(children.rem(), *store) < dep(self.nw(), *store),
                //@spec decreases rem_len(children.rem()),
                //@ broadcast use group_okc;
                rc.push(child.detached(store)?);
            }
            res.set_children_arc_opt(Some(Arc::new(rc)));
        }
        Ok(res)
    }

}

impl<'a, S: BlobStore> OwnedTreeNodeIter<'a, S> {
    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
        //@spec requires self.inv(), self.0 is Some ==> self.0->0@ == self.1.left(), okr(self.rem(), *store),
        //@spec ensures r is Ok ==> okarc(r->Ok_0),
        //@ broadcast use group_okc;
        Ok(if self.is_empty() {
            None
        } else if self.0.is_some() && is_no_store::<S>() {
            unsafe { std::mem::transmute(self.0.clone()) }
            //@~ cast_children(match &self.0 { Some(a) => Some(a.clone()), None => None }, Ghost(*store))
        } else {
            let mut res = Vec::with_capacity(self.1.len());
            while let Some(x) = self.next() {
                //@spec invariant self.inv(), okr(self.rem(), *store), okv(res@, Detached),
                //@spec decreases rem_len(self.rem()),
                //@ broadcast use group_okc;
                res.push(x.detached(store)?);
            }
            Some(Arc::new(res))
        })
    }

}

impl<S: BlobStore> BorrowedTreeNodeIter<S> {
    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
        //@spec requires oki(TreeNodeIter::Borrowed(self), *store),
        //@spec ensures r is Ok ==> okarc(r->Ok_0),
        //@ broadcast use group_okc;
        let mut res = Vec::new();
        while let Some(x) = self.next() {
            //@spec invariant self.inv(), okr(self.rem(), *store), okv(res@, Detached),
            //@spec decreases rem_len(self.rem()),
            //@ broadcast use group_okc;
            res.push(x.detached(store)?);
        }
        Ok(if res.is_empty() {
            None
        } else {
            Some(Arc::new(res))
        })
    }

}

impl<'a, S: BlobStore> TreeNodeIter<'a, S> {
    fn detached(self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
        //@spec requires oki(self, *store), self.fresh(),
        //@spec ensures r is Ok ==> okarc(r->Ok_0),
        //@ broadcast use group_okc;
        match self {
            Self::Owned(x) => x.detached(store),
            Self::Borrowed(x) => x.detached(store),
        }
    }

}
