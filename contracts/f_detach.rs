impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
    fn detached(&self, store: &S) -> Result<TreeNode<Detached>, S::Error>
    where
        S: BlobStore, {
        //@spec requires self.inv(), rep(self.nw(), *store),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.nw().tight() && repr(r->Ok_0.nw(), Detached, tv(self.nw(), *store)),
        //@spec decreases tv(self.nw(), *store), 1nat,
        self.to_owned().detached(store)
    }

}

impl<'a> TreeNodeRef<'a, Detached> {
    pub fn downcast<S2: BlobStore>(&self) -> TreeNode<S2> {
        //@spec requires self.inv(), rep(self.nw(), Detached), self.nw().tight(), self.0 is Ok,
        //@spec ensures r.inv() && r.nw().tight() && forall|s: S2| #[trigger] repr(r.nw(), s, tv(self.nw(), Detached)),
        match self.dispatch() {
            Ok(owned) => owned.downcast(),
            Err(_) => unreachable!(),
        }
    }

}

impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
    fn detached(&self, store: &S) -> Result<TreeNode<Detached>, S::Error> {
        //@spec requires self.inv(), rep(self.nw(), *store),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.nw().tight() && repr(r->Ok_0.nw(), Detached, tv(self.nw(), *store)),
        //@spec decreases tv(self.nw(), *store), 2nat,
        match self.dispatch() {
            Ok(inner) => inner.detached(store),
            Err(inner) => inner.detached(store),
        }
    }

}

impl TreeNode<Detached> {
    //@pre #[verifier::external_body]
    pub fn downcast<S2: BlobStore>(&self) -> TreeNode<S2> {
        //@spec requires self.inv(), rep(self.nw(), Detached),
        //@spec ensures r.inv() && (self.nw().tight() ==> r.nw().tight()) && forall|s: S2| #[trigger] repr(r.nw(), s, tv(self.nw(), Detached)),
        let res = self.clone();
        unsafe { std::mem::transmute(res) }
    }

}

impl<S: BlobStore> TreeNode<S> {
    fn detached(&self, store: &S) -> Result<TreeNode<Detached>, S::Error> {
        //@spec requires self.inv(), rep(self.nw(), *store),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.nw().tight() && repr(r->Ok_0.nw(), Detached, tv(self.nw(), *store)),
        //@spec decreases tv(self.nw(), *store), 0nat,
        //@ broadcast use lemma_cload;
        //@ let ghost t = tv(self.nw(), *store);
        let mut res = TreeNode::EMPTY;
        //@~ let mut res = TreeNode::<Detached>::EMPTY;
        res.set_prefix_slice(self.load_prefix(store)?.as_ref());
        res.set_value(self.load_value(store)?);
        //@ proof { lemma_crepr_empty::<Detached>(Seq::empty(), Detached); assert(rv(Detached, res.nw().v) == t.v()); }
        if let Some(mut children) = self.load_children(store)? {
            let mut rc = Vec::new();
            //@ proof { lemma_drepr_nil(rc@, Detached); assert(t.c().skip(0) =~= t.c()); assert(t.c().take(0) =~= Seq::empty()); }
            while let Some(child) = children.next() {
                //@spec invariant children.inv(), drepr(rc@, Detached, t.c().take(rc@.len() as int)), rc@.len() <= t.c().len(), irepr(children.rem(), *store, t.c().skip(rc@.len() as int)), t == tv(self.nw(), *store), t.c().len() > 0,
                //@spec ensures rc@.len() == t.c().len(),
                //@spec decreases rem_len(children.rem()),
                //@ let ghost k = rc@.len() as int;
                //@ proof { assert(t.c().skip(k)[0] == t.c()[k]); assert(t.c().skip(k).skip(1) =~= t.c().skip(k + 1)); assert(t.c().take(k).push(t.c()[k]) =~= t.c().take(k + 1)); }
                rc.push(child.detached(store)?);
                //@ proof { lemma_drepr_push(rc@.drop_last(), Detached, t.c().take(k), rc@.last(), t.c()[k]); assert(rc@.drop_last().push(rc@.last()) =~= rc@); }
            }
            //@ proof { assert(t.c().take(rc@.len() as int) =~= t.c()); lemma_crepr_data(rc@, Detached, t.c()); }
            res.set_children_arc_opt(Some(Arc::new(rc)));
        }
        //@ proof { assert(crepr(res.nw().c, Detached, t.c())) by { if t.c().len() == 0 { assert(t.c() =~= Seq::empty()); } } lemma_mk(res.nw(), Detached, t.p(), t.v(), t.c()); }
        Ok(res)
    }

}

impl<'a, S: BlobStore> OwnedTreeNodeIter<'a, S> {
    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
        //@spec requires self.inv(), self.0 is Some ==> self.0->0@ == self.1.left(), irep(self.rem(), *store),
        //@spec ensures r is Ok ==> iter_det(r->Ok_0, itv(self.rem(), *store)),
        //@ let ghost ts = itv(self.rem(), *store);
        //@ proof { assert(irepr(self.rem(), *store, ts)); assert(drepr(self.1.left(), *store, ts)); }
        Ok(if self.is_empty() {
            None
        } else if self.0.is_some() && is_no_store::<S>() {
            unsafe { std::mem::transmute(self.0.clone()) }
            //@~ cast_children(match &self.0 { Some(a) => Some(a.clone()), None => None }, Ghost(*store))
        } else {
            let mut res = Vec::with_capacity(self.1.len());
            //@ proof { lemma_drepr_nil(res@, Detached); assert(ts.skip(0) =~= ts); assert(ts.take(0) =~= Seq::empty()); }
            while let Some(x) = self.next() {
                //@spec invariant self.inv(), drepr(res@, Detached, ts.take(res@.len() as int)), res@.len() <= ts.len(), irepr(self.rem(), *store, ts.skip(res@.len() as int)),
                //@spec ensures res@.len() == ts.len(),
                //@spec decreases rem_len(self.rem()),
                //@ let ghost k = res@.len() as int;
                //@ proof { assert(ts.skip(k)[0] == ts[k]); assert(ts.skip(k).skip(1) =~= ts.skip(k + 1)); assert(ts.take(k).push(ts[k]) =~= ts.take(k + 1)); }
                res.push(x.detached(store)?);
                //@ proof { lemma_drepr_push(res@.drop_last(), Detached, ts.take(k), res@.last(), ts[k]); assert(res@.drop_last().push(res@.last()) =~= res@); }
            }
            //@ proof { assert(ts.take(res@.len() as int) =~= ts); }
            Some(Arc::new(res))
        })
    }

}

impl<S: BlobStore> BorrowedTreeNodeIter<S> {
    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
        //@spec requires self.inv(), irep(self.rem(), *store),
        //@spec ensures r is Ok ==> iter_det(r->Ok_0, itv(self.rem(), *store)),
        //@ let ghost ts = itv(self.rem(), *store);
        let mut res = Vec::new();
        //@ proof { lemma_drepr_nil(res@, Detached); assert(ts.skip(0) =~= ts); assert(ts.take(0) =~= Seq::empty()); }
        while let Some(x) = self.next() {
            //@spec invariant self.inv(), drepr(res@, Detached, ts.take(res@.len() as int)), res@.len() <= ts.len(), irepr(self.rem(), *store, ts.skip(res@.len() as int)),
            //@spec ensures res@.len() == ts.len(),
            //@spec decreases rem_len(self.rem()),
            //@ let ghost k = res@.len() as int;
            //@ proof { assert(ts.skip(k)[0] == ts[k]); assert(ts.skip(k).skip(1) =~= ts.skip(k + 1)); assert(ts.take(k).push(ts[k]) =~= ts.take(k + 1)); }
            res.push(x.detached(store)?);
            //@ proof { lemma_drepr_push(res@.drop_last(), Detached, ts.take(k), res@.last(), ts[k]); assert(res@.drop_last().push(res@.last()) =~= res@); }
        }
        //@ proof { assert(ts.take(res@.len() as int) =~= ts); }
        Ok(if res.is_empty() {
            None
        } else {
            Some(Arc::new(res))
        })
    }

}

impl<'a, S: BlobStore> TreeNodeIter<'a, S> {
    fn detached(self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
        //@spec requires self.inv(), self.fresh(), irep(self.rem(), *store),
        //@spec ensures r is Ok ==> iter_det(r->Ok_0, itv(self.rem(), *store)),
        match self {
            Self::Owned(x) => x.detached(store),
            Self::Borrowed(x) => x.detached(store),
        }
    }

}
