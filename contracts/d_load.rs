impl<S: BlobStore> TreeNode<S> {
    fn as_ref(&self) -> TreeNodeRef<S> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.nw() == self.nw(), r.0 is Ok,
        TreeNodeRef::owned(self)
    }

    fn load_children(&self, store: &S) -> Result<Option<TreeNodeIter<S>>, S::Error> {
        //@spec requires self.inv(), store.readable() || self.nw().c is Data || self.nw().c->Id_0.len() == 0,
        //@spec ensures r is Ok ==> cload(self.nw().c, *store, r->Ok_0, true),
        match self.get_children() {
            Ok(children) => Ok(TreeNodeIter::from_slice(children)),
            Err(id) => TreeNodeIter::load(id, store),
        }
    }

    fn load_children_owned(&self, store: &S) -> Result<Option<TreeNodeIter<'static, S>>, S::Error> {
        //@spec requires self.inv(), store.readable() || self.nw().c is Data || self.nw().c->Id_0.len() == 0,
        //@spec ensures r is Ok ==> cload(self.nw().c, *store, r->Ok_0, false),
        match self.get_children() {
            Ok(children) => Ok(Some(TreeNodeIter::from_arc(children.clone()))),
            Err(id) => TreeNodeIter::load(id, store),
        }
    }

    fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
        //@spec requires self.inv(), store.readable() || self.nw().p is Data,
        //@spec ensures r is Ok ==> r->Ok_0@ == rp(*store, self.nw().p), r is Err ==> self.nw().p is Id,
        if self.prefix_ref().is_id() {
            store.read(&self.prefix_ref().slice()[1..])
        } else {
            Ok(Blob::new(self.prefix_ref().slice()))
        }
    }

    fn load_value(&self, store: &S) -> Result<Option<Blob<'_>>, S::Error> {
        //@spec requires self.inv(), store.readable() || self.nw().v is Data || self.nw().v.none(),
        //@spec ensures r is Ok ==> match r->Ok_0 { Some(x) => rv(*store, self.nw().v) == Some(x@), None => rv(*store, self.nw().v) is None },
        if self.value_ref().is_id() {
            if self.value_ref().is_none() {
                Ok(None)
            } else {
                store.read(self.value_ref().slice()).map(Some)
                //@~ match store.read(self.value_ref().slice()) { Ok(x) => Ok(Some(x)), Err(e) => Err(e) }
            }
        } else {
            Ok(Some(Blob::new(self.value_ref().slice())))
        }
    }

}
