struct OwnedTreeNodeIter<'a, S>(Option<Arc<Vec<TreeNode<S>>>>, slice::Iter<'a, TreeNode<S>>);

impl<S: BlobStore> OwnedTreeNodeIter<'static, S> {
    fn new_owned(owner: Arc<Vec<TreeNode<S>>>) -> Self {
        //@spec ensures r.rem() == Rem::Data(owner@), r.0 is Some, r.0->0@ == owner@,
        let iter = unsafe { extend_lifetime(owner.as_ref()) }.iter();
        //@~ let iter = siter_static(&owner);
        Self(Some(owner.clone()), iter)
    }

}

//@pre #[verifier::external_body]
fn is_no_store<S: 'static>() -> bool {
    //@spec ensures r ==> no_store::<S>(),
    TypeId::of::<S>() == TypeId::of::<Detached>()
}

impl<'a, S: BlobStore> OwnedTreeNodeIter<'a, S> {
    fn new(slice: &'a [TreeNode<S>]) -> Self {
        //@spec ensures r.rem() == Rem::Data(slice@), r.0 is None,
        Self(None, slice.iter())
    }

    fn into_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
        //@spec requires self.inv(), self.0 is Some ==> self.0->0@ == self.1.left(),
        //@spec ensures match r { Some(a) => vinv(a@) && vnodes(a@) =~= rem_nodes(self.rem()), None => rem_nodes(self.rem()).len() == 0 },
        if let Some(arc) = self.0.as_ref() {
            Some(arc.clone())
        } else if self.is_empty() {
            None
        } else {
            let mut res = Vec::with_capacity(self.1.len());
            //@ let ghost all = rem_nodes(self.rem());
            while let Some(x) = self.next() {
                //@spec invariant self.inv(), vinv(res@), vnodes(res@) + rem_nodes(self.rem()) =~= all,
                //@spec ensures rem_head(self.rem()) is None,
                //@spec decreases rem_len(self.rem()),
                res.push(x.to_owned());
            }
            Some(Arc::new(res))
        }
    }

    fn is_empty(&self) -> bool {
        //@spec ensures r == (self.1.left().len() == 0),
        self.1.as_slice().is_empty()
    }

    fn find(&self, prefix: u8) -> Option<&TreeNode<S>> {
        //@spec requires self.inv(),
        //@spec ensures match r { Some(n) => n.inv() && is_find(rem_nodes(self.rem()), prefix, Some(n.nw())), None => is_find(rem_nodes(self.rem()), prefix, None) },
        let slice = self.1.as_slice();
        //@ proof { lemma_owned_find(slice@, prefix); }
        if slice.len() == 256 {
            Some(&slice[prefix as usize])
        } else {
            slice
                .binary_search_by_key(&Some(prefix), |x| x.first_prefix_byte())
                .ok()
                .map(|i| &slice[i])
            //@~4 bsearch_first(slice, prefix)
        }
    }

    fn first_prefix_byte_opt(&mut self) -> Option<Option<u8>> {
        //@spec requires old(self).inv(),
        //@spec ensures r == rem_first(old(self).rem()), *final(self) == *old(self),
        self.1.as_slice().get(0).map(|x| x.first_prefix_byte())
        //@~ match self.1.as_slice().get(0) { Some(x) => Some(x.first_prefix_byte()), None => None }
    }

    fn next(&mut self) -> Option<&TreeNode<S>> {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).rem() == rem_tail(old(self).rem()),
        //@spec match r { Some(n) => n.inv() && rem_head(old(self).rem()) == Some(n.nw()), None => rem_head(old(self).rem()) is None },
        self.1.next()
    }

    fn last(&mut self) -> Option<&TreeNode<S>> {
        //@spec requires old(self).inv(),
        //@spec ensures match r { Some(n) => n.inv() && is_last(rem_nodes(old(self).rem()), Some(n.nw())), None => is_last(rem_nodes(old(self).rem()), None::<NV<S>>) }, *final(self) == *old(self),
        self.1.as_slice().last()
    }

}

struct BorrowedTreeNodeIter<S> {
    data: OwnedBlob,
    offset: usize,
    record_size: u8,
    p: PhantomData<S>,
}

impl<S: BlobStore> BorrowedTreeNodeIter<S> {
    fn load(id: &[u8], store: &S) -> Result<Option<Self>, S::Error> {
        //@spec requires id@.len() == 0 || store.readable(),
        //@spec ensures match r { Ok(Some(x)) => id@.len() > 0 && x.inv() && x.rem() == Rem::<S>::Bytes(store.blob(id@.skip(1))), Ok(None) => id@.len() == 0, Err(_) => id@.len() > 0 },
        //@ proof { let d = store.blob(id@.skip(1)); assert(d.skip(0) =~= d); }
        Ok(if id.is_empty() {
            None
        } else {
            let (record_size, data) = (id[0], store.read(&id[1..])?);
            Some(Self {
                data,
                offset: 0,
                record_size,
                p: PhantomData,
            })
        })
    }

    fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
        //@spec requires self.inv(),
        //@spec ensures match r { Some(a) => vinv(a@) && vnodes(a@) =~= rem_nodes(self.rem()), None => rem_nodes(self.rem()).len() == 0 },
        let mut res = Vec::new();
        //@ let ghost all = rem_nodes(self.rem());
        while let Some(x) = self.next() {
            //@spec invariant self.inv(), vinv(res@), vnodes(res@) + rem_nodes(self.rem()) =~= all,
            //@spec ensures rem_head(self.rem()) is None,
            //@spec decreases rem_len(self.rem()),
            res.push(x.to_owned());
        }
        if res.is_empty() {
            None
        } else {
            Some(Arc::new(res))
        }
    }

    fn is_empty(&self) -> bool {
        //@spec ensures r == (self.offset == self.data@.len()),
        self.offset == self.data.len()
    }

    fn find(&self, prefix: u8) -> Option<BorrowedTreeNode<S>> {
        //@spec requires self.inv(),
        //@spec ensures match r { Some(n) => n.inv() && is_find(rem_nodes(self.rem()), prefix, Some(n.nw())), None => is_find(rem_nodes(self.rem()), prefix, None) },
        let _elems = if self.record_size != 0 {
            (self.data.len() - self.offset) / (self.record_size as usize)
        } else {
            0
        };
        let mut offset = self.offset;
        //@ let ghost all = rem_nodes(self.rem());
        //@ let ghost mut seen: Seq<NV<S>> = Seq::empty();
        while let Some(node) = BorrowedTreeNode::<S>::read(&self.data[offset..]) {
            //@spec invariant offset <= self.data@.len(), seen + bnodes::<S>(self.data@.skip(offset as int)) =~= all, all == rem_nodes(self.rem()),
            //@spec     forall|i: int| 0 <= i < seen.len() ==> (#[trigger] seen[i]).first() is None || seen[i].first()->0 < prefix,
            //@spec ensures bnodes::<S>(self.data@.skip(offset as int)).len() == 0,
            //@spec decreases self.data@.len() - offset,
            //@ let ghost buf = self.data@.skip(offset as int);
            //@ proof { lemma_bnodes::<S>(buf); lemma_pn::<S>(buf); seen = seen.push(node.nw()); assert(buf.skip(node.blen() as int) =~= self.data@.skip(offset + node.blen())); assert(seen + bnodes::<S>(buf.skip(node.blen() as int)) =~= all); lemma_seen(seen, all, prefix); }
            match node.first_prefix_byte().cmp(&Some(prefix)) {
                Ordering::Less => offset += node.bytes_len(),
                Ordering::Equal => return Some(node),
                Ordering::Greater => return None,
            }
        }
        None
    }

    fn first_prefix_byte_opt(&mut self) -> Option<Option<u8>> {
        //@spec requires old(self).inv(),
        //@spec ensures r == rem_first(old(self).rem()), *final(self) == *old(self),
        BorrowedTreeNode::<S>::read(&self.data[self.offset..]).map(|x| x.first_prefix_byte())
        //@~ match BorrowedTreeNode::<S>::read(&self.data[self.offset..]) { Some(x) => Some(x.first_prefix_byte()), None => None }
    }

    fn next(&mut self) -> Option<BorrowedTreeNode<S>> {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).rem() == rem_tail(old(self).rem()),
        //@spec match r { Some(n) => n.inv() && rem_head(old(self).rem()) == Some(n.nw()), None => rem_head(old(self).rem()) is None },
        if let Some(node) = BorrowedTreeNode::read(&self.data[self.offset..]) {
            //@ proof { assert(self.data@.skip(self.offset as int).skip(node.blen() as int) =~= self.data@.skip(self.offset + node.blen())); }
            self.offset += node.bytes_len();
            Some(node)
        } else {
            None
        }
    }

    fn last(&mut self) -> Option<BorrowedTreeNode<S>> {
        //@spec requires old(self).inv(),
        //@spec ensures match r { Some(n) => n.inv() && is_last(rem_nodes(old(self).rem()), Some(n.nw())), None => is_last(rem_nodes(old(self).rem()), None::<NV<S>>) }, *final(self) == *old(self),
        let mut offset = self.offset;
        let mut last = None;
        //@ let ghost all = rem_nodes(self.rem());
        //@ let ghost mut seen: Seq<NV<S>> = Seq::empty();
        while offset < self.data.len() {
            //@spec invariant offset <= self.data@.len(), seen + bnodes::<S>(self.data@.skip(offset as int)) =~= all,
            //@spec     blast_ok::<S>(last, seen),
            //@spec ensures bnodes::<S>(self.data@.skip(offset as int)).len() == 0,
            //@spec decreases self.data@.len() - offset,
            //@ let ghost buf = self.data@.skip(offset as int);
            //@ proof { lemma_bnodes::<S>(buf); lemma_pn::<S>(buf); if pn::<S>(buf) is Some { let x = pn::<S>(buf)->0; seen = seen.push(x.0); assert(buf.skip(x.1 as int) =~= self.data@.skip(offset + x.1)); } }
            if let Some(x) = BorrowedTreeNode::<S>::read(&self.data[offset..]) {
                last = Some(x);
                offset += x.bytes_len();
            } else {
                break;
            }
        }
        last
    }

}

enum TreeNodeIter<'a, S> {
    Owned(OwnedTreeNodeIter<'a, S>),
    Borrowed(BorrowedTreeNodeIter<S>),
}

impl<S: BlobStore> TreeNodeIter<'static, S> {
    fn from_arc(arc: Arc<Vec<TreeNode<S>>>) -> Self {
        //@spec ensures r is Owned, r.rem() == Rem::Data(arc@), r.fresh(),
        Self::Owned(OwnedTreeNodeIter::new_owned(arc))
    }

}

impl<'a, S: BlobStore> TreeNodeIter<'a, S> {
    fn load(id: &[u8], store: &S) -> Result<Option<Self>, S::Error> {
        //@spec requires id@.len() == 0 || store.readable(),
        //@spec ensures r is Ok ==> cload(Ch::<S>::Id(id@), *store, r->Ok_0, true), r is Err ==> id@.len() > 0,
        Ok(BorrowedTreeNodeIter::load(id, store)?.map(Self::Borrowed))
        //@~ Ok(match BorrowedTreeNodeIter::load(id, store)? { Some(x) => Some(Self::Borrowed(x)), None => None })
    }

    fn from_slice(slice: &'a [TreeNode<S>]) -> Option<Self> {
        //@spec ensures match r { Some(x) => slice@.len() > 0 && x is Owned && x.rem() == Rem::Data(slice@) && x.fresh(), None => slice@.len() == 0 },
        if !slice.is_empty() {
            Some(Self::Owned(OwnedTreeNodeIter::new(slice)))
        } else {
            None
        }
    }

    fn into_owned(self) -> Option<Arc<Vec<TreeNode<S>>>> {
        //@spec requires self.inv(), self.fresh(),
        //@spec ensures match r { Some(a) => vinv(a@) && vnodes(a@) =~= rem_nodes(self.rem()), None => rem_nodes(self.rem()).len() == 0 },
        match self {
            Self::Owned(x) => x.into_owned(),
            Self::Borrowed(x) => x.to_owned(),
        }
    }

    fn find(&self, prefix: u8) -> Option<TreeNodeRef<S>> {
        //@spec requires self.inv(),
        //@spec ensures match r { Some(n) => n.inv() && (n.0 is Err ==> self.rem() is Bytes) && is_find(rem_nodes(self.rem()), prefix, Some(n.nw())), None => is_find(rem_nodes(self.rem()), prefix, None) },
        match self {
            Self::Owned(x) => x.find(prefix).map(|x| TreeNodeRef::owned(x)),
            //@~ Self::Owned(x) => match x.find(prefix) { Some(x) => Some(TreeNodeRef::owned(x)), None => None },
            Self::Borrowed(x) => x.find(prefix).map(|x| TreeNodeRef::borrowed(x)),
            //@~ Self::Borrowed(x) => match x.find(prefix) { Some(x) => Some(TreeNodeRef::borrowed(x)), None => None },
        }
    }

    fn first_prefix_byte_opt(&mut self) -> Option<Option<u8>> {
        //@spec requires old(self).inv(),
        //@spec ensures r == rem_first(old(self).rem()), *final(self) == *old(self),
        match self {
            Self::Owned(x) => x.first_prefix_byte_opt(),
            Self::Borrowed(x) => x.first_prefix_byte_opt(),
        }
    }

    fn next(&mut self) -> Option<TreeNodeRef<'_, S>> {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).rem() == rem_tail(old(self).rem()),
        //@spec match r { Some(n) => n.inv() && (n.0 is Err ==> old(self).rem() is Bytes) && rem_head(old(self).rem()) == Some(n.nw()), None => rem_head(old(self).rem()) is None },
        match self {
            Self::Owned(x) => x.next().map(|x| TreeNodeRef::owned(x)),
            //@~ Self::Owned(x) => match x.next() { Some(x) => Some(TreeNodeRef::owned(x)), None => None },
            Self::Borrowed(x) => x.next().map(|x| TreeNodeRef::borrowed(x)),
            //@~ Self::Borrowed(x) => match x.next() { Some(x) => Some(TreeNodeRef::borrowed(x)), None => None },
        }
    }

    fn last(&mut self) -> Option<TreeNodeRef<'_, S>> {
        //@spec requires old(self).inv(),
        //@spec ensures match r { Some(n) => n.inv() && (n.0 is Err ==> old(self).rem() is Bytes) && is_last(rem_nodes(old(self).rem()), Some(n.nw())), None => is_last(rem_nodes(old(self).rem()), None::<NV<S>>) }, *final(self) == *old(self),
        match self {
            Self::Owned(x) => x.last().map(|x| TreeNodeRef::owned(x)),
            //@~ Self::Owned(x) => match x.last() { Some(x) => Some(TreeNodeRef::owned(x)), None => None },
            Self::Borrowed(x) => x.last().map(|x| TreeNodeRef::borrowed(x)),
            //@~ Self::Borrowed(x) => match x.last() { Some(x) => Some(TreeNodeRef::borrowed(x)), None => None },
        }
    }

}