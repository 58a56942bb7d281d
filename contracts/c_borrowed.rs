}

struct BorrowedTreeNode<'a, S: BlobStore> {
    discriminator: u8,
    prefix_hdr: Header,
    value_hdr: Header,
    children_hdr: Header,

    prefix: &'a u8,

    value: &'a u8,

    children: &'a u8,
    p: PhantomData<&'a S>,
}

impl<'a, S: BlobStore> Clone for BorrowedTreeNode<'a, S> {
    fn clone(&self) -> Self {
        Self {
            discriminator: 1,
            prefix_hdr: self.prefix_hdr,
            value_hdr: self.value_hdr,
            children_hdr: self.children_hdr,
            prefix: self.prefix,
            value: self.value,
            children: self.children,
            p: self.p,
        }
    }

}

impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
    fn to_owned(&self) -> TreeNode<S> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.nw() =~= self.nw(),
        let mut res = TreeNode::EMPTY;
        res.set_prefix_borrowed(self.prefix_ref());
        res.set_value_borrowed(self.value_ref());
        res.set_children_id(self.children_ref().read().unwrap_err());
        res
    }

    fn first_prefix_byte(&self) -> Option<u8> {
        //@spec requires self.inv(),
        //@spec ensures r == self.nw().first(),
        self.prefix_ref().slice().first().cloned()
    }

    fn prefix_ref(&self) -> BorrowedBlobRef<'a> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.vv() == self.nw().p, r.hdr == self.prefix_hdr,
        BorrowedBlobRef::new(self.prefix_hdr, self.prefix)
    }

    fn value_ref(&self) -> BorrowedBlobRef<'a> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.vv() == self.nw().v, r.hdr == self.value_hdr,
        BorrowedBlobRef::new(self.value_hdr, self.value)
    }

    fn children_ref(&self) -> BorrowedBlobRef<'a> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.vv() =~= Raw::Id(self.nw().c->Id_0), r.hdr == self.children_hdr,
        BorrowedBlobRef::new(self.children_hdr, self.children)
    }

    fn bytes_len(&self) -> usize {
        //@spec ensures r == self.blen(),
        self.prefix_hdr.len() + self.value_hdr.len() + self.children_hdr.len() + 3
    }

    fn load_prefix(&self, store: &S) -> Result<Blob, S::Error>
    where
        S: BlobStore, {
        //@spec requires self.inv(), store.readable() || self.nw().p is Data,
        //@spec ensures r is Ok ==> r->Ok_0@ == rp(*store, self.nw().p), r is Err ==> self.nw().p is Id,
        match self.prefix_ref().read() {
            Ok(data) => Ok(Blob::new(data)),
            Err(id) => store.read(&id[1..]),
        }
    }

    fn value_ref_opt(&self) -> Option<ValueRef<S>> {
        //@spec requires self.inv(),
        //@spec ensures match r { Some(x) => x.inv() && x.vv() == self.nw().v && !self.nw().v.none(), None => self.nw().v.none() },
        if self.value_hdr != Header::NONE {
            Some(ValueRef(Err(self.value_ref()), PhantomData))
        } else {
            None
        }
    }

    fn load_children(&self, store: &S) -> Result<Option<TreeNodeIter<'static, S>>, S::Error>
    where
        S: BlobStore, {
        //@spec requires self.inv(), store.readable() || self.nw().c->Id_0.len() == 0,
        //@spec ensures r is Ok ==> cload(self.nw().c, *store, r->Ok_0, true),
        if self.children_hdr.is_none() {
            Ok(TreeNodeIter::from_slice(&[]))
        } else {
            assert!(self.children_hdr.is_id());
            let id = self.children_ref().slice();
            TreeNodeIter::load(id, store)
        }
    }

    pub fn read(buffer: &'a [u8]) -> Option<Self> {
        //@spec ensures match r { None => pn::<S>(buffer@) is None, Some(n) => n.inv() && pn::<S>(buffer@) == Some((n.nw(), n.blen())) },
        Some(Self::read_one(buffer)?.0)
    }

    pub fn read_one(rest: &'a [u8]) -> Option<(Self, &'a [u8])> {
        //@spec ensures match r { None => pn::<S>(rest@) is None, Some(n) => n.0.inv() && pn::<S>(rest@) == Some((n.0.nw(), n.0.blen())) && n.1@ =~= rest@.skip(n.0.blen() as int) },
        //@ let ghost b = rest@;
        let prefix_hdr = Header::from(*rest.first()?);
        let len = prefix_hdr.len() + 1;
        if rest.len() < len {
            return None;
        }
        if prefix_hdr.is_none() {
            return None;
        }
        let (prefix, rest) = (&rest[0], &rest[len..]);
        let value_hdr = Header::from(*rest.first()?);
        let len = value_hdr.len() + 1;
        if rest.len() < len {
            return None;
        }
        let (value, rest) = (&rest[0], &rest[len..]);
        let children_hdr = Header::from(*rest.first()?);
        let len = children_hdr.len() + 1;
        if rest.len() < len {
            return None;
        }
        if !children_hdr.is_id() {
            return None;
        }
        let (children, rest) = (&rest[0], &rest[len..]);
        Some((
            Self {
                discriminator: 1,
                prefix_hdr,
                prefix,
                value_hdr,
                value,
                children_hdr,
                children,
                p: PhantomData,
            },
            rest,
        ))
    }

}

pub struct TreeNodeRef<'a, S: BlobStore = Detached>(
    Result<&'a TreeNode<S>, BorrowedTreeNode<'a, S>>,
);

impl<'a> TreeNodeRef<'a, Detached> {
}

impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
    fn owned(x: &'a TreeNode<S>) -> Self {
        //@spec ensures r.0 == Ok::<&'a TreeNode<S>, BorrowedTreeNode<'a, S>>(x),
        Self(Ok(x))
    }

    fn borrowed(x: BorrowedTreeNode<'a, S>) -> Self {
        //@spec ensures r.0 == Err::<&'a TreeNode<S>, BorrowedTreeNode<'a, S>>(x),
        Self(Err(x))
    }

    fn dispatch(&self) -> Result<&'a TreeNode<S>, BorrowedTreeNode<S>> {
        //@spec ensures r == self.0,
        match self.0 {
            Ok(inner) => Ok(inner),
            Err(inner) => Err(inner),
        }
    }

    fn to_owned(&self) -> TreeNode<S> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.nw() =~= self.nw(),
        match self.dispatch() {
            Ok(owned) => owned.clone(),
            Err(borrowed) => borrowed.to_owned(),
        }
    }

    fn load_prefix(&self, store: &S) -> Result<Blob, S::Error> {
        //@spec requires self.inv(), store.readable() || self.nw().p is Data,
        //@spec ensures r is Ok ==> r->Ok_0@ == rp(*store, self.nw().p), r is Err ==> self.nw().p is Id,
        match &self.0 {
            Ok(owned) => owned.load_prefix(store),
            Err(borrowed) => borrowed.load_prefix(store),
        }
    }

    fn load_children(&self, store: &S) -> Result<Option<TreeNodeIter<S>>, S::Error> {
        //@spec requires self.inv(), store.readable() || self.nw().c is Data || self.nw().c->Id_0.len() == 0,
        //@spec ensures r is Ok ==> cload(self.nw().c, *store, r->Ok_0, true),
        match self.dispatch() {
            Ok(owned) => owned.load_children(store),
            Err(borrowed) => borrowed.load_children(store),
        }
    }

    fn load_children_owned(&self, store: &S) -> Result<Option<TreeNodeIter<'static, S>>, S::Error> {
        //@spec requires self.inv(), store.readable() || self.nw().c is Data || self.nw().c->Id_0.len() == 0,
        //@spec ensures r is Ok ==> cload(self.nw().c, *store, r->Ok_0, false),
        match self.dispatch() {
            Ok(owned) => owned.load_children_owned(store),
            Err(borrowed) => borrowed.load_children(store),
        }
    }

    fn value_opt(&self) -> Option<ValueRef<S>> {
        //@spec requires self.inv(),
        //@spec ensures match r { Some(x) => x.inv() && x.vv() == self.nw().v && !self.nw().v.none(), None => self.nw().v.none() },
        match &self.0 {
            Ok(owned) => owned.value_opt().map(|x| ValueRef(Ok(x.0), PhantomData)),
            //@~ Ok(owned) => match owned.value_opt() { Some(x) => Some(ValueRef(Ok(x.0), PhantomData)), None => None },
            Err(borrowed) => borrowed.value_ref_opt(),
        }
    }

}