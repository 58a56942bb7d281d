impl<S: BlobStore> TreeNode<S> {
    fn deserialize(data: &[u8]) -> anyhow::Result<Self> {
        //@hdr fn deserialize(data: &[u8]) -> (r: Result<Self, AnyErr>)
        //@spec ensures match r { Ok(n) => n.inv() && n.nw().tight() && pn::<S>(data@) == Some((n.nw(), data@.len())), Err(_) => pn::<S>(data@) is None || (pn::<S>(data@)->0).1 < data@.len() },
        if let Some((node, rest)) = BorrowedTreeNode::<S>::read_one(data) {
            //@ proof { lemma_pn_len::<S>(data@); }
            anyhow::ensure!(rest.is_empty());
            //@~ if !rest.is_empty() { return Err(AnyErr); }
            Ok(node.to_owned())
        } else {
            anyhow::bail!("Unable to deserialize {}!", Hex::new(data));
            //@~ Err(AnyErr)
        }
    }

    fn serialize<S2: BlobStore>(&self, target: &mut Vec<u8>, store: &S2) -> Result<(), S2::Error> {
        //@hdr fn serialize<S2: BlobStore>(&self, target: &mut Vec<u8>, store: &S2, Ghost(t): Ghost<T>) -> (r: Result<(), S2::Error>)
        //@spec requires self.inv(), store.readable(), xrepr(self.nw(), *store, t),
        //@spec ensures r is Ok ==> final(target)@.len() > old(target)@.len() && final(target)@ == old(target)@ + final(target)@.skip(old(target)@.len() as int) && enc(final(target)@.skip(old(target)@.len() as int), *store, t),
        //@spec decreases t,
        //@ let ghost a0 = target@;
        //@ let ghost n = self.nw();
        self.prefix_ref().serialize(target, 1, store)?;
        //@ let ghost a1 = target@;
        //@ let ghost e1 = a1.skip(a0.len() as int);
        self.value_ref().serialize(target, 0, store)?;
        //@ let ghost a2 = target@;
        //@ let ghost e2 = a2.skip(a1.len() as int);
        match self.get_children() {
            Ok(children) if !children.is_empty() => {
                let mut serialized = Vec::new();
                let mut record_size = 0usize;
                //@ let ghost mut i = 0int;
                for child in children.iter() {
                    //@~ let mut it = siter(children);
                    //@~ while let Some(child) = it.next()
                    //@~     invariant it.left() == children@.skip(i), 0 <= i <= n.c->Data_0.len(), n.c is Data, n.c->Data_0 == children@, xdrepr(n.c->Data_0, *store, t.c()), store.readable(), brepr(serialized@, *store, t.c().take(i)), i > 0 ==> serialized@.len() > 0,
                    //@~     ensures i == children@.len(),
                    //@~     decreases it.left().len(),
                    //@~ {
                    //@ proof { assert(n.c->Data_0[i].inv()); }
                    //@ let ghost b0 = serialized@;
                    let ofs = serialized.len();
                    child.serialize(&mut serialized, store)?;
                    //@~ child.serialize(&mut serialized, store, Ghost(t.c()[i]))?;
                    let len = serialized.len() - ofs;
                    if record_size == 0 {
                        record_size = len;
                    } else if record_size != len {
                        record_size = usize::max_value()
                        //@~ record_size = usize::MAX
                    }
                    //@ proof { let e = serialized@.skip(ofs as int); assert(serialized@ == b0 + e); lemma_brepr_push(b0, *store, t.c().take(i), e, t.c()[i]); assert(t.c().take(i + 1) =~= t.c().take(i).push(t.c()[i])); i = i + 1; }
                }
                let id = store.write(&serialized)?;
                target.push(Header::id(id.len() + 1).into());
                target.push(record_size.try_into().unwrap_or_default());
                //@~ target.push(small(record_size));
                target.extend_from_slice(&id);
                //@ proof { let e3 = target@.skip(a2.len() as int); assert(t.c().take(i) =~= t.c()); assert(e3.skip(1).skip(1) =~= id@); lemma_enc(n, *store, t, e1, e2, e3); assert(target@.skip(a0.len() as int) =~= e1 + e2 + e3); }
            }
            Ok(_) => {
                // todo: why can we get here at all? Empty children should always be represented as id none
                target.push(Header::NONE.into());
                //@ proof { let e3 = target@.skip(a2.len() as int); assert(e3 =~= seq![0x80u8]); assert(e3.skip(1) =~= Seq::empty()); lemma_enc(n, *store, t, e1, e2, e3); assert(target@.skip(a0.len() as int) =~= e1 + e2 + e3); }
            }
            Err(id) => {
                target.push(self.children_hdr.into());
                target.extend_from_slice(id);
                //@ proof { let e3 = target@.skip(a2.len() as int); assert(e3.skip(1) =~= id@); lemma_enc(n, *store, t, e1, e2, e3); assert(target@.skip(a0.len() as int) =~= e1 + e2 + e3); }
            }
        }
        Ok(())
    }

}

impl TreeNode<Detached> {
    pub fn try_attached<S: BlobStore>(&self, store: &S) -> Result<TreeNode<S>, S::Error> {
        //@spec requires self.inv(), rep(self.nw(), Detached), store.readable(),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.nw().tight() && repr(r->Ok_0.nw(), *store, tv(self.nw(), Detached)),
        let mut data = Vec::new();
        //@ let ghost t = tv(self.nw(), Detached);
        //@ proof { lemma_x_detached(self.nw(), *store, t); }
        self.serialize(&mut data, store)?;
        //@~ self.serialize(&mut data, store, Ghost(t))?;
        //@ proof { assert(data@.skip(0) =~= data@); }
        Ok(TreeNode::<S>::deserialize(&data).unwrap())
        //@~ Ok(node_of(TreeNode::<S>::deserialize(&data)))
    }

}

impl RadixTree {
    fn try_attached<S: BlobStore>(&self, store: S) -> Result<RadixTree<S>, S::Error> {
        //@spec requires self.ok(), store.readable(),
        //@spec ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.store == store && r->Ok_0.t() == self.t(),
        let node = self.node.try_attached(&store)?;
        Ok(RadixTree { node, store })
    }

}

impl<S: BlobStore> RadixTree<S> {
    pub fn try_load(store: S, id: Option<impl AsRef<[u8]>>) -> Result<Self, S::Error> {
        //@spec requires store.readable(), id is Some ==> (id->0).bok(),
        //@spec ensures r is Ok && id is None ==> r->Ok_0.ok() && r->Ok_0.t() == t_empty(),
        //@spec r is Ok && id is Some ==> forall|t: T| #[trigger] enc(store.blob((id->0).bts()), store, t) && wf(t) ==> r->Ok_0.ok() && r->Ok_0.t() == t,
        //@spec r is Ok ==> r->Ok_0.node.inv() && r->Ok_0.store == store,
        Ok(if let Some(id) = id {
            let data = store.read(id.as_ref())?;
            let node = TreeNode::deserialize(&data)?;
            Self::new(node, store)
        } else {
            Self::empty(store)
        })
    }

}

impl<S: BlobStore + Clone> RadixTree<S> {
    fn try_reattach(&mut self) -> Result<Vec<u8>, S::Error> {
        //@spec requires old(self).ok(), old(self).store.readable(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store, final(self).t() == old(self).t(), r is Err ==> *final(self) == *old(self),
        //@spec r is Ok ==> enc(old(self).store.blob(r->Ok_0@), old(self).store, old(self).t()),
        let mut data = Vec::new();
        //@ let ghost t = self.t();
        //@ proof { lemma_x_same(self.node.nw(), self.store, t); }
        self.node.serialize(&mut data, &self.store)?;
        //@~ self.node.serialize(&mut data, &self.store, Ghost(t))?;
        //@ proof { assert(data@.skip(0) =~= data@); }
        let id = self.store.write(&data)?;
        self.node = TreeNode::deserialize(&data)?;
        Ok(id)
    }

}
