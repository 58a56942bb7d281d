impl<S: BlobStore> TreeNode<S> {
    fn deserialize(data: &[u8]) -> anyhow::Result<Self> {
        //@hdr fn deserialize(data: &[u8]) -> (r: Result<Self, AnyErr>)
        //@spec ensures r is Ok ==> r->Ok_0.inv() && pn::<S>(data@) is Some && r->Ok_0.nw() == (pn::<S>(data@)->0).0, pn::<S>(data@) is Some && (pn::<S>(data@)->0).1 == data@.len() ==> r is Ok,
        //@ broadcast use group_okc;
        if let Some((node, rest)) = BorrowedTreeNode::<S>::read_one(data) {
            anyhow::ensure!(rest.is_empty());
            //@~ if !rest.is_empty() { return Err(AnyErr); }
            Ok(node.to_owned())
        } else {
            anyhow::bail!("Unable to deserialize {}!", Hex::new(data));
            //@~ Err(AnyErr)
        }
    }

    fn serialize<S2: BlobStore>(&self, target: &mut Vec<u8>, store: &S2) -> Result<(), S2::Error> {
        //@hdr fn serialize<S2: BlobStore>(&self, target: &mut Vec<u8>, store: &S2, Ghost(d): Ghost<nat>) -> (r: Result<(), S2::Error>)
        //@spec requires self.inv(), xokd(self.nw(), *store, d), store.readable(),
        //@spec ensures r is Ok ==> final(target)@.len() > old(target)@.len() && final(target)@ == old(target)@ + final(target)@.skip(old(target)@.len() as int) && whole::<S2>(final(target)@.skip(old(target)@.len() as int)) && okn((pn::<S2>(final(target)@.skip(old(target)@.len() as int))->0).0, *store),
        //@spec decreases d,
        //@ broadcast use group_okc;
        //@ let ghost a0 = target@;
        //@ let ghost n = self.nw();
        self.prefix_ref().serialize(target, 1, store)?;
        //@ let ghost a1 = target@;
        self.value_ref().serialize(target, 0, store)?;
        //@ let ghost a2 = target@;
        match self.get_children() {
            Ok(children) if !children.is_empty() => {
                let mut serialized = Vec::new();
                let mut record_size = 0usize;
                for child in children.iter() {
                    //@~ let mut it = siter(children);
                    //@~ while let Some(child) = it.next()
                    //@~     invariant forall|i: int| 0 <= i < it.left().len() ==> (#[trigger] it.left()[i]).inv() && xokd(it.left()[i].nw(), *store, (d - 1) as nat), d > 0, store.readable(), full::<S2>(serialized@), okns(bnodes::<S2>(serialized@), *store),
                    //@~     decreases it.left().len(),
                    //@~ {
                    //@ broadcast use group_okc;
                    //@ let ghost s0 = serialized@;
                    let ofs = serialized.len();
                    child.serialize(&mut serialized, store)?;
                    //@~ child.serialize(&mut serialized, store, Ghost((d - 1) as nat))?;
                    //@~ proof { lemma_bnodes_push::<S2>(s0, serialized@.skip(s0.len() as int), *store); }
                    let len = serialized.len() - ofs;
                    if record_size == 0 {
                        record_size = len;
                    } else if record_size != len {
                        record_size = usize::max_value()
                        //@~ record_size = usize::MAX
                    }
                }
                let id = store.write(&serialized)?;
                target.push(Header::id(id.len() + 1).into());
                target.push(record_size.try_into().unwrap_or_default());
                //@~ target.push(small(record_size));
                target.extend_from_slice(&id);
                //@ proof { assert(target@.skip(a2.len() as int + 1).skip(1) =~= id@); }
                //@ proof { lemma_whole::<S, S2>(n, *store, a0, a1, a2, target@); }
            }
            Ok(_) => {
                // todo: why can we get here at all? Empty children should always be represented as id none
                target.push(Header::NONE.into());
                //@ proof { lemma_whole::<S, S2>(n, *store, a0, a1, a2, target@); }
            }
            Err(id) => {
                target.push(self.children_hdr.into());
                target.extend_from_slice(id);
                //@ proof { assert(target@.skip(a2.len() as int + 1) =~= id@); }
                //@ proof { lemma_whole::<S, S2>(n, *store, a0, a1, a2, target@); }
            }
        }
        Ok(())
    }

}

impl TreeNode<Detached> {
    pub fn try_attached<S: BlobStore>(&self, store: &S) -> Result<TreeNode<S>, S::Error> {
        //@spec requires self.inv(), okn(self.nw(), Detached), store.readable(),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), *store),
        //@ broadcast use group_okc;
        let mut data = Vec::new();
        self.serialize(&mut data, store)?;
        //@~ proof { lemma_dep(self.nw(), Detached); lemma_xokd_detached(self.nw(), *store, dep(self.nw(), Detached)); }
        //@~ self.serialize(&mut data, store, Ghost(dep(self.nw(), Detached)))?;
        //@ proof { assert(data@.skip(0) =~= data@); }
        Ok(TreeNode::<S>::deserialize(&data).unwrap())
        //@~ Ok(node_of(TreeNode::<S>::deserialize(&data)))
    }

}

impl RadixTree {
    fn try_attached<S: BlobStore>(&self, store: S) -> Result<RadixTree<S>, S::Error> {
        //@spec requires self.ok(), store.readable(),
        //@spec ensures r is Ok ==> r->Ok_0.ok(),
        //@ broadcast use group_okc;
        let node = self.node.try_attached(&store)?;
        Ok(RadixTree { node, store })
    }

}

impl<S: BlobStore> RadixTree<S> {
    pub fn try_load(store: S, id: Option<impl AsRef<[u8]>>) -> Result<Self, S::Error> {
        //@spec requires store.readable(), id is Some ==> (id->0).bok() && fine(store, (id->0).bts()),
        //@spec ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.store == store,
        //@ broadcast use group_okc;
        Ok(if let Some(id) = id {
            let data = store.read(id.as_ref())?;
            let node = TreeNode::deserialize(&data)?;
            Self::new(node, store)
        } else {
            Self::empty(store)
        })
    }

}

impl<S: BlobStore + Clone> RadixTree<S> {
    fn try_reattach(&mut self) -> Result<Vec<u8>, S::Error> {
        //@spec requires old(self).ok(), old(self).store.readable(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store, r is Err ==> *final(self) == *old(self),
        //@ broadcast use group_okc;
        let mut data = Vec::new();
        self.node.serialize(&mut data, &self.store)?;
        //@~ proof { lemma_dep(self.node.nw(), self.store); lemma_xokd_same(self.node.nw(), self.store, dep(self.node.nw(), self.store)); }
        //@~ self.node.serialize(&mut data, &self.store, Ghost(dep(self.node.nw(), self.store)))?;
        //@ proof { assert(data@.skip(0) =~= data@); }
        let id = self.store.write(&data)?;
        self.node = TreeNode::deserialize(&data)?;
        Ok(id)
    }

}
