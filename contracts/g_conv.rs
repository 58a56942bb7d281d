trait NodeConverter<A, B: BlobStore> {
    //@impl trait NodeConverter<A: BlobStore, B: BlobStore>
    //@pre /// what is converted from the store `from` can be used with the store `to`
    //@pre spec fn conv_ok(from: A, to: B) -> bool;
    fn convert_node(&self, node: &TreeNodeRef<A>, store: &A) -> Result<TreeNode<B>, A::Error>
    where
        A: BlobStore;
    //@spec requires nrep(*node, *store),
    //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.nw().tight() && forall|to: B| #[trigger] Self::conv_ok(*store, to) ==> repr(r->Ok_0.nw(), to, tv(node.nw(), *store)),

    fn convert_node_shortened(
        &self,
        node: &TreeNodeRef<A>,
        store: &A,
        n: usize,
    ) -> Result<TreeNode<B>, A::Error>
    where
        A: BlobStore;
    //@spec requires nrep(*node, *store), n <= tv(node.nw(), *store).p().len(),
    //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.nw().tight() && forall|to: B| #[trigger] Self::conv_ok(*store, to) ==> repr(r->Ok_0.nw(), to, shorten(tv(node.nw(), *store), n as nat)),

    fn convert_value(&self, bv: &ValueRef<A>, store: &A) -> Result<Value<B>, A::Error>
    where
        A: BlobStore;
    //@spec requires vrok(*bv, *store),
    //@spec ensures r is Ok ==> r->Ok_0.inv() && forall|to: B| #[trigger] Self::conv_ok(*store, to) ==> rv(to, r->Ok_0.vv()) == rv(*store, bv.vv()) && vfit(r->Ok_0.vv(), to),

}

//@pre #[derive(Clone, Copy)]
struct DowncastConverter;

impl<B: BlobStore> NodeConverter<Detached, B> for DowncastConverter {
    //@pre spec fn conv_ok(from: Detached, to: B) -> bool { true }
    fn convert_node(
        &self,
        node: &TreeNodeRef<Detached>,
        _: &Detached,
    ) -> Result<TreeNode<B>, NoError> {
        Ok(node.downcast())
    }

    fn convert_node_shortened(
        &self,
        node: &TreeNodeRef<Detached>,
        store: &Detached,
        n: usize,
    ) -> Result<TreeNode<B>, NoError> {
        node.clone_shortened(store, n).map(|x| x.downcast())
        //@~ node.clone_shortened(store, n).map(|x: TreeNode<Detached>| -> (o: TreeNode<B>)
        //@~ requires x.inv(), rep(x.nw(), Detached)
        //@~ ensures o.inv() && (x.nw().tight() ==> o.nw().tight()) && forall|s: B| #[trigger] repr(o.nw(), s, tv(x.nw(), Detached))
        //@~ { x.downcast() })
    }

    fn convert_value(&self, bv: &ValueRef, _: &Detached) -> Result<Value<B>, NoError> {
        Ok(bv.downcast::<B>().to_owned())
    }

}

//@pre #[derive(Clone, Copy)]
struct IdentityConverter;

impl<A: BlobStore> NodeConverter<A, A> for IdentityConverter {
    //@pre spec fn conv_ok(from: A, to: A) -> bool { from == to }
    fn convert_node(&self, node: &TreeNodeRef<A>, _store: &A) -> Result<TreeNode<A>, A::Error> {
        Ok(node.to_owned())
    }

    fn convert_node_shortened(
        &self,
        node: &TreeNodeRef<A>,
        store: &A,
        n: usize,
    ) -> Result<TreeNode<A>, A::Error> {
        node.clone_shortened(store, n)
    }

    fn convert_value(&self, bv: &ValueRef<A>, _store: &A) -> Result<Value<A>, A::Error> {
        Ok(bv.to_owned())
    }

}

//@pre #[derive(Clone, Copy)]
struct DetachConverter;

impl<A: BlobStore, B: BlobStore> NodeConverter<A, B> for DetachConverter {
    //@pre spec fn conv_ok(from: A, to: B) -> bool { true }
    fn convert_node(&self, node: &TreeNodeRef<A>, store: &A) -> Result<TreeNode<B>, A::Error> {
        Ok(node.detached(store)?.downcast())
    }

    fn convert_value(&self, value: &ValueRef<A>, store: &A) -> Result<Value<B>, A::Error> {
        Ok(value.detached(store)?.downcast())
    }

    fn convert_node_shortened(
        &self,
        node: &TreeNodeRef<A>,
        store: &A,
        n: usize,
    ) -> Result<TreeNode<B>, A::Error> {
        let node = node.clone_shortened(store, n)?;
        //@ proof { assert(<Self as NodeConverter<A, Detached>>::conv_ok(*store, Detached)); }
        Ok(self.convert_node(&node.as_ref(), store)?.downcast())
    }

}
