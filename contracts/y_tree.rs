pub struct RadixTree<S: BlobStore = Detached> {
    node: TreeNode<S>,
    store: S,
}

impl<S: BlobStore> RadixTree<S> {
    pub fn empty(store: S) -> Self {
        //@spec ensures r.ok(), r.store == store,
        //@ broadcast use group_okc;
        Self::new(TreeNode::<S>::EMPTY, store)
        //@~ let res = Self::new(TreeNode::<S>::EMPTY, store);
        //@~ res
    }

    fn new(node: TreeNode<S>, store: S) -> Self {
        //@spec ensures r.node == node, r.store == store,
        //@ broadcast use group_okc;
        Self { node, store }
    }

    pub fn store(this: &Self) -> &S {
        //@spec ensures *r == this.store,
        //@ broadcast use group_okc;
        &this.store
    }

    pub fn is_empty(&self) -> bool {
        //@spec requires self.ok(),
        //@ broadcast use group_okc;
        self.node.is_empty()
    }

    pub fn is_leaf(&self) -> bool {
        //@spec requires self.ok(),
        //@ broadcast use group_okc;
        self.node.is_leaf()
    }

    pub fn value(&self) -> Option<ValueRef<S>> {
        //@spec requires self.ok(),
        //@spec ensures r is Some ==> vrok(r->0, self.store),
        //@ broadcast use group_okc;
        let r = self.node.value_ref();
        if !r.is_none() {
            Some(ValueRef(Ok(r), PhantomData))
        } else {
            None
        }
    }

    pub fn prefix(&self) -> ValueRef<S> {
        //@spec requires self.ok(),
        //@spec ensures r.inv(),
        //@ broadcast use group_okc;
        let r = self.node.prefix_ref();
        ValueRef(Ok(r), PhantomData)
    }

}

impl<S: BlobStore + Default> Default for RadixTree<S> {
    //@impl impl<S: BlobStore + Default> RadixTree<S>
    fn default() -> Self {
        //@spec ensures r.ok(),
        //@ broadcast use group_okc;
        Self::empty(S::default())
    }

}

impl RadixTree {
    pub fn leaf(value: impl AsRef<[u8]>) -> Self {
        //@spec requires value.bok(),
        //@spec ensures r.ok(),
        //@ broadcast use group_okc;
        Self::new(TreeNode::leaf(value.as_ref()), Detached)
        //@~ let res = Self::new(TreeNode::leaf(value.as_ref()), Detached);
        //@~ res
    }

    pub fn single(key: impl AsRef<[u8]>, value: impl AsRef<[u8]>) -> Self {
        //@spec requires key.bok(), value.bok(),
        //@spec ensures r.ok(),
        //@ broadcast use group_okc;
        Self::new(TreeNode::single(key.as_ref(), value.as_ref()), Detached)
    }

}

impl<S: BlobStore + Clone> RadixTree<S> {
    fn try_detached(&self) -> Result<RadixTree, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok ==> r->Ok_0.ok(),
        //@ broadcast use group_okc;
        let node = self.node.detached(&self.store)?;
        Ok(RadixTree {
            node,
            store: Detached,
        })
    }

    fn try_get(&self, key: impl AsRef<[u8]>) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires self.ok(), key.bok(),
        //@spec ensures r is Ok ==> okval(r->Ok_0, self.store),
        //@ broadcast use group_okc;
        self.node.get(key.as_ref(), &self.store)
    }

    fn try_contains_key(&self, key: impl AsRef<[u8]>) -> Result<bool, S::Error> {
        //@spec requires self.ok(), key.bok(),
        //@ broadcast use group_okc;
        self.node.contains_key(key.as_ref(), &self.store)
    }

    fn try_has_prefix(&self, prefix: impl AsRef<[u8]>) -> Result<bool, S::Error> {
        //@spec requires self.ok(), prefix.bok(),
        //@ broadcast use group_okc;
        self.node.has_prefix(prefix.as_ref(), &self.store)
    }

    fn try_remove_prefix(&mut self, prefix: impl AsRef<[u8]>) -> Result<(), S::Error> {
        //@spec requires old(self).ok(), prefix.bok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store,
        //@ broadcast use group_okc;
        self.try_remove_prefix_with(&RadixTree::single(prefix, &[]), |_| Ok(true))
        //@~ let single = RadixTree::single(prefix, &[]);
        //@~ let f = |_v: &ValueRef<Detached>| -> (r: Result<bool, S::Error>) ensures r == Ok::<bool, S::Error>(true), { Ok(true) };
        //@~ let res = self.try_remove_prefix_with(&single, f);
        //@~ res
    }

    fn try_insert(
        &mut self,
        key: impl AsRef<[u8]>,
        value: impl AsRef<[u8]>,
    ) -> Result<(), S::Error> {
        //@spec requires old(self).ok(), key.bok(), value.bok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store,
        //@ broadcast use group_okc;
        self.try_outer_combine_with(
            &RadixTree::single(key, value),
            DowncastConverter,
            |value, replacement| {
            //@~4 let single = RadixTree::single(key, value);
            //@~ let f = |value: &mut Value<S>, replacement: &ValueRef<Detached>| -> (r: Result<(), S::Error>) requires value.inv(), replacement.inv(), ensures final(value).inv(), final(value).vv() == replacement.vv(), {
                value.set(Some(replacement.downcast()));
                Ok(())
            },
        )
            //@~2 };
            //@~ let res = self.try_outer_combine_with(&single, DowncastConverter, f);
            //@~ res
    }

    fn try_remove(&mut self, key: impl AsRef<[u8]>) -> Result<(), S::Error> {
        //@spec requires old(self).ok(), key.bok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store,
        //@ broadcast use group_okc;
        self.try_left_combine_with(&RadixTree::single(key, &[]), DowncastConverter, |l, _| {
            //@~ let single = RadixTree::single(key, &[]);
            //@~ let f = |l: &mut Value<S>, _b: &ValueRef<Detached>| -> (r: Result<(), S::Error>) requires l.inv(), ensures final(l).inv(), final(l).vv() == raw_none(), {
            l.set(None);
            Ok(())
        })
            //@~ };
            //@~ let res = self.try_left_combine_with(&single, DowncastConverter, f);
            //@~ res
    }

    fn try_outer_combine<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<RadixTree, E>
    where
        S2: BlobStore + Clone,
        E: From<S2::Error> + From<S::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<Option<Value>, E> + Copy, {
        //@spec requires self.ok(), that.ok(), cok::<S, S2, E, F>(f, self.store, that.store),
        //@spec ensures r is Ok ==> r->Ok_0.ok(),
        //@ broadcast use group_okc;
        Ok(RadixTree {
            node: outer_combine(
                &TreeNodeRef::owned(&self.node),
                self.store.clone(),
                &TreeNodeRef::owned(&that.node),
                that.store.clone(),
                f,
            )?,
            store: Detached,
        })
    }

    fn try_outer_combine_with<S2, C, F>(
        &mut self,
        that: &RadixTree<S2>,
        c: C,
        f: F,
    ) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        C: NodeConverter<S2, S> + Clone,
        F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), C::conv_ok(that.store, old(self).store), wok::<S, S2, S::Error, F>(f, old(self).store, that.store),
        //@spec ensures final(self).ok(), final(self).store == old(self).store,
        //@ broadcast use group_okc;
        outer_combine_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            c,
            f,
        )
    }

    fn try_inner_combine<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<RadixTree, E>
    where
        S2: BlobStore + Clone,
        E: From<S2::Error> + From<S::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<Option<Value>, E> + Copy, {
        //@spec requires self.ok(), that.ok(), cok::<S, S2, E, F>(f, self.store, that.store),
        //@spec ensures r is Ok ==> r->Ok_0.ok(),
        //@ broadcast use group_okc;
        Ok(RadixTree {
            node: inner_combine(
                &TreeNodeRef::owned(&self.node),
                self.store.clone(),
                &TreeNodeRef::owned(&that.node),
                that.store.clone(),
                f,
            )?,
            store: Detached,
        })
    }

    fn try_inner_combine_with<S2, C, F>(
        &mut self,
        that: &RadixTree<S2>,
        c: C,
        f: F,
    ) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        C: NodeConverter<S2, S> + Clone,
        F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), C::conv_ok(that.store, old(self).store), wok::<S, S2, S::Error, F>(f, old(self).store, that.store),
        //@spec ensures final(self).ok(), final(self).store == old(self).store,
        //@ broadcast use group_okc;
        inner_combine_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            c,
            f,
        )
    }

    fn try_inner_combine_pred<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<bool, E>
    where
        S2: BlobStore + Clone,
        E: From<S::Error> + From<S2::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<bool, E> + Copy, {
        //@spec requires self.ok(), that.ok(), dok::<S, S2, E, F>(f, self.store, that.store),
        //@ broadcast use group_okc;
        inner_combine_pred(
            &TreeNodeRef::owned(&self.node),
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            f,
        )
    }

    fn try_left_combine<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<RadixTree, E>
    where
        S2: BlobStore + Clone,
        E: From<S2::Error> + From<S::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<Option<Value>, E> + Copy, {
        //@spec requires self.ok(), that.ok(), cok::<S, S2, E, F>(f, self.store, that.store),
        //@spec ensures r is Ok ==> r->Ok_0.ok(),
        //@ broadcast use group_okc;
        Ok(RadixTree {
            node: left_combine(
                &TreeNodeRef::owned(&self.node),
                self.store.clone(),
                &TreeNodeRef::owned(&that.node),
                that.store.clone(),
                f,
            )?,
            store: Detached,
        })
    }

    fn try_left_combine_with<S2, C, F>(
        &mut self,
        that: &RadixTree<S2>,
        c: C,
        f: F,
    ) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        C: NodeConverter<S2, S> + Clone,
        F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), C::conv_ok(that.store, old(self).store), wok::<S, S2, S::Error, F>(f, old(self).store, that.store),
        //@spec ensures final(self).ok(), final(self).store == old(self).store,
        //@ broadcast use group_okc;
        left_combine_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            c,
            f,
        )
    }

    fn try_left_combine_pred<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<bool, E>
    where
        S2: BlobStore + Clone,
        E: From<S::Error> + From<S2::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<bool, E> + Copy, {
        //@spec requires self.ok(), that.ok(), dok::<S, S2, E, F>(f, self.store, that.store),
        //@ broadcast use group_okc;
        left_combine_pred(
            &TreeNodeRef::owned(&self.node),
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            f,
        )
    }

    fn try_retain_prefix_with<S2, F>(&mut self, that: &RadixTree<S2>, f: F) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), aok::<S2, S::Error, F>(f, that.store),
        //@spec ensures final(self).ok(), final(self).store == old(self).store,
        //@ broadcast use group_okc;
        retain_prefix_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            f,
        )
    }

    fn try_remove_prefix_with<S2, F>(&mut self, that: &RadixTree<S2>, f: F) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), aok::<S2, S::Error, F>(f, that.store),
        //@spec ensures final(self).ok(), final(self).store == old(self).store,
        //@ broadcast use group_okc;
        remove_prefix_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            f,
        )
    }

    fn try_filter_prefix(
        &self,
        prefix: impl AsRef<[u8]>,
        substitution: impl AsRef<[u8]>,
    ) -> Result<RadixTree<S>, S::Error> {
        //@spec requires self.ok(), prefix.bok(), substitution.bok(),
        //@spec ensures r is Ok ==> r->Ok_0.ok(),
        //@ broadcast use group_okc;
        filter_prefix(
            &TreeNodeRef::owned(&self.node),
            &self.store,
            prefix.as_ref(),
            substitution.as_ref(),
        )
        .map(|node| RadixTree::new(node, self.store.clone()))
        //@~ .map(|node: TreeNode<S>| -> (r: RadixTree<S>) ensures r.node == node, cloned(self.store, r.store), { RadixTree::new(node, self.store.clone()) })
    }

    fn try_first_value(&self) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok ==> okval(r->Ok_0, self.store),
        //@ broadcast use group_okc;
        first_value(&TreeNodeRef::owned(&self.node), &self.store)
    }

    fn try_last_value(&self) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok ==> okval(r->Ok_0, self.store),
        //@ broadcast use group_okc;
        last_value(&TreeNodeRef::owned(&self.node), &self.store)
    }

    fn try_first_entry(&self, prefix: Vec<u8>) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok && r->Ok_0 is Some ==> valok((r->Ok_0->0).1, self.store),
        //@ broadcast use group_okc;
        first_entry(prefix, &TreeNodeRef::owned(&self.node), &self.store)
    }

    fn try_last_entry(&self, prefix: Vec<u8>) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok && r->Ok_0 is Some ==> valok((r->Ok_0->0).1, self.store),
        //@ broadcast use group_okc;
        last_entry(prefix, &TreeNodeRef::owned(&self.node), &self.store)
    }

}
