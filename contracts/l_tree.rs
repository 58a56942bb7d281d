pub struct RadixTree<S: BlobStore = Detached> {
    node: TreeNode<S>,
    store: S,
}

impl<S: BlobStore> RadixTree<S> {
    pub fn empty(store: S) -> Self {
        //@spec ensures r.ok(), r.store == store, r.t() == t_empty(), forall|k: Seq<u8>| #[trigger] r.at(k) is None,
        Self::new(TreeNode::<S>::EMPTY, store)
        //@~ let res = Self::new(TreeNode::<S>::EMPTY, store);
        //@~ proof { lemma_repr_empty(res.node.nw(), store); assert(wfc(Seq::<T>::empty())); assert forall|k: Seq<u8>| #[trigger] res.at(k) is None by { lemma_t_empty_lk(k); } }
        //@~ res
    }

    fn new(node: TreeNode<S>, store: S) -> Self {
        //@spec ensures r.node == node, r.store == store,
        Self { node, store }
    }

    pub fn store(this: &Self) -> &S {
        //@spec ensures *r == this.store,
        &this.store
    }

    pub fn is_empty(&self) -> bool {
        //@spec requires self.ok(),
        //@spec ensures r == forall|k: Seq<u8>| #[trigger] self.at(k) is None,
        //@ proof { let t = self.t(); lemma_is_empty(self.node.nw(), self.store); if full(t) { let k = lemma_full_key(t); assert(self.at(k) is Some); } else { lemma_wf_full(t); assert forall|k: Seq<u8>| #[trigger] self.at(k) is None by { assert(lk(t_empty(), k) is None); } } }
        self.node.is_empty()
    }

    pub fn is_leaf(&self) -> bool {
        //@spec requires self.ok(),
        //@spec ensures r == (self.node.nc() is Id && self.node.nc()->Id_0.len() == 0),
        self.node.is_leaf()
    }

    pub fn value(&self) -> Option<ValueRef<S>> {
        //@spec requires self.ok(),
        //@spec ensures match r { Some(x) => x.inv() && self.t().v() == Some(rv(self.store, x.vv())->0), None => self.t().v() is None },
        let r = self.node.value_ref();
        if !r.is_none() {
            Some(ValueRef(Ok(r), PhantomData))
        } else {
            None
        }
    }

    pub fn prefix(&self) -> ValueRef<S> {
        //@spec requires self.ok(),
        //@spec ensures r.inv(), rp(self.store, r.vv()) == self.t().p(),
        let r = self.node.prefix_ref();
        ValueRef(Ok(r), PhantomData)
    }

}

impl<S: BlobStore + Default> Default for RadixTree<S> {
    //@impl impl<S: BlobStore + Default> RadixTree<S>
    fn default() -> Self {
        //@spec ensures r.ok(), r.t() == t_empty(), forall|k: Seq<u8>| #[trigger] r.at(k) is None,
        Self::empty(S::default())
    }

}

impl RadixTree {
    pub fn leaf(value: impl AsRef<[u8]>) -> Self {
        //@spec requires value.bok(),
        //@spec ensures r.ok(), r.t() == t_single(Seq::empty(), value.bts()),
        Self::new(TreeNode::leaf(value.as_ref()), Detached)
        //@~ let res = Self::new(TreeNode::leaf(value.as_ref()), Detached);
        //@~ proof { lemma_t_single(res.node.nw(), Detached, Seq::empty(), value.bts()); }
        //@~ res
    }

    pub fn single(key: impl AsRef<[u8]>, value: impl AsRef<[u8]>) -> Self {
        //@spec requires key.bok(), value.bok(),
        //@spec ensures r.ok(), r.t() == t_single(key.bts(), value.bts()), forall|k: Seq<u8>| #[trigger] lk(r.t(), k) == (if k == key.bts() { Some(value.bts()) } else { None }),
        //@ proof { assert forall|n: NV<Detached>| n.p =~= Raw::Data(key.bts()) && n.v =~= Raw::Data(value.bts()) && n.c =~= Ch::<Detached>::Id(Seq::empty()) implies #[trigger] repr(n, Detached, t_single(key.bts(), value.bts())) by { lemma_t_single(n, Detached, key.bts(), value.bts()); } let n = NV::<Detached> { p: Raw::Data(key.bts()), v: Raw::Data(value.bts()), c: Ch::Id(Seq::empty()) }; lemma_t_single(n, Detached, key.bts(), value.bts()); }
        Self::new(TreeNode::single(key.as_ref(), value.as_ref()), Detached)
    }

}

impl<S: BlobStore + Clone> RadixTree<S> {
    fn try_detached(&self) -> Result<RadixTree, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.t() == self.t(),
        let node = self.node.detached(&self.store)?;
        Ok(RadixTree {
            node,
            store: Detached,
        })
    }

    fn try_get(&self, key: impl AsRef<[u8]>) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires self.ok(), key.bok(),
        //@spec ensures r is Ok ==> vok(r->Ok_0, self.store) && vrep(r->Ok_0, self.store) == self.at(key.bts()),
        self.node.get(key.as_ref(), &self.store)
    }

    fn try_contains_key(&self, key: impl AsRef<[u8]>) -> Result<bool, S::Error> {
        //@spec requires self.ok(), key.bok(),
        //@spec ensures r is Ok ==> r->Ok_0 == (self.at(key.bts()) is Some),
        self.node.contains_key(key.as_ref(), &self.store)
    }

    fn try_has_prefix(&self, prefix: impl AsRef<[u8]>) -> Result<bool, S::Error> {
        //@spec requires self.ok(), prefix.bok(),
        //@spec ensures r is Ok ==> r->Ok_0 == exists|k: Seq<u8>| prefix.bts().is_prefix_of(k) && #[trigger] self.at(k) is Some,
        //@ proof { assert(hasp(self.t(), prefix.bts()) == exists|k: Seq<u8>| prefix.bts().is_prefix_of(k) && #[trigger] self.at(k) is Some) by { if hasp(self.t(), prefix.bts()) { let k = choose|k: Seq<u8>| prefix.bts().is_prefix_of(k) && lk(self.t(), k) is Some; assert(self.at(k) is Some); } else if exists|k: Seq<u8>| prefix.bts().is_prefix_of(k) && #[trigger] self.at(k) is Some { let k = choose|k: Seq<u8>| prefix.bts().is_prefix_of(k) && #[trigger] self.at(k) is Some; assert(lk(self.t(), k) is Some); } } }
        self.node.has_prefix(prefix.as_ref(), &self.store)
    }

    fn try_remove_prefix(&mut self, prefix: impl AsRef<[u8]>) -> Result<(), S::Error> {
        //@spec requires old(self).ok(), prefix.bok(),
        //@spec ensures r is Ok ==> final(self).ok() && final(self).store == old(self).store && forall|k: Seq<u8>| #[trigger] final(self).at(k) == (if prefix.bts().is_prefix_of(k) { None } else { old(self).at(k) }),
        //@spec r is Err && !compressed() ==> final(self).ok() && final(self).store == old(self).store && forall|k: Seq<u8>| #[trigger] final(self).at(k) == old(self).at(k) || (prefix.bts().is_prefix_of(k) && final(self).at(k) is None),
        self.try_remove_prefix_with(&RadixTree::single(prefix, &[]), |_| Ok(true))
        //@~ let single = RadixTree::single(prefix, &[]);
        //@~ let f = |_v: &ValueRef<Detached>| -> (r: Result<bool, S::Error>) ensures r == Ok::<bool, S::Error>(true), { Ok(true) };
        //@~ let res = self.try_remove_prefix_with(&single, f);
        //@~ proof { if res is Ok { lemma_take_out_all(accepts::<Detached, S::Error, _>(f, Detached), old(self).t(), single.t(), self.t(), prefix.bts(), (single.t().v())->0); } else if !compressed() { lemma_take_out_all_half(accepts::<Detached, S::Error, _>(f, Detached), old(self).t(), single.t(), self.t(), prefix.bts(), (single.t().v())->0); } }
        //@~ res
    }

    fn try_insert(
        &mut self,
        key: impl AsRef<[u8]>,
        value: impl AsRef<[u8]>,
    ) -> Result<(), S::Error> {
        //@spec requires old(self).ok(), key.bok(), value.bok(),
        //@spec ensures r is Ok ==> final(self).ok() && final(self).store == old(self).store && forall|k: Seq<u8>| #[trigger] final(self).at(k) == (if k == key.bts() { Some(value.bts()) } else { old(self).at(k) }),
        //@spec r is Err && !compressed() ==> final(self).ok() && final(self).store == old(self).store && forall|k: Seq<u8>| #[trigger] final(self).at(k) == old(self).at(k) || (k == key.bts() && final(self).at(k) == Some(value.bts())),
        self.try_outer_combine_with(
            &RadixTree::single(key, value),
            DowncastConverter,
            |value, replacement| {
            //@~4 let single = RadixTree::single(key, value);
            //@~ let ghost ss = self.store;
            //@~ let f = |value: &mut Value<S>, replacement: &ValueRef<Detached>| -> (r: Result<(), S::Error>) requires value.inv(), replacement.inv(), ensures final(value).inv(), final(value).vv() == replacement.vv(), {
                value.set(Some(replacement.downcast()));
                Ok(())
            },
        )
            //@~2 };
            //@~ let res = self.try_outer_combine_with(&single, DowncastConverter, f);
            //@~ proof { if res is Ok { lemma_put(outer_w::<S, Detached, S::Error, _>(f, ss, Detached), old(self).t(), single.t(), self.t(), key.bts(), value.bts()); } else if !compressed() { lemma_put_half(half::<S, Detached, S::Error, _>(outer_w::<S, Detached, S::Error, _>(f, ss, Detached), f, ss, Detached), old(self).t(), single.t(), self.t(), key.bts(), value.bts()); } }
            //@~ res
    }

    fn try_remove(&mut self, key: impl AsRef<[u8]>) -> Result<(), S::Error> {
        //@spec requires old(self).ok(), key.bok(),
        //@spec ensures r is Ok ==> final(self).ok() && final(self).store == old(self).store && forall|k: Seq<u8>| #[trigger] final(self).at(k) == (if k == key.bts() { None } else { old(self).at(k) }),
        //@spec r is Err && !compressed() ==> final(self).ok() && final(self).store == old(self).store && forall|k: Seq<u8>| #[trigger] final(self).at(k) == old(self).at(k) || (k == key.bts() && final(self).at(k) is None),
        self.try_left_combine_with(&RadixTree::single(key, &[]), DowncastConverter, |l, _| {
            //@~ let single = RadixTree::single(key, &[]);
            //@~ let ghost ss = self.store;
            //@~ let f = |l: &mut Value<S>, _b: &ValueRef<Detached>| -> (r: Result<(), S::Error>) requires l.inv(), ensures final(l).inv(), final(l).vv() == raw_none(), {
            l.set(None);
            Ok(())
        })
            //@~ };
            //@~ let res = self.try_left_combine_with(&single, DowncastConverter, f);
            //@~ proof { if res is Ok { lemma_take_out(left_w::<S, Detached, S::Error, _>(f, ss, Detached), old(self).t(), single.t(), self.t(), key.bts(), (single.t().v())->0); } else if !compressed() { lemma_take_out_half(half::<S, Detached, S::Error, _>(left_w::<S, Detached, S::Error, _>(f, ss, Detached), f, ss, Detached), old(self).t(), single.t(), self.t(), key.bts(), (single.t().v())->0); } }
            //@~ res
    }

    fn try_outer_combine<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<RadixTree, E>
    where
        S2: BlobStore + Clone,
        E: From<S2::Error> + From<S::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<Option<Value>, E> + Copy, {
        //@spec requires self.ok(), that.ok(), comb_ok::<S, S2, E, F>(f, self.store, that.store),
        //@spec ensures r is Ok ==> r->Ok_0.ok() && merged(outer_c::<S, S2, E, F>(f, self.store, that.store), self.t(), that.t(), r->Ok_0.t()),
        Ok(RadixTree {
            node: outer_combine(
                &TreeNodeRef::owned(&self.node),
                self.store.clone(),
                &TreeNodeRef::owned(&that.node),
                that.store.clone(),
                f,
            )?,
            store: Detached,
        })
    }

    fn try_outer_combine_with<S2, C, F>(
        &mut self,
        that: &RadixTree<S2>,
        c: C,
        f: F,
    ) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        C: NodeConverter<S2, S> + Clone,
        F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), C::conv_ok(that.store, old(self).store), with_ok::<S, S2, S::Error, F>(f, old(self).store, that.store),
        //@spec ensures r is Ok ==> final(self).ok() && final(self).store == old(self).store && merged(outer_w::<S, S2, S::Error, F>(f, old(self).store, that.store), old(self).t(), that.t(), final(self).t()),
        //@spec final(self).store == old(self).store, r is Err && !compressed() ==> final(self).ok() && merged(half::<S, S2, S::Error, F>(outer_w::<S, S2, S::Error, F>(f, old(self).store, that.store), f, old(self).store, that.store), old(self).t(), that.t(), final(self).t()),
        outer_combine_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            c,
            f,
        )
    }

    fn try_inner_combine<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<RadixTree, E>
    where
        S2: BlobStore + Clone,
        E: From<S2::Error> + From<S::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<Option<Value>, E> + Copy, {
        //@spec requires self.ok(), that.ok(), comb_ok::<S, S2, E, F>(f, self.store, that.store),
        //@spec ensures r is Ok ==> r->Ok_0.ok() && merged(inner_c::<S, S2, E, F>(f, self.store, that.store), self.t(), that.t(), r->Ok_0.t()),
        Ok(RadixTree {
            node: inner_combine(
                &TreeNodeRef::owned(&self.node),
                self.store.clone(),
                &TreeNodeRef::owned(&that.node),
                that.store.clone(),
                f,
            )?,
            store: Detached,
        })
    }

    fn try_inner_combine_with<S2, C, F>(
        &mut self,
        that: &RadixTree<S2>,
        c: C,
        f: F,
    ) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        C: NodeConverter<S2, S> + Clone,
        F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), C::conv_ok(that.store, old(self).store), with_ok::<S, S2, S::Error, F>(f, old(self).store, that.store),
        //@spec ensures r is Ok ==> final(self).ok() && final(self).store == old(self).store && merged(inner_w::<S, S2, S::Error, F>(f, old(self).store, that.store), old(self).t(), that.t(), final(self).t()),
        //@spec final(self).store == old(self).store, r is Err && !compressed() ==> final(self).ok() && merged(half::<S, S2, S::Error, F>(inner_w::<S, S2, S::Error, F>(f, old(self).store, that.store), f, old(self).store, that.store), old(self).t(), that.t(), final(self).t()),
        inner_combine_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            c,
            f,
        )
    }

    fn try_inner_combine_pred<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<bool, E>
    where
        S2: BlobStore + Clone,
        E: From<S::Error> + From<S2::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<bool, E> + Copy, {
        //@spec requires self.ok(), that.ok(), dec_ok::<S, S2, E, F>(f, self.store, that.store),
        //@spec ensures r is Ok ==> qres(inner_q::<S, S2, E, F>(f, self.store, that.store), self.t(), that.t(), r->Ok_0),
        inner_combine_pred(
            &TreeNodeRef::owned(&self.node),
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            f,
        )
    }

    fn try_left_combine<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<RadixTree, E>
    where
        S2: BlobStore + Clone,
        E: From<S2::Error> + From<S::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<Option<Value>, E> + Copy, {
        //@spec requires self.ok(), that.ok(), comb_ok::<S, S2, E, F>(f, self.store, that.store),
        //@spec ensures r is Ok ==> r->Ok_0.ok() && merged(left_c::<S, S2, E, F>(f, self.store, that.store), self.t(), that.t(), r->Ok_0.t()),
        Ok(RadixTree {
            node: left_combine(
                &TreeNodeRef::owned(&self.node),
                self.store.clone(),
                &TreeNodeRef::owned(&that.node),
                that.store.clone(),
                f,
            )?,
            store: Detached,
        })
    }

    fn try_left_combine_with<S2, C, F>(
        &mut self,
        that: &RadixTree<S2>,
        c: C,
        f: F,
    ) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        C: NodeConverter<S2, S> + Clone,
        F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), C::conv_ok(that.store, old(self).store), with_ok::<S, S2, S::Error, F>(f, old(self).store, that.store),
        //@spec ensures r is Ok ==> final(self).ok() && final(self).store == old(self).store && merged(left_w::<S, S2, S::Error, F>(f, old(self).store, that.store), old(self).t(), that.t(), final(self).t()),
        //@spec final(self).store == old(self).store, r is Err && !compressed() ==> final(self).ok() && merged(half::<S, S2, S::Error, F>(left_w::<S, S2, S::Error, F>(f, old(self).store, that.store), f, old(self).store, that.store), old(self).t(), that.t(), final(self).t()),
        left_combine_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            c,
            f,
        )
    }

    fn try_left_combine_pred<S2, E, F>(&self, that: &RadixTree<S2>, f: F) -> Result<bool, E>
    where
        S2: BlobStore + Clone,
        E: From<S::Error> + From<S2::Error>,
        F: Fn(&ValueRef<S>, &ValueRef<S2>) -> Result<bool, E> + Copy, {
        //@spec requires self.ok(), that.ok(), dec_ok::<S, S2, E, F>(f, self.store, that.store),
        //@spec ensures r is Ok ==> qres(left_q::<S, S2, E, F>(f, self.store, that.store), self.t(), that.t(), r->Ok_0),
        left_combine_pred(
            &TreeNodeRef::owned(&self.node),
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            f,
        )
    }

    fn try_retain_prefix_with<S2, F>(&mut self, that: &RadixTree<S2>, f: F) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), accepts_ok::<S2, S::Error, F>(f, that.store),
        //@spec ensures r is Ok ==> final(self).ok() && final(self).store == old(self).store && pm(accepts::<S2, S::Error, F>(f, that.store), kp(true), old(self).t(), that.t(), final(self).t()),
        //@spec final(self).store == old(self).store, r is Err && !compressed() ==> final(self).ok() && pm(accepts::<S2, S::Error, F>(f, that.store), ke(true), old(self).t(), that.t(), final(self).t()),
        retain_prefix_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            f,
        )
    }

    fn try_remove_prefix_with<S2, F>(&mut self, that: &RadixTree<S2>, f: F) -> Result<(), S::Error>
    where
        S2: BlobStore + Clone,
        F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
        S::Error: From<S2::Error> + From<NoError>, {
        //@spec requires old(self).ok(), that.ok(), accepts_ok::<S2, S::Error, F>(f, that.store),
        //@spec ensures r is Ok ==> final(self).ok() && final(self).store == old(self).store && pm(accepts::<S2, S::Error, F>(f, that.store), kp(false), old(self).t(), that.t(), final(self).t()),
        //@spec final(self).store == old(self).store, r is Err && !compressed() ==> final(self).ok() && pm(accepts::<S2, S::Error, F>(f, that.store), ke(false), old(self).t(), that.t(), final(self).t()),
        remove_prefix_with(
            &mut self.node,
            self.store.clone(),
            &TreeNodeRef::owned(&that.node),
            that.store.clone(),
            f,
        )
    }

    fn try_filter_prefix(
        &self,
        prefix: impl AsRef<[u8]>,
        substitution: impl AsRef<[u8]>,
    ) -> Result<RadixTree<S>, S::Error> {
        //@spec requires self.ok(), prefix.bok(), substitution.bok(),
        //@spec ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.store == self.store && forall|k: Seq<u8>| #[trigger] r->Ok_0.at(k) == (if substitution.bts().is_prefix_of(k) { self.at(prefix.bts() + k.skip(substitution.bts().len() as int)) } else { None }),
        //@ proof { broadcast use axiom_store_clone; lemma_filt(self.t(), prefix.bts(), substitution.bts()); }
        filter_prefix(
            &TreeNodeRef::owned(&self.node),
            &self.store,
            prefix.as_ref(),
            substitution.as_ref(),
        )
        .map(|node| RadixTree::new(node, self.store.clone()))
        //@~ .map(|node: TreeNode<S>| -> (r: RadixTree<S>) ensures r.node == node, cloned(self.store, r.store), { RadixTree::new(node, self.store.clone()) })
    }

    fn try_first_value(&self) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok ==> vok(r->Ok_0, self.store) && is_first_value(vrep(r->Ok_0, self.store), self.t()),
        first_value(&TreeNodeRef::owned(&self.node), &self.store)
    }

    fn try_last_value(&self) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok ==> vok(r->Ok_0, self.store) && is_last_value(vrep(r->Ok_0, self.store), self.t()),
        last_value(&TreeNodeRef::owned(&self.node), &self.store)
    }

    fn try_first_entry(&self, prefix: Vec<u8>) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok ==> eok(r->Ok_0, self.store) && is_first_entry(erep(r->Ok_0, self.store), self.t(), prefix@),
        first_entry(prefix, &TreeNodeRef::owned(&self.node), &self.store)
    }

    fn try_last_entry(&self, prefix: Vec<u8>) -> Result<Option<(Vec<u8>, Value<S>)>, S::Error> {
        //@spec requires self.ok(),
        //@spec ensures r is Ok ==> eok(r->Ok_0, self.store) && is_last_entry(erep(r->Ok_0, self.store), self.t(), prefix@),
        last_entry(prefix, &TreeNodeRef::owned(&self.node), &self.store)
    }

}
