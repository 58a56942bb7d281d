struct GroupBy<S: BlobStore, F> {
    path: IterKey,
    stack: Vec<(usize, Option<TreeNodeIter<'static, S>>)>,
    store: S,
    descend: F,
}

impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> GroupBy<S, F> {
    fn new(iter: TreeNodeIter<'static, S>, store: S, prefix: IterKey, descend: F) -> Self {
        //@spec requires it_ok(iter, store), itv(iter.rem(), store).len() == 1, wf(itv(iter.rem(), store)[0]), prefix.kb().len() == 0, desc_ok(descend, store),
        //@spec ensures r.ok(), r.store == store, r.descend == descend, r.ents() =~= ents(itv(iter.rem(), store)[0], Seq::empty()), r.of(itv(iter.rem(), store)[0]),
        //@ let ghost ts = itv(iter.rem(), store);
        //@ proof { reveal_with_fuel(st_in, 3); reveal_with_fuel(st_wf, 3); lemma_with_p_id(ts[0]); assert(prefix.kb() + ts[0].p() =~= ts[0].p()); assert(prefix.kb() =~= Seq::empty()); assert(ts =~= seq![ts[0]]); lemma_st_one(seq![(0usize, Some(iter))], store, prefix.kb(), ts[0]); lemma_sub_root(ts[0]); assert(fr_ts((0usize, Some(iter)), store) == ts); }
        Self {
            stack: vec![(0, Some(iter))],
            //@~ stack: vec_of((0, Some(iter))),
            path: prefix,
            store,
            descend,
        }
    }

    fn next0(&mut self) -> Result<Option<TreeNode<S>>, S::Error> {
        //@spec requires old(self).ok(),
        //@spec ensures final(self).store == old(self).store, final(self).descend == old(self).descend, match r {
        //@spec Ok(Some(n)) => final(self).ok() && old(self).part(*final(self), n) && forall|t: T| #[trigger] old(self).of(t) ==> final(self).of(t),
        //@spec Ok(None) => final(self).ok() && old(self).ents().len() == 0 && final(self).ents().len() == 0,
        //@spec Err(_) => true },
        Ok(loop {
            //@~ loop
            //@~     invariant_except_break self.ok(), self.store == old(self).store, self.descend == old(self).descend, self.ents() =~= old(self).ents(), forall|t: T| #[trigger] old(self).of(t) ==> self.of(t),
            //@~     decreases st_steps(self.stack@, self.store),
            //@~ {
            //@ broadcast use lemma_cload;
            if self.stack.is_empty() {
                break None;
                //@~ return Ok(None);
            }
            //@ let ghost st0 = self.stack@;
            //@ let ghost p0 = self.path.kb();
            //@ let ghost ts = fr_ts(st0.last(), self.store);
            //@ let ghost s0 = self.store;
            let (last_prefix_len, iter_opt) = &mut self.stack.last_mut().unwrap();
            let last_prefix_len = *last_prefix_len;
            //@~2 let top = vec_last_mut(&mut self.stack);
            //@~ let last_prefix_len = top.0;
            //@~ let iter_opt = &mut top.1;
            if let Some(iter) = iter_opt {
                if let Some(node) = iter.next() {
                    // apply the prefix in any case!
                    let prefix = node.load_prefix(&self.store)?;
                    let prefix_len = prefix.len();
                    self.path.append(prefix.as_ref());
                    //@ let ghost nv = node.nw();
                    //@ proof { assert(tv(nv, s0) == ts[0]); assert(wfx(fr_ts(st0.last(), s0)[0], p0)); assert(good(nv, s0)); }
                    if (self.descend)(&self.path.0, &node)? {
                        //@~ if (self.descend)(self.path.as_ref(), &node)? {
                        let children = node.load_children_owned(&self.store)?;
                        let res = if node.value_opt().is_some() {
                            let mut res = node.to_owned();
                            res.set_prefix_slice(&self.path);
                            //@~ res.set_prefix_slice(self.path.as_ref());
                            res.set_children_arc_opt(None);
                            //@ proof { lemma_re_v(nv, res.nw(), s0, self.path.kb()); }
                            Some(res)
                        } else {
                            None
                        };
                        self.stack.push((prefix_len, children));
                        //@ proof { let f1 = self.stack@[self.stack@.len() - 2]; let f2 = self.stack@.last(); lemma_st_into(st0, s0, p0, f1, f2, ts[0], ts); lemma_g_into(st0, s0, p0, f1, f2, ts); assert(self.stack@ =~= st0.drop_last().push(f1).push(f2)); }
                        if let Some(t) = res {
                            break Some(t);
                            //@~ return Ok(Some(t));
                        }
                    } else {
                        let mut res = node.to_owned();
                        res.set_prefix_slice(&self.path);
                        //@~ res.set_prefix_slice(self.path.as_ref());
                        //@ proof { lemma_re_p(nv, res.nw(), s0, self.path.kb()); assert(wf(with_p(ts[0], p0 + ts[0].p()))); assert(good(res.nw(), s0)); }
                        // undo applying the prefix immediately, since we don't descend
                        self.path.pop(prefix_len);
                        //@ proof { let f1 = self.stack@.last(); lemma_g_skip(st0, s0, p0, f1, ts); assert(self.stack@ =~= st0.drop_last().push(f1)); assert(self.path.kb() =~= p0); assert forall|t: T| #[trigger] old(self).of(t) implies whole(tv(res.nw(), s0), t) && self.of(t) by { assert(st_in(st0, s0, p0, t)); lemma_whole(t, p0, ts[0]); }; lemma_ents_p(p0, ts[0]); assert(self.ents() =~= st_ents(st0.drop_last().push(f1), s0, p0)); }
                        break Some(res);
                        //@~ return Ok(Some(res));
                    }
                } else {
                    *iter_opt = None;
                    //@ proof { assert(ts =~= Seq::empty()); lemma_st_end(st0, s0, p0); lemma_g_end(st0, s0, p0); assert(self.stack@ =~= st0.drop_last().push((st0.last().0, None))); }
                }
            } else {
                self.path.pop(last_prefix_len);
                self.stack.pop();
                //@ proof { lemma_st_end(st0, s0, p0); lemma_g_end(st0, s0, p0); assert(self.stack@ =~= st0.drop_last()); }
            }
        })
        //@~ }
    }

}

impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> Iterator
    for GroupBy<S, F>
{
    //@impl impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> GroupBy<S, F>
    fn next(&mut self) -> Option<Self::Item> {
        //@hdr fn next(&mut self) -> (r: Option<Result<TreeNode<S>, S::Error>>)
        //@spec requires old(self).ok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store, final(self).descend == old(self).descend, match r {
        //@spec Some(Ok(n)) => old(self).part(*final(self), n) && forall|t: T| #[trigger] old(self).of(t) ==> final(self).of(t),
        //@spec None => old(self).ents().len() == 0 && final(self).ents().len() == 0,
        //@spec Some(Err(_)) => final(self).ents().len() == 0 },
        match self.next0() {
            Ok(Some(x)) => Some(Ok(x)),
            Ok(None) => None,
            Err(cause) => {
                self.stack.clear();
                Some(Err(cause))
            }
        }
    }

}

impl<S: BlobStore + Clone> RadixTree<S> {
    fn try_group_by<'a, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error> + 'a>(
        &'a self,
        descend: F,
    ) -> impl Iterator<Item = Result<RadixTree<S>, S::Error>> + 'a {
        //@hdr fn try_group_by<'a, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error> + 'a>(&'a self, descend: F) -> (r: Map<GroupBy<S, F>, impl Fn(Result<TreeNode<S>, S::Error>) -> Result<RadixTree<S>, S::Error> + 'a>)
        //@spec requires self.ok(), desc_ok(descend, self.store),
        //@spec ensures r.it.ok(), r.it.store == self.store, r.it.descend == descend, r.it.of(self.t()), lists(r.it.ents(), self.t(), Seq::empty()), wraps(r.f, self.store),
        //@ proof { lemma_ents_lists(self.t(), Seq::empty()); }
        GroupBy::new(
            TreeNodeIter::from_arc(Arc::new(vec![self.node.clone()])),
            //@~ one_node(self.node.clone(), Ghost(self.store)),
            self.store.clone(),
            IterKey::default(),
            descend,
        )
        .map(|r| {
            r.map(|node| RadixTree {
                node,
                store: self.store.clone(),
            })
        })
        //@~6 .map(|r: Result<TreeNode<S>, S::Error>| -> (o: Result<RadixTree<S>, S::Error>) ensures match r { Ok(n) => o == Ok::<RadixTree<S>, S::Error>(RadixTree { node: n, store: self.store }), Err(e) => o == Err::<RadixTree<S>, S::Error>(e) }, {
        //@~ r.map(|node: TreeNode<S>| -> (t: RadixTree<S>) ensures t.node == node, t.store == self.store, { RadixTree { node, store: self.store.clone() } })
        //@~ })
    }

}

impl RadixTree {
    pub fn iter(&self) -> impl Iterator<Item = (IterKey, Value)> {
        //@hdr fn iter(&self) -> (r: Map<KeyValueIter, impl Fn(Result<(IterKey, Value), NoError>) -> (IterKey, Value)>)
        //@spec requires self.ok(),
        //@spec ensures r.sok(), r.it.store == self.store, lists(r.it.ents(), self.t(), Seq::empty()), opens(r.f),
        self.try_iter().map(|x| x.unwrap_safe())
        //@~ self.try_iter().map(|x: Result<(IterKey, Value), NoError>| -> (o: (IterKey, Value)) ensures x == Ok::<(IterKey, Value), NoError>(o), { x.unwrap_safe() })
    }

    pub fn values(&self) -> impl Iterator<Item = Value> {
        //@hdr fn values(&self) -> (r: Map<ValueIter, impl Fn(Result<Value, NoError>) -> Value>)
        //@spec requires self.ok(),
        //@spec ensures r.sok(), r.it.store == self.store, r.it.vals() =~= vals(self.t()), opens(r.f),
        self.try_values().map(|x| x.unwrap_safe())
        //@~ self.try_values().map(|x: Result<Value, NoError>| -> (o: Value) ensures x == Ok::<Value, NoError>(o), { x.unwrap_safe() })
    }

    pub fn scan_prefix(
        &self,
        prefix: impl AsRef<[u8]>,
    ) -> impl Iterator<Item = (IterKey, Value)> + '_ {
        //@hdr fn scan_prefix(&self, prefix: impl AsBytes) -> (r: Map<KeyValueIter, impl Fn(Result<(IterKey, Value), NoError>) -> (IterKey, Value)>)
        //@spec requires self.ok(), prefix.bok(),
        //@spec ensures r.sok(), r.it.store == self.store, scans(r.it.ents(), self.t(), prefix.bts()), opens(r.f),
        self.try_scan_prefix(prefix)
            .unwrap_safe()
            .map(|x| x.unwrap_safe())
            //@~ .map(|x: Result<(IterKey, Value), NoError>| -> (o: (IterKey, Value)) ensures x == Ok::<(IterKey, Value), NoError>(o), { x.unwrap_safe() })
    }

    pub fn group_by<'a>(
        &'a self,
        f: impl Fn(&[u8], &TreeNodeRef) -> bool + 'a,
    ) -> impl Iterator<Item = RadixTree> + 'a {
        //@hdr fn group_by<'a, F: Fn(&[u8], &TreeNodeRef) -> bool + Copy + 'a>(&'a self, f: F) -> (r: Map<Map<GroupBy<Detached, impl Fn(&[u8], &TreeNodeRef<Detached>) -> Result<bool, NoError> + 'a>, impl Fn(Result<TreeNode<Detached>, NoError>) -> Result<RadixTree, NoError> + 'a>, impl Fn(Result<RadixTree, NoError>) -> RadixTree + 'a>)
        //@spec requires self.ok(), forall|a: &[u8], b: &TreeNodeRef| b.inv() && good(b.nw(), Detached) ==> #[trigger] call_requires(f, (a, b)),
        //@spec ensures r.sok(), r.it.it.store == self.store, r.it.it.of(self.t()), lists(r.it.it.ents(), self.t(), Seq::empty()), wraps(r.it.f, self.store), opens(r.f), forall|a: &[u8], b: &TreeNodeRef, x: Result<bool, NoError>| #[trigger] call_ensures(r.it.it.descend, (a, b), x) ==> x is Ok && call_ensures(f, (a, b), x->Ok_0),
        self.try_group_by(move |a, b| Ok(f(a, b)))
            .map(|x| x.unwrap_safe())
            //@~2 let g = move |a: &[u8], b: &TreeNodeRef| -> (r: Result<bool, NoError>) requires call_requires(f, (a, b)), ensures r is Ok, call_ensures(f, (a, b), r->Ok_0), { Ok(f(a, b)) };
            //@~ self.try_group_by(g).map(|x: Result<RadixTree, NoError>| -> (o: RadixTree) ensures x == Ok::<RadixTree, NoError>(o), { x.unwrap_safe() })
    }

}
