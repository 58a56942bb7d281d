impl RadixTree {
    pub fn get(&self, key: impl AsRef<[u8]>) -> Option<Value> {
        //@spec requires self.ok(), key.bok(),
        //@spec ensures vok(r, Detached), vrep(r, Detached) == self.at(key.bts()),
        self.try_get(key).unwrap_safe()
    }

    pub fn contains_key(&self, key: impl AsRef<[u8]>) -> bool {
        //@spec requires self.ok(), key.bok(),
        //@spec ensures r == (self.at(key.bts()) is Some),
        self.try_contains_key(key).unwrap_safe()
    }

    pub fn has_prefix(&self, prefix: impl AsRef<[u8]>) -> bool {
        //@spec requires self.ok(), prefix.bok(),
        //@spec ensures r == exists|k: Seq<u8>| prefix.bts().is_prefix_of(k) && #[trigger] self.at(k) is Some,
        self.try_has_prefix(prefix).unwrap_safe()
    }

    pub fn remove_prefix(&mut self, prefix: impl AsRef<[u8]>) {
        //@spec requires old(self).ok(), prefix.bok(),
        //@spec ensures final(self).ok() && forall|k: Seq<u8>| #[trigger] final(self).at(k) == (if prefix.bts().is_prefix_of(k) { None } else { old(self).at(k) }),
        self.try_remove_prefix(prefix).unwrap_safe()
    }

    pub fn insert(&mut self, key: impl AsRef<[u8]>, value: impl AsRef<[u8]>) {
        //@spec requires old(self).ok(), key.bok(), value.bok(),
        //@spec ensures final(self).ok() && forall|k: Seq<u8>| #[trigger] final(self).at(k) == (if k == key.bts() { Some(value.bts()) } else { old(self).at(k) }),
        self.try_insert(key, value).unwrap_safe()
    }

    pub fn remove(&mut self, key: impl AsRef<[u8]>) {
        //@spec requires old(self).ok(), key.bok(),
        //@spec ensures final(self).ok() && forall|k: Seq<u8>| #[trigger] final(self).at(k) == (if k == key.bts() { None } else { old(self).at(k) }),
        self.try_remove(key).unwrap_safe()
    }

    pub fn filter_prefix(
        &self,
        prefix: impl AsRef<[u8]>,
        substitution: impl AsRef<[u8]>,
    ) -> RadixTree {
        //@spec requires self.ok(), prefix.bok(), substitution.bok(),
        //@spec ensures r.ok() && forall|k: Seq<u8>| #[trigger] r.at(k) == (if substitution.bts().is_prefix_of(k) { self.at(prefix.bts() + k.skip(substitution.bts().len() as int)) } else { None }),
        self.try_filter_prefix(prefix, substitution).unwrap_safe()
    }

    pub fn first_value(&self) -> Option<Value> {
        //@spec requires self.ok(),
        //@spec ensures vok(r, Detached) && is_first_value(vrep(r, Detached), self.t()),
        self.try_first_value().unwrap_safe()
    }

    pub fn last_value(&self) -> Option<Value> {
        //@spec requires self.ok(),
        //@spec ensures vok(r, Detached) && is_last_value(vrep(r, Detached), self.t()),
        self.try_last_value().unwrap_safe()
    }

    pub fn first_entry(&self, prefix: Vec<u8>) -> Option<(Vec<u8>, Value)> {
        //@spec requires self.ok(),
        //@spec ensures eok(r, Detached) && is_first_entry(erep(r, Detached), self.t(), prefix@),
        self.try_first_entry(prefix).unwrap_safe()
    }

    pub fn last_entry(&self, prefix: Vec<u8>) -> Option<(Vec<u8>, Value)> {
        //@spec requires self.ok(),
        //@spec ensures eok(r, Detached) && is_last_entry(erep(r, Detached), self.t(), prefix@),
        self.try_last_entry(prefix).unwrap_safe()
    }

    pub fn outer_combine(
        &self,
        that: &RadixTree,
        f: impl Fn(&ValueRef, &ValueRef) -> Option<Value> + Copy,
    ) -> RadixTree {
        //@spec requires self.ok(), that.ok(), comb1_ok(f),
        //@spec ensures r.ok() && merged(outer_1(f), self.t(), that.t(), r.t()),
        self.try_outer_combine(that, |a, b| Ok(f(a, b)))
            .unwrap_safe()
        //@~2 let g = |a: &ValueRef, b: &ValueRef| -> (r: Result<Option<Value>, NoError>) requires call_requires(f, (a, b)), ensures r is Ok && call_ensures(f, (a, b), r->Ok_0), { Ok(f(a, b)) };
        //@~ let res = self.try_outer_combine(that, g).unwrap_safe();
        //@~ proof { lemma_merged_weaken(outer_c::<Detached, Detached, NoError, _>(g, Detached, Detached), outer_1(f), self.t(), that.t(), res.t()); }
        //@~ res
    }

    pub fn outer_combine_with<S2: BlobStore<Error = NoError> + Clone>(
        &mut self,
        that: &RadixTree<S2>,
        f: impl Fn(&mut Value, &ValueRef<S2>) + Copy,
    ) {
        //@spec requires old(self).ok(), that.ok(), with1_ok(f, that.store),
        //@spec ensures final(self).ok() && merged(outer_w1(f, that.store), old(self).t(), that.t(), final(self).t()),
        self.try_outer_combine_with(that, DetachConverter, |a, b| Ok(f(a, b)))
            .unwrap_safe()
        //@~2 let g = |a: &mut Value, b: &ValueRef<S2>| -> (r: Result<(), NoError>) requires may(f, *a, b), ensures r is Ok && done(f, *old(a), *final(a), b), { Ok(f(a, b)) };
        //@~ self.try_outer_combine_with(that, DetachConverter, g).unwrap_safe();
        //@~ proof { lemma_merged_weaken(outer_w::<Detached, S2, NoError, _>(g, Detached, that.store), outer_w1(f, that.store), old(self).t(), that.t(), self.t()); }
    }

    pub fn inner_combine(
        &self,
        that: &RadixTree,
        f: impl Fn(&ValueRef, &ValueRef) -> Option<Value> + Copy,
    ) -> RadixTree {
        //@spec requires self.ok(), that.ok(), comb1_ok(f),
        //@spec ensures r.ok() && merged(inner_1(f), self.t(), that.t(), r.t()),
        self.try_inner_combine(that, |a, b| Ok(f(a, b)))
            .unwrap_safe()
        //@~2 let g = |a: &ValueRef, b: &ValueRef| -> (r: Result<Option<Value>, NoError>) requires call_requires(f, (a, b)), ensures r is Ok && call_ensures(f, (a, b), r->Ok_0), { Ok(f(a, b)) };
        //@~ let res = self.try_inner_combine(that, g).unwrap_safe();
        //@~ proof { lemma_merged_weaken(inner_c::<Detached, Detached, NoError, _>(g, Detached, Detached), inner_1(f), self.t(), that.t(), res.t()); }
        //@~ res
    }

    pub fn inner_combine_with<S2: BlobStore<Error = NoError> + Clone>(
        &mut self,
        that: &RadixTree<S2>,
        f: impl Fn(&mut Value, &ValueRef<S2>) + Copy,
    ) {
        //@spec requires old(self).ok(), that.ok(), with1_ok(f, that.store),
        //@spec ensures final(self).ok() && merged(inner_w1(f, that.store), old(self).t(), that.t(), final(self).t()),
        self.try_inner_combine_with(that, DetachConverter, |a, b| Ok(f(a, b)))
            .unwrap_safe()
        //@~2 let g = |a: &mut Value, b: &ValueRef<S2>| -> (r: Result<(), NoError>) requires may(f, *a, b), ensures r is Ok && done(f, *old(a), *final(a), b), { Ok(f(a, b)) };
        //@~ self.try_inner_combine_with(that, DetachConverter, g).unwrap_safe();
        //@~ proof { lemma_merged_weaken(inner_w::<Detached, S2, NoError, _>(g, Detached, that.store), inner_w1(f, that.store), old(self).t(), that.t(), self.t()); }
    }

    pub fn inner_combine_pred(
        &self,
        that: &RadixTree,
        f: impl Fn(&ValueRef, &ValueRef) -> bool + Copy,
    ) -> bool {
        //@spec requires self.ok(), that.ok(), dec1_ok(f),
        //@spec ensures qres(inner_q1(f), self.t(), that.t(), r),
        self.try_inner_combine_pred(that, |a, b| Ok(f(a, b)))
            .unwrap_safe()
        //@~2 let g = |a: &ValueRef, b: &ValueRef| -> (r: Result<bool, NoError>) requires call_requires(f, (a, b)), ensures r is Ok && call_ensures(f, (a, b), r->Ok_0), { Ok(f(a, b)) };
        //@~ let res = self.try_inner_combine_pred(that, g).unwrap_safe();
        //@~ proof { lemma_qres_weaken(inner_q::<Detached, Detached, NoError, _>(g, Detached, Detached), inner_q1(f), self.t(), that.t(), res); }
        //@~ res
    }

    pub fn left_combine(
        &self,
        that: &RadixTree,
        f: impl Fn(&ValueRef, &ValueRef) -> Option<Value> + Copy,
    ) -> RadixTree {
        //@spec requires self.ok(), that.ok(), comb1_ok(f),
        //@spec ensures r.ok() && merged(left_1(f), self.t(), that.t(), r.t()),
        self.try_left_combine(that, |a, b| Ok(f(a, b)))
            .unwrap_safe()
        //@~2 let g = |a: &ValueRef, b: &ValueRef| -> (r: Result<Option<Value>, NoError>) requires call_requires(f, (a, b)), ensures r is Ok && call_ensures(f, (a, b), r->Ok_0), { Ok(f(a, b)) };
        //@~ let res = self.try_left_combine(that, g).unwrap_safe();
        //@~ proof { lemma_merged_weaken(left_c::<Detached, Detached, NoError, _>(g, Detached, Detached), left_1(f), self.t(), that.t(), res.t()); }
        //@~ res
    }

    pub fn left_combine_with<S2: BlobStore<Error = NoError> + Clone>(
        &mut self,
        that: &RadixTree<S2>,
        f: impl Fn(&mut Value, &ValueRef<S2>) + Copy,
    ) {
        //@spec requires old(self).ok(), that.ok(), with1_ok(f, that.store),
        //@spec ensures final(self).ok() && merged(left_w1(f, that.store), old(self).t(), that.t(), final(self).t()),
        self.try_left_combine_with(that, DetachConverter, |a, b| Ok(f(a, b)))
            .unwrap_safe()
        //@~2 let g = |a: &mut Value, b: &ValueRef<S2>| -> (r: Result<(), NoError>) requires may(f, *a, b), ensures r is Ok && done(f, *old(a), *final(a), b), { Ok(f(a, b)) };
        //@~ self.try_left_combine_with(that, DetachConverter, g).unwrap_safe();
        //@~ proof { lemma_merged_weaken(left_w::<Detached, S2, NoError, _>(g, Detached, that.store), left_w1(f, that.store), old(self).t(), that.t(), self.t()); }
    }

    pub fn left_combine_pred(
        &self,
        that: &RadixTree,
        f: impl Fn(&ValueRef, &ValueRef) -> bool + Copy,
    ) -> bool {
        //@spec requires self.ok(), that.ok(), dec1_ok(f),
        //@spec ensures qres(left_q1(f), self.t(), that.t(), r),
        self.try_left_combine_pred(that, |a, b| Ok(f(a, b)))
            .unwrap_safe()
        //@~2 let g = |a: &ValueRef, b: &ValueRef| -> (r: Result<bool, NoError>) requires call_requires(f, (a, b)), ensures r is Ok && call_ensures(f, (a, b), r->Ok_0), { Ok(f(a, b)) };
        //@~ let res = self.try_left_combine_pred(that, g).unwrap_safe();
        //@~ proof { lemma_qres_weaken(left_q::<Detached, Detached, NoError, _>(g, Detached, Detached), left_q1(f), self.t(), that.t(), res); }
        //@~ res
    }

    pub fn retain_prefix_with<S2: BlobStore<Error = NoError> + Clone>(
        &mut self,
        that: &RadixTree<S2>,
        f: impl Fn(&ValueRef<S2>) -> bool + Copy,
    ) {
        //@spec requires old(self).ok(), that.ok(), acc1_ok(f, that.store),
        //@spec ensures final(self).ok() && pm(acc1(f, that.store), kp(true), old(self).t(), that.t(), final(self).t()),
        self.try_retain_prefix_with(that, |a| Ok(f(a)))
            .unwrap_safe()
        //@~2 let g = |a: &ValueRef<S2>| -> (r: Result<bool, NoError>) requires call_requires(f, (a,)), ensures r is Ok && call_ensures(f, (a,), r->Ok_0), { Ok(f(a)) };
        //@~ self.try_retain_prefix_with(that, g).unwrap_safe();
        //@~ proof { lemma_pm_weaken(accepts::<S2, NoError, _>(g, that.store), acc1(f, that.store), kp(true), old(self).t(), that.t(), self.t()); }
    }

    pub fn remove_prefix_with<S2: BlobStore<Error = NoError> + Clone>(
        &mut self,
        that: &RadixTree<S2>,
        f: impl Fn(&ValueRef<S2>) -> bool + Copy,
    ) {
        //@spec requires old(self).ok(), that.ok(), acc1_ok(f, that.store),
        //@spec ensures final(self).ok() && pm(acc1(f, that.store), kp(false), old(self).t(), that.t(), final(self).t()),
        self.try_remove_prefix_with(that, |a| Ok(f(a)))
            .unwrap_safe()
        //@~2 let g = |a: &ValueRef<S2>| -> (r: Result<bool, NoError>) requires call_requires(f, (a,)), ensures r is Ok && call_ensures(f, (a,), r->Ok_0), { Ok(f(a)) };
        //@~ self.try_remove_prefix_with(that, g).unwrap_safe();
        //@~ proof { lemma_pm_weaken(accepts::<S2, NoError, _>(g, that.store), acc1(f, that.store), kp(false), old(self).t(), that.t(), self.t()); }
    }

}

impl<K: AsRef<[u8]>, V: AsRef<[u8]>> FromIterator<(K, V)> for RadixTree {
    //@impl impl RadixTree
    fn from_iter<T: IntoIterator<Item = (K, V)>>(iter: T) -> Self {
        //@hdr fn from_iter<K: AsBytes, V: AsBytes>(iter: Vec<(K, V)>) -> (r: Self)
        //@spec requires forall|i: int| 0 <= i < iter@.len() ==> (#[trigger] iter@[i]).0.bok() && iter@[i].1.bok(),
        //@spec ensures r.ok(), forall|k: Seq<u8>| #[trigger] r.at(k) == last_of(iter@, k),
        //@ let ghost all = iter@;
        let mut tree = RadixTree::default();
        //@~ let mut tree: RadixTree = RadixTree::default();
        for (key, value) in iter.into_iter() {
        //@~ for (key, value) in it: iter.into_iter()
        //@~ invariant it.seq() == all, tree.ok(), forall|k: Seq<u8>| #[trigger] tree.at(k) == last_of(all.take(it.index@), k), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).0.bok() && all[i].1.bok(),
        //@~ {
            //@ proof { let i = it.index@; assert(all.take(i + 1).drop_last() =~= all.take(i)); assert(all.take(i + 1).last() == all[i]); assert(all[i] == (key, value)); }
            tree.insert(key, value);
        }
        //@ proof { assert(all.take(all.len() as int) =~= all); }
        tree
    }

}

