pub struct IterKey(Arc<Vec<u8>>);

impl IterKey {
    fn new(root: &[u8]) -> Self {
        //@spec ensures r.kb() == root@,
        Self(Arc::new(root.to_vec()))
    }

    fn append(&mut self, data: &[u8]) {
        //@spec ensures final(self).kb() == old(self).kb() + data@,
        let elems = Arc::make_mut(&mut self.0);
        elems.extend_from_slice(data);
    }

    fn pop(&mut self, n: usize) {
        //@spec ensures final(self).kb() == old(self).kb().take(if n <= old(self).kb().len() { old(self).kb().len() - n } else { 0 }),
        let elems = Arc::make_mut(&mut self.0);
        elems.truncate(elems.len().saturating_sub(n));
    }

    pub fn to_owned_blob(&self) -> OwnedBlob {
        //@spec ensures r@ == self.kb(),
        self.0.clone().into()
        //@~ OwnedBlob::from(self.0.clone())
    }

}

impl AsRef<[u8]> for IterKey {
    //@impl impl AsBytes for IterKey
    //@pre open spec fn bts(&self) -> Seq<u8> { self.kb() }
    //@pre open spec fn bok(&self) -> bool { true }
    fn as_ref(&self) -> &[u8] {
        self.0.as_ref()
        //@~ self.0.as_slice()
    }

}

impl Borrow<[u8]> for IterKey {
    //@impl impl IterKey
    fn borrow(&self) -> &[u8] {
        //@spec ensures r@ == self.kb(),
        self.0.as_ref()
        //@~ self.0.as_slice()
    }

}

impl Deref for IterKey {
    //@impl impl IterKey
    fn deref(&self) -> &Self::Target {
        //@hdr fn deref(&self) -> (r: &[u8])
        //@spec ensures r@ == self.kb(),
        self.0.as_ref()
        //@~ self.0.as_slice()
    }

}

pub struct ValueIter<S: BlobStore = Detached> {
    stack: Vec<TreeNodeIter<'static, S>>,
    store: S,
}

impl<S: BlobStore> ValueIter<S> {
    fn empty(store: S) -> Self {
        //@spec ensures r.ok(), r.store == store, r.vals().len() == 0,
        Self {
            stack: Vec::new(),
            store,
        }
    }

    fn new(iter: TreeNodeIter<'static, S>, store: S) -> Self {
        //@spec requires it_ok(iter, store),
        //@spec ensures r.ok(), r.store == store, r.vals() =~= valsc(itv(iter.rem(), store)),
        //@ proof { reveal_with_fuel(vst_vals, 2); let st = seq![iter]; assert(st.last() == iter); assert(st.drop_last() =~= Seq::empty()); assert(vst_vals(st, store) =~= valsc(itv(iter.rem(), store))); }
        Self {
            stack: vec![iter],
            //@~ stack: vec_of(iter),
            store,
        }
    }

    fn next0(&mut self) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires old(self).ok(),
        //@spec ensures final(self).store == old(self).store, match r {
        //@spec Ok(Some(x)) => final(self).ok() && valok(x, old(self).store) && old(self).vals().len() > 0 && rv(old(self).store, x.vv()) == Some(old(self).vals()[0]) && final(self).vals() =~= old(self).vals().skip(1),
        //@spec Ok(None) => final(self).ok() && old(self).vals().len() == 0 && final(self).vals().len() == 0,
        //@spec Err(_) => true },
        //@ broadcast use lemma_cload;
        while !self.stack.is_empty() {
            //@spec invariant self.ok(), self.store == old(self).store, self.vals() =~= old(self).vals(),
            //@spec decreases vst_steps(self.stack@, self.store),
            //@ broadcast use lemma_cload;
            //@ let ghost st0 = self.stack@;
            //@ let ghost ts = itv(st0.last().rem(), self.store);
            if let Some(node) = self.stack.last_mut().unwrap().next() {
            //@~ if let Some(node) = vec_last_mut(&mut self.stack).next() {
                let value = node.value_opt().map(|x| x.to_owned());
                //@~ let value = match node.value_opt() { Some(x) => Some(x.to_owned()), None => None };
                if let Some(children) = node.load_children_owned(&self.store)? {
                    self.stack.push(children);
                }
                //@ proof { if self.stack@.len() == st0.len() { lemma_vst_into(st0, self.store, self.stack@.last(), None, ts[0], ts); assert(self.stack@ =~= st0.drop_last().push(self.stack@.last())); } else { let i1 = self.stack@[self.stack@.len() - 2]; lemma_vst_into(st0, self.store, i1, Some(self.stack@.last()), ts[0], ts); assert(self.stack@ =~= st0.drop_last().push(i1).push(self.stack@.last())); } }
                if let Some(value) = value {
                    return Ok(Some(value));
                }
            } else {
                self.stack.pop();
                //@ proof { assert(ts =~= Seq::empty()); lemma_vst_end(st0, self.store); assert(self.stack@ =~= st0.drop_last()); }
            }
        }
        Ok(None)
    }

}

impl<S: BlobStore> Iterator for ValueIter<S> {
    //@impl impl<S: BlobStore> ValueIter<S>
    fn next(&mut self) -> Option<Self::Item> {
        //@hdr fn next(&mut self) -> (r: Option<Result<Value<S>, S::Error>>)
        //@spec requires old(self).ok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store, match r {
        //@spec Some(Ok(x)) => valok(x, old(self).store) && old(self).vals().len() > 0 && rv(old(self).store, x.vv()) == Some(old(self).vals()[0]) && final(self).vals() =~= old(self).vals().skip(1),
        //@spec None => old(self).vals().len() == 0 && final(self).vals().len() == 0,
        //@spec Some(Err(_)) => final(self).vals().len() == 0 },
        match self.next0() {
            Ok(Some(x)) => Some(Ok(x)),
            Ok(None) => None,
            Err(cause) => {
                self.stack.clear();
                Some(Err(cause))
            }
        }
    }

}

pub struct KeyValueIter<S: BlobStore = Detached> {
    path: IterKey,
    stack: Vec<(usize, Option<TreeNodeIter<'static, S>>)>,
    store: S,
}

impl<S: BlobStore> KeyValueIter<S> {
    fn empty(store: S) -> Self {
        //@spec ensures r.ok(), r.store == store, r.ents().len() == 0,
        Self {
            stack: Vec::new(),
            path: IterKey::default(),
            store,
        }
    }

    fn new(iter: TreeNodeIter<'static, S>, store: S, prefix: IterKey) -> Self {
        //@spec requires it_ok(iter, store), itv(iter.rem(), store).len() == 1,
        //@spec ensures r.ok(), r.store == store, r.ents() =~= ents(itv(iter.rem(), store)[0], prefix.kb()),
        //@ let ghost ts = itv(iter.rem(), store);
        //@ proof { assert(ts =~= seq![ts[0]]); lemma_st_one(seq![(0usize, Some(iter))], store, prefix.kb(), ts[0]); }
        Self {
            stack: vec![(0, Some(iter))],
            //@~ stack: vec_of((0, Some(iter))),
            path: prefix,
            store,
        }
    }

    fn next0(&mut self) -> Result<Option<(IterKey, Value<S>)>, S::Error> {
        //@spec requires old(self).ok(),
        //@spec ensures final(self).store == old(self).store, match r {
        //@spec Ok(Some((k, x))) => final(self).ok() && valok(x, old(self).store) && old(self).ents().len() > 0 && k.kb() == old(self).ents()[0].0 && rv(old(self).store, x.vv()) == Some(old(self).ents()[0].1) && final(self).ents() =~= old(self).ents().skip(1),
        //@spec Ok(None) => final(self).ok() && old(self).ents().len() == 0 && final(self).ents().len() == 0,
        //@spec Err(_) => true },
        while !self.stack.is_empty() {
            //@spec invariant self.ok(), self.store == old(self).store, self.ents() =~= old(self).ents(),
            //@spec decreases st_steps(self.stack@, self.store),
            //@ broadcast use lemma_cload;
            //@ let ghost st0 = self.stack@;
            //@ let ghost p0 = self.path.kb();
            //@ let ghost ts = fr_ts(st0.last(), self.store);
            let (last_prefix_len, iter_opt) = &mut self.stack.last_mut().unwrap();
            let last_prefix_len = *last_prefix_len;
            //@~2 let top = vec_last_mut(&mut self.stack);
            //@~ let last_prefix_len = top.0;
            //@~ let iter_opt = &mut top.1;
            if let Some(iter) = iter_opt {
                if let Some(node) = iter.next() {
                    let value = node.value_opt().map(|x| x.to_owned());
                    //@~ let value = match node.value_opt() { Some(x) => Some(x.to_owned()), None => None };
                    let prefix = node.load_prefix(&self.store)?;
                    let prefix_len = prefix.len();
                    let children = node.load_children_owned(&self.store)?;
                    self.path.append(prefix.as_ref());
                    self.stack.push((prefix_len, children));
                    //@ proof { lemma_st_into(st0, self.store, p0, self.stack@[self.stack@.len() - 2], self.stack@.last(), ts[0], ts); assert(self.stack@ =~= st0.drop_last().push(self.stack@[self.stack@.len() - 2]).push(self.stack@.last())); }
                    if let Some(value) = value {
                        return Ok(Some((self.path.clone(), value)));
                    }
                } else {
                    *iter_opt = None;
                    //@ proof { assert(ts =~= Seq::empty()); lemma_st_end(st0, self.store, p0); assert(self.stack@ =~= st0.drop_last().push((st0.last().0, None))); assert(st_steps(self.stack@, self.store) < st_steps(st0, self.store)); }
                }
            } else {
                self.path.pop(last_prefix_len);
                self.stack.pop();
                //@ proof { lemma_st_end(st0, self.store, p0); assert(self.stack@ =~= st0.drop_last());  assert(st_steps(self.stack@, self.store) < st_steps(st0, self.store)); }
            }
        }
        Ok(None)
    }

}

impl<S: BlobStore> Iterator for KeyValueIter<S> {
    //@impl impl<S: BlobStore> KeyValueIter<S>
    fn next(&mut self) -> Option<Self::Item> {
        //@hdr fn next(&mut self) -> (r: Option<Result<(IterKey, Value<S>), S::Error>>)
        //@spec requires old(self).ok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store, match r {
        //@spec Some(Ok((k, x))) => valok(x, old(self).store) && old(self).ents().len() > 0 && k.kb() == old(self).ents()[0].0 && rv(old(self).store, x.vv()) == Some(old(self).ents()[0].1) && final(self).ents() =~= old(self).ents().skip(1),
        //@spec None => old(self).ents().len() == 0 && final(self).ents().len() == 0,
        //@spec Some(Err(_)) => final(self).ents().len() == 0 },
        match self.next0() {
            Ok(Some(x)) => Some(Ok(x)),
            Ok(None) => None,
            Err(cause) => {
                self.stack.clear();
                Some(Err(cause))
            }
        }
    }

}

