pub struct IterKey(Arc<Vec<u8>>);

impl IterKey {
    fn new(root: &[u8]) -> Self {
        //@spec ensures r.kb() == root@,
        //@ broadcast use group_ok;
        Self(Arc::new(root.to_vec()))
    }

    fn append(&mut self, data: &[u8]) {
        //@spec ensures final(self).kb() == old(self).kb() + data@,
        //@ broadcast use group_ok;
        let elems = Arc::make_mut(&mut self.0);
        elems.extend_from_slice(data);
    }

    fn pop(&mut self, n: usize) {
        //@ broadcast use group_ok;
        let elems = Arc::make_mut(&mut self.0);
        elems.truncate(elems.len().saturating_sub(n));
    }

    pub fn to_owned_blob(&self) -> OwnedBlob {
        //@ broadcast use group_ok;
        self.0.clone().into()
        //@~ OwnedBlob::from(self.0.clone())
    }

}

impl AsRef<[u8]> for IterKey {
    //@impl impl AsBytes for IterKey
    //@pre open spec fn bts(&self) -> Seq<u8> { self.kb() }
    //@pre open spec fn bok(&self) -> bool { true }
    fn as_ref(&self) -> &[u8] {
        //@ broadcast use group_ok;
        self.0.as_ref()
        //@~ self.0.as_slice()
    }

}

impl Borrow<[u8]> for IterKey {
    //@impl impl IterKey
    fn borrow(&self) -> &[u8] {
        //@spec ensures r@ == self.kb(),
        //@ broadcast use group_ok;
        self.0.as_ref()
        //@~ self.0.as_slice()
    }

}

impl Deref for IterKey {
    //@impl impl IterKey
    fn deref(&self) -> &Self::Target {
        //@hdr fn deref(&self) -> (r: &[u8])
        //@spec ensures r@ == self.kb(),
        //@ broadcast use group_ok;
        self.0.as_ref()
        //@~ self.0.as_slice()
    }

}

pub struct ValueIter<S: BlobStore = Detached> {
    stack: Vec<TreeNodeIter<'static, S>>,
    store: S,
}

impl<S: BlobStore> ValueIter<S> {
    fn empty(store: S) -> Self {
        //@spec ensures r.ok(), r.store == store,
        //@ broadcast use group_ok;
        Self {
            stack: Vec::new(),
            store,
        }
    }

    fn new(iter: TreeNodeIter<'static, S>, store: S) -> Self {
        //@spec requires oki(iter, store),
        //@spec ensures r.ok(), r.store == store,
        //@ broadcast use group_ok;
        Self {
            stack: vec![iter],
            //@~ stack: vec_of(iter),
            store,
        }
    }

    fn next0(&mut self) -> Result<Option<Value<S>>, S::Error> {
        //@spec requires old(self).ok(),
        //@spec ensures final(self).store == old(self).store, r is Ok ==> final(self).ok() && okval(r->Ok_0, old(self).store),
        //@ broadcast use group_ok;
        while !self.stack.is_empty() {
            //@spec invariant self.ok(), self.store == old(self).store,
            //@spec decreases vst_steps(self.stack@, self.store),
            //@ broadcast use group_ok;
            //@ let ghost st0 = self.stack@;
            if let Some(node) = self.stack.last_mut().unwrap().next() {
            //@~ if let Some(node) = vec_last_mut(&mut self.stack).next() {
                let value = node.value_opt().map(|x| x.to_owned());
                //@~ let value = match node.value_opt() { Some(x) => Some(x.to_owned()), None => None };
                if let Some(children) = node.load_children_owned(&self.store)? {
                    self.stack.push(children);
                }
                //@ proof { lemma_vst_into(st0, self.stack@, self.store, if self.stack@.len() == st0.len() { None } else { Some(self.stack@.last()) }); }
                if let Some(value) = value {
                    return Ok(Some(value));
                }
            } else {
                self.stack.pop();
                //@ proof { lemma_vst_end(st0, self.stack@, self.store); }
            }
        }
        Ok(None)
    }

}

impl<S: BlobStore> Iterator for ValueIter<S> {
    //@impl impl<S: BlobStore> ValueIter<S>
    fn next(&mut self) -> Option<Self::Item> {
        //@hdr fn next(&mut self) -> (r: Option<Result<Value<S>, S::Error>>)
        //@spec requires old(self).ok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store, r matches Some(Ok(x)) ==> valok(x, old(self).store),
        //@ broadcast use group_ok;
        match self.next0() {
            Ok(Some(x)) => Some(Ok(x)),
            Ok(None) => None,
            Err(cause) => {
                self.stack.clear();
                Some(Err(cause))
            }
        }
    }

}

pub struct KeyValueIter<S: BlobStore = Detached> {
    path: IterKey,
    stack: Vec<(usize, Option<TreeNodeIter<'static, S>>)>,
    store: S,
}

impl<S: BlobStore> KeyValueIter<S> {
    fn empty(store: S) -> Self {
        //@spec ensures r.ok(), r.store == store,
        //@ broadcast use group_ok;
        Self {
            stack: Vec::new(),
            path: IterKey::default(),
            store,
        }
    }

    fn new(iter: TreeNodeIter<'static, S>, store: S, prefix: IterKey) -> Self {
        //@spec requires oki(iter, store),
        //@spec ensures r.ok(), r.store == store,
        //@ broadcast use group_ok;
        Self {
            stack: vec![(0, Some(iter))],
            //@~ stack: vec_of((0, Some(iter))),
            path: prefix,
            store,
        }
    }

    fn next0(&mut self) -> Result<Option<(IterKey, Value<S>)>, S::Error> {
        //@spec requires old(self).ok(),
        //@spec ensures final(self).store == old(self).store, r is Ok ==> final(self).ok() && (r->Ok_0 is Some ==> valok((r->Ok_0->0).1, old(self).store)),
        //@ broadcast use group_ok;
        while !self.stack.is_empty() {
            //@spec invariant self.ok(), self.store == old(self).store,
            //@spec decreases st_steps(self.stack@, self.store),
            //@ broadcast use group_ok;
            //@ let ghost st0 = self.stack@;
            let (last_prefix_len, iter_opt) = &mut self.stack.last_mut().unwrap();
            let last_prefix_len = *last_prefix_len;
            //@~2 let top = vec_last_mut(&mut self.stack);
            //@~ let last_prefix_len = top.0;
            //@~ let iter_opt = &mut top.1;
            if let Some(iter) = iter_opt {
                if let Some(node) = iter.next() {
                    let value = node.value_opt().map(|x| x.to_owned());
                    //@~ let value = match node.value_opt() { Some(x) => Some(x.to_owned()), None => None };
                    let prefix = node.load_prefix(&self.store)?;
                    let prefix_len = prefix.len();
                    let children = node.load_children_owned(&self.store)?;
                    self.path.append(prefix.as_ref());
                    self.stack.push((prefix_len, children));
                    //@ proof { lemma_st_into(st0, self.stack@, self.store); }
                    if let Some(value) = value {
                        return Ok(Some((self.path.clone(), value)));
                    }
                } else {
                    *iter_opt = None;
                    //@ proof { lemma_st_end(st0, self.stack@, self.store); }
                }
            } else {
                self.path.pop(last_prefix_len);
                self.stack.pop();
                //@ proof { lemma_st_end(st0, self.stack@, self.store); }
            }
        }
        Ok(None)
    }

}

impl<S: BlobStore> Iterator for KeyValueIter<S> {
    //@impl impl<S: BlobStore> KeyValueIter<S>
    fn next(&mut self) -> Option<Self::Item> {
        //@hdr fn next(&mut self) -> (r: Option<Result<(IterKey, Value<S>), S::Error>>)
        //@spec requires old(self).ok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store, r matches Some(Ok(x)) ==> valok(x.1, old(self).store),
        //@ broadcast use group_ok;
        match self.next0() {
            Ok(Some(x)) => Some(Ok(x)),
            Ok(None) => None,
            Err(cause) => {
                self.stack.clear();
                Some(Err(cause))
            }
        }
    }

}

