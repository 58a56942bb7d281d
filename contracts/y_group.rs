struct GroupBy<S: BlobStore, F> {
    path: IterKey,
    stack: Vec<(usize, Option<TreeNodeIter<'static, S>>)>,
    store: S,
    descend: F,
}

impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> GroupBy<S, F> {
    fn new(iter: TreeNodeIter<'static, S>, store: S, prefix: IterKey, descend: F) -> Self {
        //@spec requires oki(iter, store), ok_desc(descend, store),
        //@spec ensures r.ok(), r.store == store, r.descend == descend,
        //@ broadcast use group_ok;
        Self {
            stack: vec![(0, Some(iter))],
            //@~ stack: vec_of((0, Some(iter))),
            path: prefix,
            store,
            descend,
        }
    }

    fn next0(&mut self) -> Result<Option<TreeNode<S>>, S::Error> {
        //@spec requires old(self).ok(),
        //@spec ensures final(self).store == old(self).store, final(self).descend == old(self).descend, r is Ok ==> final(self).ok() && (r->Ok_0 is Some ==> (r->Ok_0->0).inv() && okn((r->Ok_0->0).nw(), old(self).store)),
        //@ broadcast use group_ok;
        Ok(loop {
            //@~ loop
            //@~     invariant_except_break self.ok(), self.store == old(self).store, self.descend == old(self).descend,
            //@~     decreases st_steps(self.stack@, self.store),
            //@~ {
            //@~ broadcast use group_ok; let ghost st0 = self.stack@;
            if self.stack.is_empty() {
                break None;
                //@~ return Ok(None);
            }
            let (last_prefix_len, iter_opt) = &mut self.stack.last_mut().unwrap();
            let last_prefix_len = *last_prefix_len;
            //@~2 let top = vec_last_mut(&mut self.stack);
            //@~ let last_prefix_len = top.0;
            //@~ let iter_opt = &mut top.1;
            if let Some(iter) = iter_opt {
                if let Some(node) = iter.next() {
                    // apply the prefix in any case!
                    let prefix = node.load_prefix(&self.store)?;
                    let prefix_len = prefix.len();
                    self.path.append(prefix.as_ref());
                    if (self.descend)(&self.path.0, &node)? {
                        //@~ if (self.descend)(self.path.as_ref(), &node)? {
                        let children = node.load_children_owned(&self.store)?;
                        let res = if node.value_opt().is_some() {
                            let mut res = node.to_owned();
                            res.set_prefix_slice(&self.path);
                            //@~ res.set_prefix_slice(self.path.as_ref());
                            res.set_children_arc_opt(None);
                            Some(res)
                        } else {
                            None
                        };
                        self.stack.push((prefix_len, children));
                        //@ proof { lemma_st_into(st0, self.stack@, self.store); }
                        if let Some(t) = res {
                            //@ proof { lemma_okn(t.nw(), self.store); }
                            break Some(t);
                            //@~ return Ok(Some(t));
                        }
                    } else {
                        let mut res = node.to_owned();
                        res.set_prefix_slice(&self.path);
                        //@~ res.set_prefix_slice(self.path.as_ref());
                        // undo applying the prefix immediately, since we don't descend
                        self.path.pop(prefix_len);
                        //@ proof { lemma_okn(res.nw(), self.store); }
                        break Some(res);
                        //@~ return Ok(Some(res));
                    }
                } else {
                    *iter_opt = None;
                    //@ proof { lemma_st_end(st0, self.stack@, self.store); }
                }
            } else {
                self.path.pop(last_prefix_len);
                self.stack.pop();
                //@ proof { lemma_st_end(st0, self.stack@, self.store); }
            }
        })
        //@~ }
    }

}

impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> Iterator
    for GroupBy<S, F>
{
    //@impl impl<S: BlobStore, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error>> GroupBy<S, F>
    fn next(&mut self) -> Option<Self::Item> {
        //@hdr fn next(&mut self) -> (r: Option<Result<TreeNode<S>, S::Error>>)
        //@spec requires old(self).ok(),
        //@spec ensures final(self).ok(), final(self).store == old(self).store, r matches Some(Ok(n)) ==> n.inv() && okn(n.nw(), old(self).store),
        //@ broadcast use group_ok;
        match self.next0() {
            Ok(Some(x)) => Some(Ok(x)),
            Ok(None) => None,
            Err(cause) => {
                self.stack.clear();
                Some(Err(cause))
            }
        }
    }

}

impl<S: BlobStore + Clone> RadixTree<S> {
    fn try_group_by<'a, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error> + 'a>(
        &'a self,
        descend: F,
    ) -> impl Iterator<Item = Result<RadixTree<S>, S::Error>> + 'a {
        //@hdr fn try_group_by<'a, F: Fn(&[u8], &TreeNodeRef<S>) -> Result<bool, S::Error> + 'a>(&'a self, descend: F) -> (r: GroupBy<S, F>)
        //@spec requires self.ok(), ok_desc(descend, self.store),
        //@spec ensures r.ok(), r.store == self.store,
        //@ broadcast use group_ok;
        GroupBy::new(
            TreeNodeIter::from_arc(Arc::new(vec![self.node.clone()])),
            //@~ one_node(self.node.clone(), Ghost(self.store)),
            self.store.clone(),
            IterKey::default(),
            descend,
        )
        .map(|r| {
            r.map(|node| RadixTree {
                node,
                store: self.store.clone(),
            })
        })
        //@~6
    }

}

