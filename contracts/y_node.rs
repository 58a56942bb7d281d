impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
    fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
        //@spec requires okref(*self, *store), n <= rp(*store, self.nw().p).len(),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), *store) && dep(r->Ok_0.nw(), *store) == dep(self.nw(), *store),
        //@ broadcast use group_okc;
        match self.dispatch() {
            Ok(owned) => owned.clone_shortened(store, n),
            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
        }
    }

}

impl<S: BlobStore> TreeNode<S> {
    fn load_children_mut(&mut self, store: &S) -> Result<&mut Vec<TreeNode<S>>, S::Error> {
        //@spec requires old(self).inv(), okn(old(self).nw(), *store),
        //@spec ensures match r {
        //@spec Ok(m) => okv((*m)@, *store) && vdep((*m)@, *store) < dep(old(self).nw(), *store) && final(self).inv() && final(self).nw() =~= (NV { c: Ch::Data((*final(m))@), ..old(self).nw() }),
        //@spec Err(_) => final(self).inv() && final(self).nw() == old(self).nw() },
        //@ broadcast use group_okc;
        //@ let ghost d0 = dep(self.nw(), *store);
        if let Err(id) = self.get_children() {
            let mut items = Vec::new();
            if let Some(mut iter) = TreeNodeIter::load(id, store)? {
                while let Some(item) = iter.next() {
                    //@spec invariant oki(iter, *store), okv(items@, *store), rdep(iter.rem(), *store) < d0, vdep(items@, *store) < d0,
                    //@spec decreases rem_len(iter.rem()),
                    //@ broadcast use group_okc;
                    items.push(item.to_owned());
                }
            }
            self.set_children_arc(Arc::new(items));
        };
        let children = self.get_children_mut().unwrap();
        Ok(Arc::make_mut(children))
    }

    fn clone_shortened(&self, store: &S, n: usize) -> Result<Self, S::Error> {
        //@spec requires self.inv(), okn(self.nw(), *store), n <= rp(*store, self.nw().p).len(),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), *store) && dep(r->Ok_0.nw(), *store) == dep(self.nw(), *store),
        //@ broadcast use group_okc;
        let prefix = self.load_prefix(store)?;
        let mut res = self.clone();
        res.set_prefix_slice(&prefix[n..]);
        Ok(res)
    }

    fn split(&mut self, store: &S, n: usize) -> Result<(), S::Error> {
        //@spec requires old(self).inv(), okn(old(self).nw(), *store), n <= rp(*store, old(self).nw().p).len(),
        //@spec ensures final(self).inv(), okn(final(self).nw(), *store), r is Ok ==> dep(final(self).nw(), *store) == dep(old(self).nw(), *store) + 1,
        //@ broadcast use group_okc;
        let prefix = self.load_prefix(store)?;
        let mut child = Self::EMPTY;
        child.set_prefix_slice(&prefix[n..]);
        let prefix = prefix.to_vec();
        self.set_prefix_slice(&prefix[..n]);
        std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
        std::mem::swap(&mut self.children, &mut child.children);
        std::mem::swap(&mut self.value, &mut child.value);
        std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
        self.set_children_arc(Arc::new(vec![child]));
        Ok(())
    }

    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
        //@spec requires old(self).inv(), okn(old(self).nw(), *store),
        //@spec ensures final(self).inv(), okn(final(self).nw(), *store),
        //@ broadcast use group_okc;
        let cc = self.child_count();
        if !self.has_value() && cc == 1 {
            let mut prefix = self.load_prefix(store)?.to_vec();
            let children = self.get_children_mut().expect("children must be loaded");
            let children = Arc::make_mut(children);
            prefix.extend_from_slice(&children[0].load_prefix(store)?);
            let mut child = children.pop().unwrap();
            self.set_prefix_slice(&prefix);
            std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
            std::mem::swap(&mut self.value, &mut child.value);
            std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
            std::mem::swap(&mut self.children, &mut child.children);
        }
        if self.child_count() == 0 {
            self.set_children_arc_opt(None);
            if !self.has_value() {
                self.set_prefix_owned(OwnedBlobRef::EMPTY);
            }
        }
        Ok(())
    }

}

fn filter_prefix<S: BlobStore>(
    node: &TreeNodeRef<S>,
    store: &S,
    prefix: &[u8],
    substitution: &[u8],
) -> Result<TreeNode<S>, S::Error> {
    //@spec requires okref(*node, *store),
    //@spec ensures r is Ok ==> r->Ok_0.inv() && okn(r->Ok_0.nw(), *store),
    //@ broadcast use group_okc;
    find(store, node, prefix, |x| {
    //@~ find(store, node, prefix, |x: FindResult<&TreeNodeRef<S>>| -> (o: Result<TreeNode<S>, S::Error>)
    //@~ requires ok_fr(x, *store, prefix@),
    //@~ ensures o is Ok ==> o->Ok_0.inv() && okn(o->Ok_0.nw(), *store),
    //@~ {
        Ok(match x {
            FindResult::Found(res) => {
                let mut res = res.to_owned();
                res.set_prefix_slice(substitution);
                res.canonicalize(store)?;
                res
            }
            FindResult::Prefix { tree, matching } => {
                let tree_prefix = tree.load_prefix(store)?;
                let mut res = tree.to_owned();
                let mut tmp = Vec::new();
                tmp.extend_from_slice(substitution);
                tmp.extend_from_slice(&tree_prefix[matching..]);
                res.set_prefix_slice(&tmp);
                res
            }
            FindResult::NotFound => TreeNode::EMPTY,
            //@~ FindResult::NotFound => TreeNode::<S>::EMPTY,
        })
    })
}
