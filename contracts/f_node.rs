impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
    fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
        //@spec requires self.inv(), rep(self.nw(), *store), n <= tv(self.nw(), *store).p().len(),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.nw().c == self.nw().c && repr(r->Ok_0.nw(), *store, shorten(tv(self.nw(), *store), n as nat)),
        match self.dispatch() {
            Ok(owned) => owned.clone_shortened(store, n),
            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
        }
    }

}

impl<S: BlobStore> TreeNode<S> {
    fn load_children_mut(&mut self, store: &S) -> Result<&mut Vec<TreeNode<S>>, S::Error> {
        //@spec requires old(self).inv(), rep(old(self).nw(), *store),
        //@spec ensures match r {
        //@spec     Ok(m) => drepr((*m)@, *store, tv(old(self).nw(), *store).c()) && final(self).inv() && final(self).nw() =~= (NV { c: Ch::Data((*final(m))@), ..old(self).nw() }),
        //@spec     Err(_) => final(self).inv() && final(self).nw() == old(self).nw() && old(self).nw().c is Id && old(self).nw().c->Id_0.len() > 0 },
        //@ let ghost t = tv(self.nw(), *store);
        //@ let ghost n0 = self.nw();
        if let Err(id) = self.get_children() {
            let mut items = Vec::new();
            //@ broadcast use lemma_cload;
            //@ proof { lemma_drepr_nil(items@, *store); assert(t.c().skip(0) =~= t.c()); assert(t.c().take(0) =~= Seq::empty()); }
            if let Some(mut iter) = TreeNodeIter::load(id, store)? {
                while let Some(item) = iter.next() {
                    //@spec invariant iter.inv(), drepr(items@, *store, t.c().take(items@.len() as int)), items@.len() <= t.c().len(), irepr(iter.rem(), *store, t.c().skip(items@.len() as int)),
                    //@spec ensures items@.len() == t.c().len(),
                    //@spec decreases rem_len(iter.rem()),
                    //@ let ghost k = items@.len() as int;
                    //@ proof { assert(t.c().skip(k)[0] == t.c()[k]); assert(t.c().skip(k).skip(1) =~= t.c().skip(k + 1)); assert(t.c().take(k).push(t.c()[k]) =~= t.c().take(k + 1)); }
                    items.push(item.to_owned());
                    //@ proof { lemma_drepr_push(items@.drop_last(), *store, t.c().take(k), items@.last(), t.c()[k]); assert(items@.drop_last().push(items@.last()) =~= items@); }
                }
            }
            //@ proof { assert(t.c().take(items@.len() as int) =~= t.c()); }
            self.set_children_arc(Arc::new(items));
        };
        let children = self.get_children_mut().unwrap();
        Ok(Arc::make_mut(children))
    }

    fn clone_shortened(&self, store: &S, n: usize) -> Result<Self, S::Error> {
        //@spec requires self.inv(), rep(self.nw(), *store), n <= tv(self.nw(), *store).p().len(),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.nw().c == self.nw().c && repr(r->Ok_0.nw(), *store, shorten(tv(self.nw(), *store), n as nat)),
        //@ let ghost t = tv(self.nw(), *store);
        let prefix = self.load_prefix(store)?;
        let mut res = self.clone();
        res.set_prefix_slice(&prefix[n..]);
        //@ proof { assert(prefix@.subrange(n as int, prefix@.len() as int) =~= t.p().skip(n as int)); lemma_mk(res.nw(), *store, t.p().skip(n as int), t.v(), t.c()); }
        Ok(res)
    }

    fn split(&mut self, store: &S, n: usize) -> Result<(), S::Error> {
        //@spec requires old(self).inv(), rep(old(self).nw(), *store), old(self).nw().tight(), n <= tv(old(self).nw(), *store).p().len(),
        //@spec ensures final(self).inv(), r is Ok ==> final(self).nw().c is Data && final(self).nw().tight() && repr(final(self).nw(), *store, cut(tv(old(self).nw(), *store), n as nat)), r is Err ==> final(self).nw() == old(self).nw(),
        //@ let ghost t = tv(self.nw(), *store);
        let prefix = self.load_prefix(store)?;
        let mut child = Self::EMPTY;
        child.set_prefix_slice(&prefix[n..]);
        //@ proof { assert(prefix@.subrange(n as int, prefix@.len() as int) =~= t.p().skip(n as int)); }
        let prefix = prefix.to_vec();
        //@ proof { assert(prefix@ =~= t.p()); }
        self.set_prefix_slice(&prefix[..n]);
        //@ proof { assert(prefix@.subrange(0, n as int) =~= t.p().take(n as int)); }
        std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
        std::mem::swap(&mut self.children, &mut child.children);
        std::mem::swap(&mut self.value, &mut child.value);
        std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
        //@ proof { lemma_mk(child.nw(), *store, t.p().skip(n as int), t.v(), t.c()); assert(child.inv() && child.nw().tight()); }
        //@ let ghost cs = seq![child];
        //@ proof { lemma_drepr_nil(Seq::<TreeNode<S>>::empty(), *store); lemma_drepr_push(Seq::empty(), *store, Seq::empty(), child, shorten(t, n as nat)); assert(Seq::empty().push(child) =~= cs); assert(Seq::empty().push(shorten(t, n as nat)) =~= cut(t, n as nat).c()); }
        self.set_children_arc(Arc::new(vec![child]));
        //@ proof { assert(self.nw().c->Data_0 =~= cs); lemma_crepr_data(cs, *store, cut(t, n as nat).c()); lemma_mk(self.nw(), *store, t.p().take(n as int), None, cut(t, n as nat).c()); }
        Ok(())
    }

    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
        //@spec requires old(self).inv(), rep(old(self).nw(), *store),
        //@spec ensures final(self).inv(), r is Ok ==> final(self).nw().tight() && rep(final(self).nw(), *store) && (wfc(tv(old(self).nw(), *store).c()) ==> repr(final(self).nw(), *store, canonized(old(self).nw(), *store))),
        //@spec r is Err ==> final(self).nw().tight() && repr(final(self).nw(), *store, tv(old(self).nw(), *store)) && old(self).nw().c is Data && tv(old(self).nw(), *store).v() is None && tv(old(self).nw(), *store).c().len() == 1,
        //@ let ghost t = tv(self.nw(), *store);
        //@ let ghost n0 = self.nw();
        let cc = self.child_count();
        if !self.has_value() && cc == 1 {
            //@ proof { assert(repr(n0, *store, t)); assert(n0.c is Data); assert(crepr(n0.c, *store, t.c())); assert(t.c().len() == 1); assert(n0.tight()); }
            let mut prefix = self.load_prefix(store)?.to_vec();
            //@ proof { assert(prefix@ =~= t.p()); }
            let children = self.get_children_mut().expect("children must be loaded");
            let children = Arc::make_mut(children);
            //@ proof { lemma_drepr_at(children@, *store, t.c(), 0); }
            //@ let ghost n1 = children@[0];
            //@ let ghost t1 = t.c()[0];
            prefix.extend_from_slice(&children[0].load_prefix(store)?);
            //@ proof { assert(prefix@ =~= t.p() + t1.p()); }
            let mut child = children.pop().unwrap();
            self.set_prefix_slice(&prefix);
            std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
            std::mem::swap(&mut self.value, &mut child.value);
            std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
            std::mem::swap(&mut self.children, &mut child.children);
            //@ proof { assert(self.nw() =~= (NV { p: Raw::Data(prefix@), ..n1.nw() })); lemma_mk(self.nw(), *store, prefix@, t1.v(), t1.c()); }
        }
        //@ let ghost n2 = self.nw();
        //@ let ghost t2 = tv(n2, *store);
        //@ proof { if t.v() is None && t.c().len() == 1 && wfc(t.c()) { assert(wfn(t.c()[0])); } assert(repr(n2, *store, t2)); assert(t2 == (if t.v() is None && t.c().len() == 1 && n0.c is Data { canon(t) } else { t })); }
        if self.child_count() == 0 {
            //@ proof { assert(t2.c() =~= Seq::empty()); lemma_crepr_empty::<S>(Seq::empty(), *store); }
            self.set_children_arc_opt(None);
            //@ proof { lemma_mk(self.nw(), *store, t2.p(), t2.v(), Seq::empty()); assert(t2 == T::Node { p: t2.p(), v: t2.v(), c: Seq::empty() }); }
            if !self.has_value() {
                self.set_prefix_owned(OwnedBlobRef::EMPTY);
                //@ proof { lemma_repr_empty(self.nw(), *store); }
            }
        }
        Ok(())
    }

}

fn filter_prefix<S: BlobStore>(
    node: &TreeNodeRef<S>,
    store: &S,
    prefix: &[u8],
    substitution: &[u8],
) -> Result<TreeNode<S>, S::Error> {
    //@spec requires node.inv(), good(node.nw(), *store),
    //@spec ensures r is Ok ==> r->Ok_0.inv() && good(r->Ok_0.nw(), *store) && forall|k: Seq<u8>| #[trigger] lk(tv(r->Ok_0.nw(), *store), k) == lk(filt(tv(node.nw(), *store), prefix@, substitution@), k),
    find(store, node, prefix, |x| {
    //@~ find(store, node, prefix, |x: FindResult<&TreeNodeRef<S>>| -> (o: Result<TreeNode<S>, S::Error>)
    //@~ requires node.inv(), good(node.nw(), *store), fr_ok(x, *store, tv(node.nw(), *store), prefix@),
    //@~ ensures o is Ok ==> o->Ok_0.inv() && good(o->Ok_0.nw(), *store) && forall|k: Seq<u8>| #[trigger] lk(tv(o->Ok_0.nw(), *store), k) == lk(filt(tv(node.nw(), *store), prefix@, substitution@), k),
    //@~ {
    //@ let ghost t = tv(node.nw(), *store);
    //@ proof { lemma_ft_wf(t, prefix@); }
        Ok(match x {
            FindResult::Found(res) => {
                let mut res = res.to_owned();
                //@ let ghost x = ft(t, prefix@)->Found_0;
                res.set_prefix_slice(substitution);
                //@ proof { lemma_mk(res.nw(), *store, substitution@, x.v(), x.c()); lemma_canon(with_p(x, substitution@)); lemma_canonized(res.nw(), *store); }
                res.canonicalize(store)?;
                res
            }
            FindResult::Prefix { tree, matching } => {
                //@ let ghost x = ft(t, prefix@)->Prefix_0;
                //@ proof { lemma_cpl(x.p(), prefix@); }
                let tree_prefix = tree.load_prefix(store)?;
                let mut res = tree.to_owned();
                let mut tmp = Vec::new();
                tmp.extend_from_slice(substitution);
                tmp.extend_from_slice(&tree_prefix[matching..]);
                res.set_prefix_slice(&tmp);
                //@ proof { assert(tmp@ =~= substitution@ + x.p().skip(matching as int)); lemma_mk(res.nw(), *store, tmp@, x.v(), x.c()); }
                res
            }
            FindResult::NotFound => TreeNode::EMPTY,
            //@~ FindResult::NotFound => { let e = TreeNode::<S>::EMPTY; proof { lemma_repr_empty(e.nw(), *store); } e },
        })
    })
}
