fn scan_prefix<S: BlobStore + Clone>(
    store: S,
    tree: &TreeNodeRef<S>,
    prefix: &[u8],
) -> Result<KeyValueIter<S>, S::Error> {
    //@spec requires okref(*tree, store),
    //@spec ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.store == store,
    //@ broadcast use group_ok;
    let store1 = store.clone();
    find(&store, tree, prefix, |r| {
    //@~ find(&store, tree, prefix, |r: FindResult<&TreeNodeRef<S>>| -> (o: Result<KeyValueIter<S>, S::Error>)
    //@~ requires ok_fr(r, store, prefix@), store1 == store,
    //@~ ensures o is Ok ==> o->Ok_0.ok() && o->Ok_0.store == store,
    //@~ {
        Ok(match r {
            FindResult::Found(tree) => {
                let n = prefix.len() - tree.load_prefix(&store)?.len();
                let prefix = IterKey::new(&prefix[..n]);
                let tree: TreeNode<S> = tree.to_owned();
                KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
                //@~ KeyValueIter::new(one_node(tree, Ghost(store)), store1, prefix)
            }
            FindResult::Prefix { tree, matching } => {
                let prefix = IterKey::new(&prefix[..prefix.len() - matching]);
                let tree: TreeNode<S> = tree.to_owned();
                KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
                //@~ KeyValueIter::new(one_node(tree, Ghost(store)), store1, prefix)
            }
            FindResult::NotFound => KeyValueIter::empty(store1),
        })
    })
}

impl<S: BlobStore + Clone> RadixTree<S> {
    fn try_iter(&self) -> KeyValueIter<S> {
        //@spec requires self.ok(),
        //@spec ensures r.ok(),
        //@ broadcast use group_ok;
        KeyValueIter::new(
            TreeNodeIter::from_arc(Arc::new(vec![self.node.clone()])),
            //@~ one_node(self.node.clone(), Ghost(self.store)),
            self.store.clone(),
            IterKey::default(),
        )
    }

    fn try_values(&self) -> ValueIter<S> {
        //@spec requires self.ok(),
        //@spec ensures r.ok(),
        //@ broadcast use group_ok;
        ValueIter::new(
            TreeNodeIter::from_arc(Arc::new(vec![self.node.clone()])),
            //@~ one_node(self.node.clone(), Ghost(self.store)),
            self.store.clone(),
        )
    }

    fn try_scan_prefix(&self, prefix: impl AsRef<[u8]>) -> Result<KeyValueIter<S>, S::Error> {
        //@spec requires self.ok(), prefix.bok(),
        //@spec ensures r is Ok ==> r->Ok_0.ok(),
        //@ broadcast use group_ok;
        scan_prefix(
            self.store.clone(),
            &TreeNodeRef::owned(&self.node),
            prefix.as_ref(),
        )
    }

}
