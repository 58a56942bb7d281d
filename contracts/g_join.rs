struct OuterJoin<'a, A: BlobStore, B: BlobStore, E> {
    a: TreeNodeIter<'a, A>,
    b: TreeNodeIter<'a, B>,
    p: PhantomData<E>,
}

impl<'a, A, B, E> OuterJoin<'a, A, B, E> where     A: BlobStore,     B: BlobStore,     E: From<A::Error> + From<B::Error>, {
    pub fn new(a: TreeNodeIter<'a, A>, b: TreeNodeIter<'a, B>) -> Self {
        //@spec ensures r.a == a, r.b == b,
        Self {
            a,
            b,
            p: PhantomData,
        }
    }

    fn next_a(&mut self) -> Option<(Option<TreeNodeRef<'_, A>>, Option<TreeNodeRef<'_, B>>)> {
        //@spec requires old(self).a.inv(), rem_head(old(self).a.rem()) is Some,
        //@spec ensures final(self).a.inv(), final(self).b == old(self).b, r is Some, (r->0).0 is Some, (r->0).1 is None,
        //@spec     jnext(old(self).a.rem(), final(self).a.rem(), (r->0).0),
        let a = self.a.next().unwrap();
        Some((Some(a), None))
    }

    fn next_b(&mut self) -> Option<(Option<TreeNodeRef<'_, A>>, Option<TreeNodeRef<'_, B>>)> {
        //@spec requires old(self).b.inv(), rem_head(old(self).b.rem()) is Some,
        //@spec ensures final(self).b.inv(), final(self).a == old(self).a, r is Some, (r->0).0 is None, (r->0).1 is Some,
        //@spec     jnext(old(self).b.rem(), final(self).b.rem(), (r->0).1),
        let b = self.b.next().unwrap();
        Some((None, Some(b)))
    }

    fn next_ab(&mut self) -> Option<(Option<TreeNodeRef<'_, A>>, Option<TreeNodeRef<'_, B>>)> {
        //@spec requires old(self).a.inv(), old(self).b.inv(),
        //@spec ensures final(self).a.inv(), final(self).b.inv(), r is Some,
        //@spec     jnext(old(self).a.rem(), final(self).a.rem(), (r->0).0), jnext(old(self).b.rem(), final(self).b.rem(), (r->0).1),
        let a = self.a.next();
        let b = self.b.next();
        Some((a, b))
    }

    fn next0(
        &mut self,
    ) -> Result<Option<(Option<TreeNodeRef<'_, A>>, Option<TreeNodeRef<'_, B>>)>, E> {
        //@spec requires old(self).a.inv(), old(self).b.inv(),
        //@spec ensures final(self).a.inv(), final(self).b.inv(), r is Ok,
        //@spec     jstep(old(self).a.rem(), old(self).b.rem(), final(self).a.rem(), final(self).b.rem(), r->Ok_0),
        Ok(
            #[allow(clippy::manual_map)]
            if let (Some(ak), Some(bk)) = (
                self.a.first_prefix_byte_opt(),
                self.b.first_prefix_byte_opt(),
            ) {
                match ak.cmp(&bk) {
                    Ordering::Less => self.next_a(),
                    Ordering::Greater => self.next_b(),
                    Ordering::Equal => self.next_ab(),
                }
            } else if let Some(a) = self.a.next() {
                Some((Some(a), None))
            } else if let Some(b) = self.b.next() {
                Some((None, Some(b)))
            } else {
                None
            },
        )
    }

    fn next(
        &mut self,
    ) -> Option<Result<(Option<TreeNodeRef<'_, A>>, Option<TreeNodeRef<'_, B>>), E>> {
        //@spec requires old(self).a.inv(), old(self).b.inv(),
        //@spec ensures final(self).a.inv(), final(self).b.inv(), r is Some ==> r->0 is Ok,
        //@spec     jstep(old(self).a.rem(), old(self).b.rem(), final(self).a.rem(), final(self).b.rem(), (match r { Some(x) => Some(x->Ok_0), None => None })),
        self.next0().transpose()
    }

}

fn cmp<A: BlobStore, B: BlobStore>(
    a: &InPlaceVecBuilder<'_, TreeNode<A>>,
    b: &mut TreeNodeIter<'_, B>,
) -> Option<Ordering> {
    //@spec requires a.src().len() > 0 ==> a.src()[0].inv(), old(b).inv(),
    //@spec ensures *final(b) == *old(b), r == ocmp(rem_first(Rem::Data(a.src())), rem_first(old(b).rem())),
    let ap = a.source_slice().get(0).map(|x| x.first_prefix_byte());
    //@~ let ap = a.source_slice().get(0).map(|x: &TreeNode<A>| -> (o: Option<u8>) requires x.inv() ensures o == x.nw().first() { x.first_prefix_byte() });
    let bp = b.first_prefix_byte_opt();
    match (ap, bp) {
        (Some(a), Some(b)) => Some(a.cmp(&b)),
        (Some(_), None) => Some(Ordering::Less),
        (None, Some(_)) => Some(Ordering::Greater),
        (None, None) => None,
    }
}
