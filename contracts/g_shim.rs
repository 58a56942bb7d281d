// What the merges use of other crates, and one step of a join

/// the store can resolve the value
spec fn vfit<S: BlobStore>(v: Raw, s: S) -> bool {
    v is Id && !v.none() ==> s.readable()
}

spec fn valok<S: BlobStore>(v: Value<S>, s: S) -> bool {
    v.inv() && vfit(v.vv(), s)
}

spec fn vrok<S: BlobStore>(v: ValueRef<S>, s: S) -> bool {
    v.inv() && vfit(v.vv(), s)
}

/// `inplace_vec_builder::InPlaceVecBuilder` (dependency; contract assumed): a vector that is rebuilt in place. `src` is what
/// has not been consumed, `tgt` what has been taken or pushed, `fin` the vector after the builder is gone
#[verifier::external_body]
#[verifier::accept_recursive_types(X)]
struct InPlaceVecBuilder<'a, X> {
    v: &'a mut Vec<X>,
}

impl<'a, X> InPlaceVecBuilder<'a, X> {
    uninterp spec fn src(self) -> Seq<X>;

    uninterp spec fn tgt(self) -> Seq<X>;

    uninterp spec fn fin(self) -> Seq<X>;

    #[verifier::external_body]
    fn from(v: &'a mut Vec<X>) -> (r: Self)
        ensures
            r.src() == (*old(v))@,
            r.tgt() == Seq::<X>::empty(),
            r.fin() == (*final(v))@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn source_slice(&self) -> (r: &[X])
        ensures
            r@ == self.src(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn source_slice_mut(&mut self) -> (r: &mut [X])
        ensures
            r@ == old(self).src(),
            final(self).src() == final(r)@,
            final(self).src().len() == old(self).src().len(),
            final(self).tgt() == old(self).tgt(),
            final(self).fin() == old(self).fin(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn push(&mut self, x: X)
        ensures
            final(self).src() == old(self).src(),
            final(self).tgt() == old(self).tgt().push(x),
            final(self).fin() == old(self).fin(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn consume(&mut self, n: usize, take: bool)
        ensures
            ({
                let k = if n <= old(self).src().len() { n as int } else { old(self).src().len() as int };
                &&& final(self).src() == old(self).src().skip(k)
                &&& final(self).tgt() == (if take { old(self).tgt() + old(self).src().take(k) } else { old(self).tgt() })
                &&& final(self).fin() == old(self).fin()
            }),
    {
        unimplemented!()
    }

    /// `Drop`
    #[verifier::external_body]
    fn done(self)
        ensures
            self.fin() == self.tgt(),
    {
        unimplemented!()
    }
}

/// `v.sort_by_key(|x| x.first_prefix_byte())`
#[verifier::external_body]
fn sort_by_first<S: BlobStore>(v: &mut Vec<TreeNode<S>>)
    requires
        forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).inv(),
    ensures
        sorted_perm(old(v)@, final(v)@),
{
    unimplemented!()
}

spec fn perm(p: Seq<int>, n: nat) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
}

spec fn first_le<S>(a: TreeNode<S>, b: TreeNode<S>) -> bool {
    match (a.nw().first(), b.nw().first()) {
        (None, _) => true,
        (Some(_), None) => false,
        (Some(x), Some(y)) => x <= y,
    }
}

spec fn sorted_perm<S>(a: Seq<TreeNode<S>>, b: Seq<TreeNode<S>>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> first_le(#[trigger] b[i], #[trigger] b[j])
    &&& exists|p: Seq<int>| #[trigger] perm(p, a.len()) && forall|i: int| 0 <= i < a.len() ==> b[i] == a[#[trigger] p[i]]
}

/// the order of `Option<u8>`
spec fn bcmp(x: Option<u8>, y: Option<u8>) -> Ordering {
    match (x, y) {
        (None, None) => Ordering::Equal,
        (None, Some(_)) => Ordering::Less,
        (Some(_), None) => Ordering::Greater,
        (Some(x), Some(y)) => if x < y { Ordering::Less } else if x == y { Ordering::Equal } else { Ordering::Greater },
    }
}

spec fn ocmp(x: Option<Option<u8>>, y: Option<Option<u8>>) -> Option<Ordering> {
    match (x, y) {
        (Some(x), Some(y)) => Some(bcmp(x, y)),
        (Some(_), None) => Some(Ordering::Less),
        (None, Some(_)) => Some(Ordering::Greater),
        (None, None) => None,
    }
}

/// an iterator has delivered a node (or has come to its end)
spec fn jnext<S: BlobStore>(r0: Rem<S>, r1: Rem<S>, n: Option<TreeNodeRef<S>>) -> bool {
    &&& r1 == rem_tail(r0)
    &&& match n {
        Some(n) => n.inv() && (n.0 is Err ==> r0 is Bytes) && rem_head(r0) == Some(n.nw()),
        None => rem_head(r0) is None,
    }
}

/// one step of an outer join: the node with the smaller first byte, or both
spec fn jstep<A: BlobStore, B: BlobStore>(
    a0: Rem<A>,
    b0: Rem<B>,
    a1: Rem<A>,
    b1: Rem<B>,
    r: Option<(Option<TreeNodeRef<A>>, Option<TreeNodeRef<B>>)>,
) -> bool {
    match ocmp(rem_first(a0), rem_first(b0)) {
        None => r is None && a1 == a0 && b1 == b0,
        Some(Ordering::Less) => r is Some && (r->0).0 is Some && (r->0).1 is None && jnext(a0, a1, (r->0).0) && b1 == b0,
        Some(Ordering::Greater) => r is Some && (r->0).1 is Some && (r->0).0 is None && jnext(b0, b1, (r->0).1) && a1 == a0,
        Some(Ordering::Equal) => r is Some && (r->0).0 is Some && (r->0).1 is Some && jnext(a0, a1, (r->0).0) && jnext(b0, b1, (r->0).1),
    }
}
