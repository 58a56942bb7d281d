// ---------------------------------------------------------------------------------------------------------------
// Borrowed nodes, node references and iterators over the nodes of a list
// ---------------------------------------------------------------------------------------------------------------

/// `std::slice::Iter`
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
struct SIter<'a, T> {
    it: std::slice::Iter<'a, T>,
}

impl<'a, T> SIter<'a, T> {
    /// the items that are left
    uninterp spec fn left(self) -> Seq<T>;

    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
            old(self).left().len() > 0 ==> r is Some && *r->0 == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
    {
        self.it.next()
    }

    #[verifier::external_body]
    fn as_slice(&self) -> (r: &'a [T])
        ensures
            r@ == self.left(),
    {
        self.it.as_slice()
    }

    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures
            r == self.left().len(),
    {
        self.it.as_slice().len()
    }

    /// `Iterator::zip` with a slice
    #[verifier::external_body]
    fn zip(self, b: &'a [T]) -> (r: SZip<'a, T>)
        ensures
            r.a() == self.left(),
            r.b() == b@,
    {
        SZip { it: self.it.zip(b) }
    }
}

/// the adapters `zip`, `take_while` and `count` of std's iterators, over slices
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct SZip<'a, T> {
    it: std::iter::Zip<std::slice::Iter<'a, T>, std::slice::Iter<'a, T>>,
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(F)]
struct STake<'a, T, F> {
    it: std::iter::TakeWhile<std::iter::Zip<std::slice::Iter<'a, T>, std::slice::Iter<'a, T>>, F>,
}

impl<'a, T> SZip<'a, T> {
    uninterp spec fn a(self) -> Seq<T>;

    uninterp spec fn b(self) -> Seq<T>;

    #[verifier::external_body]
    fn take_while<F: Fn(&(&'a T, &'a T)) -> bool>(self, f: F) -> (r: STake<'a, T, F>)
        ensures
            r.a() == self.a(),
            r.b() == self.b(),
            r.f() == f,
    {
        STake { it: self.it.take_while(f) }
    }
}

impl<'a, T, F: Fn(&(&'a T, &'a T)) -> bool> STake<'a, T, F> {
    uninterp spec fn a(self) -> Seq<T>;

    uninterp spec fn b(self) -> Seq<T>;

    uninterp spec fn f(self) -> F;

    /// number of pairs in front of the first one (of the shorter length) that `f` rejects
    #[verifier::external_body]
    fn count(self) -> (r: usize)
        requires
            forall|i: int| 0 <= i < self.a().len() && i < self.b().len() ==> call_requires(self.f(), (&(&#[trigger] self.a()[i], &self.b()[i]),)),
        ensures
            r <= self.a().len(),
            r <= self.b().len(),
            forall|i: int| 0 <= i < r ==> call_ensures(self.f(), (&(&#[trigger] self.a()[i], &self.b()[i]),), true),
            r < self.a().len() && r < self.b().len() ==> call_ensures(self.f(), (&(&self.a()[r as int], &self.b()[r as int]),), false),
    {
        self.it.count()
    }
}

/// `slice.iter()`
#[verifier::external_body]
fn siter<'a, T>(s: &'a [T]) -> (r: SIter<'a, T>)
    ensures
        r.left() == s@,
{
    SIter { it: s.iter() }
}

/// `unsafe { extend_lifetime(arc.as_ref()) }.iter()`: an iterator that does not keep its items alive
#[verifier::external_body]
fn siter_static<T>(a: &Arc<Vec<T>>) -> (r: SIter<'static, T>)
    ensures
        r.left() == a@,
{
    unimplemented!()
}

impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
    spec fn inv(self) -> bool {
        &&& hlen(self.prefix_hdr) + 1 <= self.prefix.tail().len()
        &&& hlen(self.value_hdr) + 1 <= self.value.tail().len()
        &&& hlen(self.children_hdr) + 1 <= self.children.tail().len()
        &&& !hnone(self.prefix_hdr)
        &&& hid(self.children_hdr)
    }

    spec fn nw(self) -> NV<S> {
        NV {
            p: raw_of(self.prefix_hdr, self.prefix.tail().subrange(1, 1 + hlen(self.prefix_hdr) as int)),
            v: raw_of(self.value_hdr, self.value.tail().subrange(1, 1 + hlen(self.value_hdr) as int)),
            c: Ch::Id(self.children.tail().subrange(1, 1 + hlen(self.children_hdr) as int)),
        }
    }

    spec fn blen(self) -> nat {
        hlen(self.prefix_hdr) + hlen(self.value_hdr) + hlen(self.children_hdr) + 3
    }
}

impl<'a, S: BlobStore> Copy for BorrowedTreeNode<'a, S> {

}

impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
    spec fn inv(self) -> bool {
        match self.0 {
            Ok(x) => x.inv(),
            Err(x) => x.inv(),
        }
    }

    spec fn nw(self) -> NV<S> {
        match self.0 {
            Ok(x) => x.nw(),
            Err(x) => x.nw(),
        }
    }
}

impl<'a, S: BlobStore> OwnedTreeNodeIter<'a, S> {
    spec fn inv(self) -> bool {
        forall|i: int| 0 <= i < self.1.left().len() ==> (#[trigger] self.1.left()[i]).inv()
    }

    spec fn rem(self) -> Rem<S> {
        Rem::Data(self.1.left())
    }
}

impl<S: BlobStore> BorrowedTreeNodeIter<S> {
    spec fn inv(self) -> bool {
        self.offset <= self.data@.len()
    }

    spec fn rem(self) -> Rem<S> {
        Rem::Bytes(self.data@.skip(self.offset as int))
    }
}

impl<'a, S: BlobStore> TreeNodeIter<'a, S> {
    spec fn inv(self) -> bool {
        match self {
            TreeNodeIter::Owned(x) => x.inv(),
            TreeNodeIter::Borrowed(x) => x.inv(),
        }
    }

    spec fn rem(self) -> Rem<S> {
        match self {
            TreeNodeIter::Owned(x) => x.rem(),
            TreeNodeIter::Borrowed(x) => x.rem(),
        }
    }

    /// it still stands at the beginning of the list it was made for
    spec fn fresh(self) -> bool {
        match self {
            TreeNodeIter::Owned(x) => x.0 is Some ==> x.0->0@ == x.1.left(),
            TreeNodeIter::Borrowed(x) => true,
        }
    }
}

/// `slice.binary_search_by_key(&Some(prefix), |x| x.first_prefix_byte()).ok().map(|i| &slice[i])`
#[verifier::external_body]
fn bsearch_first<'a, S: BlobStore>(slice: &'a [TreeNode<S>], prefix: u8) -> (r: Option<&'a TreeNode<S>>)
    requires
        forall|i: int| 0 <= i < slice@.len() ==> (#[trigger] slice@[i]).inv(),
    ensures
        r is Some ==> slice@.contains(*r->0) && r->0.nw().first() == Some(prefix),
        asc(vnodes(slice@)) && r is None ==> forall|i: int|
            0 <= i < slice@.len() ==> (#[trigger] slice@[i]).nw().first() != Some(prefix),
{
    unimplemented!()
}

impl<S> TreeNode<S> {
    /// `ToOwned` of a `Clone` type
    fn to_owned(&self) -> (r: Self)
        requires
            self.inv(),
        ensures
            r.inv(),
            r.np() == self.np(),
            r.nv() == self.nv(),
            r.nc() == self.nc(),
    {
        self.clone()
    }
}

/// the store type is `Detached`
uninterp spec fn no_store<S>() -> bool;

spec fn blast_ok<S: BlobStore>(last: Option<BorrowedTreeNode<S>>, seen: Seq<NV<S>>) -> bool {
    match last {
        Some(n) => n.inv() && seen.len() > 0 && n.nw() == seen.last(),
        None => seen.len() == 0,
    }
}
