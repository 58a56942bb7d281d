// ---------------------------------------------------------------------------------------------------------------
// Merges that produce a new tree: what the function that is passed in makes of two values
// ---------------------------------------------------------------------------------------------------------------

/// the function can be called on all values of the two stores, and what it returns is a value
spec fn comb_ok<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E>>(f: F, ab: A, bb: B) -> bool {
    &&& forall|a: &ValueRef<A>, b: &ValueRef<B>| vrok(*a, ab) && vrok(*b, bb) ==> #[trigger] call_requires(f, (a, b))
    &&& forall|a: &ValueRef<A>, b: &ValueRef<B>, r: Option<Value>|
        #[trigger] call_ensures(f, (a, b), Ok(r)) && r is Some ==> (r->0).inv() && (r->0).vv() is Data
}

spec fn cval(r: Option<Value>) -> Option<Seq<u8>> {
    match r {
        Some(v) => Some(v.vv()->Data_0),
        None => None,
    }
}

/// the function can make `z` of `x` and `y`
spec fn comb_rel<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E>>(
    f: F,
    ab: A,
    bb: B,
    x: Option<Seq<u8>>,
    y: Option<Seq<u8>>,
    z: Option<Seq<u8>>,
) -> bool {
    exists|a: &ValueRef<A>, b: &ValueRef<B>, r: Option<Value>|
        #[trigger] call_ensures(f, (a, b), Ok(r)) && vrok(*a, ab) && vrok(*b, bb) && rv(ab, a.vv()) == x && rv(bb, b.vv()) == y && cval(r) == z
}

spec fn outer_c<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E>>(f: F, ab: A, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>|
        if x is None {
            z == y
        } else if y is None {
            z == x
        } else {
            comb_rel::<A, B, E, F>(f, ab, bb, x, y, z)
        }
}

spec fn left_c<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E>>(f: F, ab: A, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>|
        if x is None {
            z is None
        } else if y is None {
            z == x
        } else {
            comb_rel::<A, B, E, F>(f, ab, bb, x, y, z)
        }
}

spec fn inner_c<A: BlobStore, B: BlobStore, E, F: Fn(&ValueRef<A>, &ValueRef<B>) -> Result<Option<Value>, E>>(f: F, ab: A, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>|
        if x is None || y is None {
            z is None
        } else {
            comb_rel::<A, B, E, F>(f, ab, bb, x, y, z)
        }
}

/// the list that a merge of children lists has produced
spec fn detl(r: Option<Arc<Vec<TreeNode<Detached>>>>) -> Seq<T> {
    match r {
        Some(a) => itv(Rem::Data(a@), Detached),
        None => Seq::empty(),
    }
}

proof fn lemma_detl(r: Option<Arc<Vec<TreeNode<Detached>>>>, ts: Seq<T>)
    requires
        iter_det(r, ts),
    ensures
        detl(r) == ts,
{
    match r {
        Some(a) => {
            assert(irepr(Rem::Data(a@), Detached, ts));
        }
        None => {
            assert(ts =~= Seq::empty());
        }
    }
}

/// two lists of one node each that have no key in common, and of which nothing stays
proof fn lemma_two_drop(m: MR, x: T, y: T)
    requires
        wfn(x),
        wfn(y),
        x.p()[0] != y.p()[0],
        drops_left(m),
        drops_right(m),
    ensures
        mergedc(m, seq![x], seq![y], Seq::empty()),
{
    assert forall|k: Seq<u8>| #[trigger] mkc(m, seq![x], seq![y], Seq::empty(), k) by {
        lemma_lkc_one(x, k);
        lemma_lkc_one(y, k);
        lemma_lkc_nil(k);
        if x.p().is_prefix_of(k) && y.p().is_prefix_of(k) {
            assert(k.take(x.p().len() as int)[0] == x.p()[0]);
            assert(k.take(y.p().len() as int)[0] == y.p()[0]);
        }
    }
}
