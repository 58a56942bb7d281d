// ---------------------------------------------------------------------------------------------------------------
// The operations on detached trees: what a function that cannot fail makes of the values
// ---------------------------------------------------------------------------------------------------------------

spec fn comb1_ok<F: Fn(&ValueRef, &ValueRef) -> Option<Value>>(f: F) -> bool {
    &&& forall|a: &ValueRef, b: &ValueRef| vrok(*a, Detached) && vrok(*b, Detached) ==> #[trigger] call_requires(f, (a, b))
    &&& forall|a: &ValueRef, b: &ValueRef, r: Option<Value>| #[trigger] call_ensures(f, (a, b), r) && r is Some ==> (r->0).inv() && (r->0).vv() is Data
}

/// the function can make `z` of `x` and `y`
spec fn comb1<F: Fn(&ValueRef, &ValueRef) -> Option<Value>>(f: F, x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>) -> bool {
    exists|a: &ValueRef, b: &ValueRef, r: Option<Value>|
        #[trigger] call_ensures(f, (a, b), r) && vrok(*a, Detached) && vrok(*b, Detached) && rv(Detached, a.vv()) == x && rv(Detached, b.vv()) == y && cval(r) == z
}

spec fn outer_1<F: Fn(&ValueRef, &ValueRef) -> Option<Value>>(f: F) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| if x is None { z == y } else if y is None { z == x } else { comb1(f, x, y, z) }
}

spec fn left_1<F: Fn(&ValueRef, &ValueRef) -> Option<Value>>(f: F) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| if x is None { z is None } else if y is None { z == x } else { comb1(f, x, y, z) }
}

spec fn inner_1<F: Fn(&ValueRef, &ValueRef) -> Option<Value>>(f: F) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| if x is None || y is None { z is None } else { comb1(f, x, y, z) }
}

#[verifier::prophetic]
spec fn with1_ok<B: BlobStore, F: Fn(&mut Value, &ValueRef<B>)>(f: F, bb: B) -> bool {
    &&& forall|m: &mut Value, b: &ValueRef<B>| valok(*m, Detached) && vrok(*b, bb) ==> #[trigger] call_requires(f, (m, b))
    &&& forall|m: &mut Value, b: &ValueRef<B>| valok(*m, Detached) && vrok(*b, bb) && #[trigger] call_ensures(f, (m, b), ()) ==> valok(*final(m), Detached)
}

/// the function can turn `x` into `z`, given `y`
#[verifier::prophetic]
spec fn with1<B: BlobStore, F: Fn(&mut Value, &ValueRef<B>)>(f: F, bb: B, x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>) -> bool {
    exists|m: &mut Value, b: &ValueRef<B>|
        #[trigger] call_ensures(f, (m, b), ()) && valok(*m, Detached) && vrok(*b, bb) && rv(Detached, (*m).vv()) == x && rv(bb, b.vv()) == y && rv(
            Detached,
            (*final(m)).vv(),
        ) == z
}

/// the function can be called with the value `x`
#[verifier::prophetic]
spec fn may<B: BlobStore, F: Fn(&mut Value, &ValueRef<B>)>(f: F, x: Value, b: &ValueRef<B>) -> bool {
    forall|m: &mut Value| *m == x ==> #[trigger] call_requires(f, (m, b))
}

/// the function has turned the value `x` into `z`
#[verifier::prophetic]
spec fn done<B: BlobStore, F: Fn(&mut Value, &ValueRef<B>)>(f: F, x: Value, z: Value, b: &ValueRef<B>) -> bool {
    exists|m: &mut Value| #[trigger] call_ensures(f, (m, b), ()) && *m == x && *final(m) == z
}

#[verifier::prophetic]
spec fn outer_w1<B: BlobStore, F: Fn(&mut Value, &ValueRef<B>)>(f: F, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| if x is None { z == y } else if y is None { z == x } else { with1::<B, F>(f, bb, x, y, z) }
}

#[verifier::prophetic]
spec fn left_w1<B: BlobStore, F: Fn(&mut Value, &ValueRef<B>)>(f: F, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| if x is None { z is None } else if y is None { z == x } else { with1::<B, F>(f, bb, x, y, z) }
}

#[verifier::prophetic]
spec fn inner_w1<B: BlobStore, F: Fn(&mut Value, &ValueRef<B>)>(f: F, bb: B) -> MR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: Option<Seq<u8>>| if x is None || y is None { z is None } else { with1::<B, F>(f, bb, x, y, z) }
}

spec fn dec1_ok<F: Fn(&ValueRef, &ValueRef) -> bool>(f: F) -> bool {
    forall|a: &ValueRef, b: &ValueRef| vrok(*a, Detached) && vrok(*b, Detached) ==> #[trigger] call_requires(f, (a, b))
}

spec fn dec1<F: Fn(&ValueRef, &ValueRef) -> bool>(f: F, x: Option<Seq<u8>>, y: Option<Seq<u8>>, d: bool) -> bool {
    exists|a: &ValueRef, b: &ValueRef|
        #[trigger] call_ensures(f, (a, b), d) && vrok(*a, Detached) && vrok(*b, Detached) && rv(Detached, a.vv()) == x && rv(Detached, b.vv()) == y
}

spec fn inner_q1<F: Fn(&ValueRef, &ValueRef) -> bool>(f: F) -> QR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, d: bool|
        if d { x is Some && y is Some && dec1(f, x, y, true) } else { x is Some && y is Some ==> dec1(f, x, y, false) }
}

spec fn left_q1<F: Fn(&ValueRef, &ValueRef) -> bool>(f: F) -> QR {
    |x: Option<Seq<u8>>, y: Option<Seq<u8>>, d: bool|
        if d { x is Some && (y is None || dec1(f, x, y, true)) } else { x is Some ==> y is Some && dec1(f, x, y, false) }
}

spec fn acc1<B: BlobStore, F: Fn(&ValueRef<B>) -> bool>(f: F, bb: B) -> AR {
    |y: Seq<u8>, d: bool| exists|b: &ValueRef<B>| #[trigger] call_ensures(f, (b,), d) && vrok(*b, bb) && rv(bb, b.vv()) == Some(y)
}

spec fn acc1_ok<B: BlobStore, F: Fn(&ValueRef<B>) -> bool>(f: F, bb: B) -> bool {
    forall|b: &ValueRef<B>| vrok(*b, bb) ==> #[trigger] call_requires(f, (b,))
}

proof fn lemma_qres_weaken(q: QR, w: QR, a: T, b: T, d: bool)
    requires
        qres(q, a, b, d),
        forall|x: Option<Seq<u8>>, y: Option<Seq<u8>>, z: bool| #[trigger] q(x, y, z) ==> w(x, y, z),
    ensures
        qres(w, a, b, d),
{
    if d {
        let k = choose|k: Seq<u8>| #[trigger] qk(q, a, b, k);
        assert(qk(w, a, b, k));
    } else {
        lemma_merged_weaken(none(q), none(w), a, b, t_empty());
    }
}

proof fn lemma_pm_weaken(m: AR, w: AR, keep: KM, a: T, b: T, r: T)
    requires
        pm(m, keep, a, b, r),
        forall|y: Seq<u8>, d: bool| #[trigger] m(y, d) ==> w(y, d),
    ensures
        pm(w, keep, a, b, r),
{
    assert forall|k: Seq<u8>| #[trigger] pk(w, keep, a, b, r, k) by {
        assert(pk(m, keep, a, b, r, k));
        if hit(m, b, k) {
            let n = choose|n: int| #[trigger] hit_at(m, b, k, n);
            assert(hit_at(w, b, k, n));
        }
        if miss(m, b, k) {
            assert forall|n: int| #[trigger] miss_at(w, b, k, n) by {
                assert(miss_at(m, b, k, n));
            }
        }
    }
}

/// what a list of entries, put in one after the other, gives a key
spec fn last_of<K: AsBytes, V: AsBytes>(x: Seq<(K, V)>, k: Seq<u8>) -> Option<Seq<u8>>
    decreases x.len(),
{
    if x.len() == 0 {
        None
    } else if x.last().0.bts() == k {
        Some(x.last().1.bts())
    } else {
        last_of(x.drop_last(), k)
    }
}
