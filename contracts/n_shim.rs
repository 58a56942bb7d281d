impl Clone for IterKey {
    /// derived
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r.kb() == self.kb(),
    {
        IterKey(self.0.clone())
    }
}

impl IterKey {
    pub closed spec fn kb(self) -> Seq<u8> {
        (*self.0)@
    }

    /// derived
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures
            r.kb() == Seq::<u8>::empty(),
    {
        IterKey(Arc::new(Vec::new()))
    }
}

/// `last_mut().unwrap()`
#[verifier::external_body]
fn vec_last_mut<X>(v: &mut Vec<X>) -> (r: &mut X)
    requires
        old(v)@.len() > 0,
    ensures
        *r == old(v)@.last(),
        final(v)@ == old(v)@.drop_last().push(*final(r)),
{
    v.last_mut().unwrap()
}

/// `vec![x]`
#[verifier::external_body]
fn vec_of<X>(x: X) -> (r: Vec<X>)
    ensures
        r@ == seq![x],
{
    vec![x]
}
