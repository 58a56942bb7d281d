impl<'a, const N: usize> AsBytes for &'a [u8; N] {
    open spec fn bts(&self) -> Seq<u8> {
        self@
    }

    open spec fn bok(&self) -> bool {
        true
    }

    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) {
        *self
    }
}
