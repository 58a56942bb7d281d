/// an error of a store that cannot fail (`NoError` has no values)
trait UnwrapSafeExt<X>: Sized {
    spec fn ok(self) -> bool;

    spec fn val(self) -> X;

    fn unwrap_safe(self) -> (r: X)
        ensures
            self.ok(),
            r == self.val(),
    ;
}

impl<X> UnwrapSafeExt<X> for Result<X, NoError> {
    spec fn ok(self) -> bool {
        self is Ok
    }

    spec fn val(self) -> X {
        self->Ok_0
    }

    #[verifier::external_body]
    fn unwrap_safe(self) -> (r: X) {
        unimplemented!()
    }
}
