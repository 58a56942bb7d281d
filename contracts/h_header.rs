//@pre #[derive(Clone, Copy, PartialEq, Eq)]
//@pre #[repr(transparent)]
struct Header(u8);
    //@~ PUB struct Header(PUB u8);
