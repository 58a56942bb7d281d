pub trait BlobStore: Debug + Send + Sync + 'static {
    //@impl trait BlobStore: 'static + Sized
    type Error: From<NoError> + From<anyhow::Error> + Debug;
    //@~ type Error: From<NoError> + From<AnyErr>;

    //@pre /// the content that an id stands for (a store never reuses an id: C13)
    //@pre spec fn blob(&self, id: Seq<u8>) -> Seq<u8>;
    //@pre /// false only for the store of detached trees, which must never be asked
    //@pre spec fn readable(&self) -> bool;
    //@pre /// everything that was written before the present call is safe
    //@pre spec fn flushed(&self) -> bool;
    fn read(&self, id: &[u8]) -> std::result::Result<OwnedBlob, Self::Error>;
    //@spec requires self.readable(),
    //@spec ensures r is Ok ==> r->Ok_0@ == self.blob(id@),

    fn write(&self, data: &[u8]) -> std::result::Result<Vec<u8>, Self::Error>;
    //@spec requires self.readable(),
    //@spec ensures r is Ok ==> self.blob(r->Ok_0@) == data@ && 1 <= r->Ok_0@.len() <= 126,

    fn sync(&self) -> std::result::Result<(), Self::Error>;
    //@spec requires self.readable(),
    //@spec ensures r is Ok ==> self.flushed(),

    fn needs_deep_detach(&self) -> bool {
        true
    }
}

//@pre #[derive(Clone)]
pub struct Detached;

impl BlobStore for Detached {
    type Error = NoError;

    //@pre spec fn blob(&self, id: Seq<u8>) -> Seq<u8> { Seq::empty() }
    //@pre spec fn readable(&self) -> bool { false }
    //@pre spec fn flushed(&self) -> bool { true }
    fn read(&self, _id: &[u8]) -> std::result::Result<OwnedBlob, Self::Error> {
        panic!()
    }

    fn write(&self, _data: &[u8]) -> std::result::Result<Vec<u8>, Self::Error> {
        panic!()
    }

    fn sync(&self) -> std::result::Result<(), Self::Error> {
        panic!()
    }

    fn needs_deep_detach(&self) -> bool {
        false
    }
}

pub enum NoError {}
//@~ PUB struct NoError { n: u8 }
