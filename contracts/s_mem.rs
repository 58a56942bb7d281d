//@pre #[derive(Clone)]
pub struct MemStore {
    data: Arc<Mutex<BTreeMap<u64, Arc<Vec<u8>>>>>,
}
impl MemStore {
    pub fn count(&self) -> usize {
        self.data.lock().len()
    }
}

impl BlobStore for MemStore {
    type Error = anyhow::Error;

    //@pre closed spec fn blob(&self, id: Seq<u8>) -> Seq<u8> { self.data.limit(un(id))->0 }
    //@pre closed spec fn readable(&self) -> bool { true }
    //@pre closed spec fn flushed(&self) -> bool { true }
    fn read(&self, id: &[u8]) -> std::result::Result<OwnedBlob, Self::Error> {
        //@spec ensures id@.len() != 8 ==> r is Err, id@.len() == 8 ==> exists|t: BTreeMap<u64, Arc<Vec<u8>>>| #[trigger] self.data.during(t) && (r is Ok <==> t.ent(un(id@)) is Some),
        anyhow::ensure!(id.len() == 8);
        let id = u64::from_be_bytes(id.try_into().unwrap());
        //@~ let n = u64::from_be_bytes(id.try_into().unwrap());
        //@~ proof { assert(n == un(id@)); }
        //@~ let id = n;
        let data = self.data.lock();
        //@ proof { assert(data.ent(id as nat) is Some ==> self.data.limit(id as nat) == data.ent(id as nat)); }
        data.get(&id)
            .map(|x| Blob::from_arc_vec(x.clone()))
            //@~ .map(|x: &Arc<Vec<u8>>| -> (b: OwnedBlob) ensures b@ == x@ { Blob::from_arc_vec(x.clone()) })
            .context("value not found")
    }

    fn write(&self, slice: &[u8]) -> std::result::Result<Vec<u8>, Self::Error> {
        let mut data = self.data.lock();
        //@ let ghost a = *data;
        //@ proof { assert(forall|k: u64| a.m().dom().contains(k) ==> #[trigger] a.m().contains_key(k)); }
        let max = data.keys().next_back().cloned().unwrap_or(0);
        let id = max + 1;
        let blob = Arc::new(slice.to_vec());
        //@ let ghost bl = blob@;
        data.insert(id, blob);
        //@ proof { assert(bl =~= slice@); assert(data.ent(id as nat) == Some(slice@)); self.data.release(a, *data); }
        Ok(id.to_be_bytes().to_vec())
        //@~ let b = id.to_be_bytes();
        //@~ let v = b.to_vec();
        //@~ proof { assert(v@ =~= b@); }
        //@~ Ok(v)
    }

    fn sync(&self) -> std::result::Result<(), Self::Error> {
        Ok(())
    }
}

//@pre /// `Arc<dyn BlobStore>`: dynamic dispatch is replaced by a type parameter, the contract is that of the trait
pub type DynBlobStore = Arc<dyn BlobStore<Error = anyhow::Error>>;
//@~ type DynBlobStore<S> = Arc<S>;

impl BlobStore for DynBlobStore {
    //@impl impl<S: BlobStore> BlobStore for DynBlobStore<S>
    type Error = anyhow::Error;
    //@~ type Error = S::Error;

    //@pre closed spec fn blob(&self, id: Seq<u8>) -> Seq<u8> { (**self).blob(id) }
    //@pre closed spec fn readable(&self) -> bool { (**self).readable() }
    //@pre closed spec fn flushed(&self) -> bool { (**self).flushed() }
    fn read(&self, id: &[u8]) -> std::result::Result<OwnedBlob, Self::Error> {
        self.as_ref().read(id)
    }

    fn write(&self, data: &[u8]) -> std::result::Result<Vec<u8>, Self::Error> {
        self.as_ref().write(data)
    }

    fn sync(&self) -> std::result::Result<(), Self::Error> {
        self.as_ref().sync()
    }

    fn needs_deep_detach(&self) -> bool {
        self.as_ref().needs_deep_detach()
    }
}
