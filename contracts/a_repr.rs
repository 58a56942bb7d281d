const PTR_SIZE: usize = std::mem::size_of::<*const u8>();
    //@~ const PTR_SIZE: usize = 8;

union CompactOwnedBlob {
    arc: ManuallyDrop<Arc<Vec<u8>>>,
    inline: [u8; PTR_SIZE],
}

impl CompactOwnedBlob {
    //@ens is_variant(r, "inline"),
    const EMPTY: Self = Self {
        inline: [0u8; PTR_SIZE],
    };

    fn copy_from_slice(data: &[u8]) -> Self {
        //@spec ensures
        //@spec cob_ok(r, hdata(data@.len())), cob(r, hdata(data@.len())) == data@,
        //@spec data@.len() < 0x80 ==> cob_ok(r, hidh(data@.len())) && cob(r, hidh(data@.len())) == data@,
        if data.len() > PTR_SIZE {
            let arc = Arc::new(data.to_vec());
            Self {
                arc: ManuallyDrop::new(arc),
            }
        } else {
            let mut inline = [0u8; PTR_SIZE];
            inline[0..data.len()].copy_from_slice(data);
            Self { inline }
        }
    }

    fn slice(&self, hdr: Header) -> &[u8] {
        //@spec requires cob_ok(*self, hdr),
        //@spec ensures r@ == cob(*self, hdr),
        unsafe {
            if hdr.is_inline() {
                &self.inline[..hdr.len()]
            } else {
                self.arc.as_ref().as_ref()
            }
        }
    }

    fn manual_clone(&self, hdr: Header) -> Self {
        //@spec requires cob_ok(*self, hdr),
        //@spec ensures cob_ok(r, hdr), cob(r, hdr) == cob(*self, hdr),
        unsafe {
            if hdr.is_arc() {
                Self {
                    arc: self.arc.clone(),
                }
            } else {
                Self {
                    inline: self.inline,
                }
            }
        }
    }

    fn manual_drop(&mut self, hdr: Header) {
        //@spec requires cob_ok(*old(self), hdr),
        //@spec ensures cob_free(*final(self), hdr),
        unsafe {
            if hdr.is_arc() {
                ManuallyDrop::drop(&mut self.arc);
            }
        }
        //@ proof { assert(hlen(hdr) > 8 ==> cob_released(*self)); }
        if cfg!(debug_assertions) {
            self.inline = [0; PTR_SIZE];
        }
    }

}

union ChildrenRef<S> {
    arc_id: ManuallyDrop<Arc<Vec<u8>>>,
    arc_data: ManuallyDrop<Arc<Vec<TreeNode<S>>>>,
    inline: [u8; PTR_SIZE],
    p: PhantomData<S>,
}

impl<S> ChildrenRef<S> {
    //@ens is_variant(r, "inline"),
    const EMPTY: Self = Self {
        inline: [0u8; PTR_SIZE],
    };

    fn id_from_slice(data: &[u8]) -> Self {
        //@spec requires data@.len() < 0x80,
        //@spec ensures ch_ok(r, hidh(data@.len())), chv(r, hidh(data@.len())) =~= Ch::<S>::Id(data@),
        if data.len() > PTR_SIZE {
            let arc = Arc::new(data.to_vec());
            Self {
                arc_id: ManuallyDrop::new(arc),
            }
        } else {
            let mut inline = [0u8; PTR_SIZE];
            inline[0..data.len()].copy_from_slice(data);
            Self { inline }
        }
    }

    fn data_from_arc(arc: Arc<Vec<TreeNode<S>>>) -> Self {
        //@spec ensures ch_ok(r, hdata(0x7f)), chv(r, hdata(0x7f)) =~= Ch::<S>::Data(arc@),
        Self {
            arc_data: ManuallyDrop::new(arc),
        }
    }

    fn deref(&self, hdr: Header) -> Result<&Arc<Vec<TreeNode<S>>>, &[u8]> {
        //@spec requires ch_ok(*self, hdr),
        //@spec ensures match r { Ok(a) => chv(*self, hdr) =~= Ch::<S>::Data(a@), Err(id) => chv(*self, hdr) =~= Ch::<S>::Id(id@) },
        let len = hdr.len();
        unsafe {
            if hdr.is_id() {
                Err(if hdr.is_inline() {
                    &self.inline[..len]
                } else {
                    self.arc_id.as_ref().as_ref()
                })
            } else {
                assert!(len > PTR_SIZE);
                Ok(&self.arc_data)
            }
        }
    }

    fn deref_mut(&mut self, hdr: Header) -> Result<&mut Arc<Vec<TreeNode<S>>>, &[u8]> {
        //@spec requires ch_ok(*old(self), hdr),
        //@spec ensures ch_ok(*final(self), hdr),
        //@spec match r {
        //@spec     Ok(a) => chv(*old(self), hdr) =~= Ch::<S>::Data((*a)@) && chv(*final(self), hdr) =~= Ch::<S>::Data((*final(a))@),
        //@spec     Err(id) => chv(*old(self), hdr) =~= Ch::<S>::Id(id@) && *final(self) == *old(self) },
        let len = hdr.len();
        unsafe {
            if hdr.is_id() {
                Err(if hdr.is_inline() {
                    &self.inline[..len]
                } else {
                    self.arc_id.as_ref().as_ref()
                })
            } else {
                assert!(len > PTR_SIZE);
                Ok(&mut self.arc_data)
                //@~ Ok(md_mut(&mut self.arc_data))
            }
        }
    }

    fn manual_clone(&self, hdr: Header) -> Self {
        //@spec requires ch_ok(*self, hdr),
        //@spec ensures ch_ok(r, hdr), chv(r, hdr) == chv(*self, hdr),
        unsafe {
            if hdr.is_arc() {
                if hdr.is_id() {
                    Self {
                        arc_id: self.arc_id.clone(),
                    }
                } else {
                    Self {
                        arc_data: self.arc_data.clone(),
                    }
                }
            } else {
                Self {
                    inline: self.inline,
                }
            }
        }
    }

    fn manual_drop(&mut self, hdr: Header) {
        //@spec requires ch_ok(*old(self), hdr),
        //@spec ensures ch_free(*final(self), hdr),
        unsafe {
            if hdr.is_arc() {
                if hdr.is_id() {
                    ManuallyDrop::drop(&mut self.arc_id);
                } else {
                    ManuallyDrop::drop(&mut self.arc_data);
                }
            }
        }
        //@ proof { assert(hlen(hdr) > 8 ==> ch_released(*self, hdr)); }
        if cfg!(debug_assertions) {
            self.inline = [0; PTR_SIZE];
        }
    }

}


impl From<u8> for Header {
    fn from(value: u8) -> Self {
        //@spec ensures r.0 == value,
        Self(value)
    }

}

impl From<Header> for u8 {
    fn from(value: Header) -> Self {
        //@spec ensures r == value.0,
        value.0
    }

}

impl Header {
    //@ens r == hdata(0),
    const EMPTY: Header = Header::data(0);

    //@ens r.0 == 0x80,
    const NONE: Header = Header::id(0);

    //@ens r == hdata(0x7f),
    const ARCDATA: Header = Header::data(0x7f);

    const fn id(len: usize) -> Self {
        //@spec requires len < 0x80,
        //@spec ensures r == hidh(len as nat),
        assert!(len < 0x80);
        Self((len as u8) | 0x80)
    }

    const fn data(len: usize) -> Self {
        //@spec ensures r == hdata(len as nat),
        if len <= 0x7f {
            Self(len as u8)
        } else {
            Self(0x7f)
        }
    }

    fn is_id(&self) -> bool {
        //@spec ensures r == hid(*self),
        (self.0 & 0x80) != 0
    }

    fn is_data(&self) -> bool {
        //@spec ensures r == !hid(*self),
        !self.is_id()
    }

    fn is_none(&self) -> bool {
        //@spec ensures r == hnone(*self),
        self.0 == 0x80
    }

    fn is_inline(&self) -> bool {
        //@spec ensures r == (hlen(*self) <= 8),
        self.len() <= PTR_SIZE
    }

    fn is_arc(&self) -> bool {
        //@spec ensures r == (hlen(*self) > 8),
        self.len() > PTR_SIZE
    }

    fn len(&self) -> usize {
        //@spec ensures r == hlen(*self), r <= 0x7f,
        self.len_u8() as usize
    }

    fn len_u8(&self) -> u8 {
        //@ proof { let b = self.0; assert(b & 0x7f <= 0x7f) by (bit_vector); }
        //@spec ensures r == hlen(*self), r <= 0x7f,
        self.0 & 0x7f
    }

}

//@pre #[derive(Clone, Copy)]
struct OwnedBlobRef<'a> {
    hdr: Header,
    data: &'a CompactOwnedBlob,
}

impl<'a> OwnedBlobRef<'a> {

    fn new(hdr: Header, data: &'a CompactOwnedBlob) -> Self {
        //@spec ensures r.hdr == hdr, r.data == data,
        Self { hdr, data }
    }

    fn is_id(&self) -> bool {
        //@spec ensures r == hid(self.hdr),
        self.hdr.is_id()
    }

    fn is_none(&self) -> bool {
        //@spec ensures r == hnone(self.hdr),
        self.hdr.is_none()
    }

    fn slice(&self) -> &'a [u8] {
        //@spec requires self.inv(),
        //@spec ensures r@ == self.vv().bytes(),
        self.data.slice(self.hdr)
    }

    fn serialize<S: BlobStore>(
        &self,
        target: &mut Vec<u8>,
        n: usize,
        store: &S,
    ) -> Result<(), S::Error> {
        //@spec requires self.inv(), n <= 1, store.readable(),
        //@spec ensures r is Ok ==> final(target)@.len() > old(target)@.len() && final(target)@ == old(target)@ + final(target)@.skip(old(target)@.len() as int) && ser_raw(*store, self.vv(), n as nat, final(target)@.skip(old(target)@.len() as int)),
        let slice = self.slice();
        if self.is_id() || slice.len() < 0x80 {
            target.push(self.hdr.into());
            target.extend_from_slice(slice);
        } else {
            let id = store.write(slice)?;
            let len = id.len() + n;
            target.push(Header::id(len).into());
            target.extend_from_slice(&slice[..n]);
            target.extend_from_slice(&id);
        }
        //@ proof { lemma_ser_raw(*store, *self, n as nat, old(target)@, target@); }
        Ok(())
    }

}
