
struct BorrowedBlobRef<'a> {
    hdr: Header,
    data: &'a u8,
}

impl<'a> BorrowedBlobRef<'a> {
    fn new(hdr: Header, data: &'a u8) -> Self {
        //@spec ensures r.hdr == hdr, r.data == data,
        Self { hdr, data }
    }

    fn is_id(&self) -> bool {
        //@spec ensures r == hid(self.hdr),
        self.hdr.is_id()
    }

    fn is_none(&self) -> bool {
        //@spec ensures r == hnone(self.hdr),
        self.hdr.is_none()
    }

    fn bytes(&self) -> &'a [u8] {
        //@spec requires self.inv(),
        //@spec ensures r@ == self.data.tail().take(1 + hlen(self.hdr) as int),
        unsafe { std::slice::from_raw_parts(self.data, self.hdr.len() + 1) }
    }

    fn slice(&self) -> &'a [u8] {
        //@spec requires self.inv(),
        //@spec ensures r@ == self.vv().bytes(),
        //@ proof { assert(self.data.tail().take(1 + hlen(self.hdr) as int).subrange(1, 1 + hlen(self.hdr) as int) =~= self.data.tail().subrange(1, 1 + hlen(self.hdr) as int)); }
        &self.bytes()[1..]
    }

    fn read(&self) -> Result<&'a [u8], &'a [u8]> {
        //@spec requires self.inv(),
        //@spec ensures match r { Ok(x) => self.vv() =~= Raw::Data(x@), Err(x) => self.vv() =~= Raw::Id(x@) },
        if !self.is_id() {
            Ok(self.slice())
        } else {
            Err(self.slice())
        }
    }

}

pub struct ValueRef<'a, S: BlobStore = Detached>(
    Result<OwnedBlobRef<'a>, BorrowedBlobRef<'a>>,
    PhantomData<S>,
);

impl<'a> ValueRef<'a> {
    //@pre #[verifier::external_body]
    pub fn downcast<S2: BlobStore>(&self) -> &ValueRef<'a, S2> {
        //@spec ensures self.inv() ==> r.inv(), r.vv() == self.vv(),
        unsafe { std::mem::transmute(self) }
    }

    pub fn data(&self) -> Option<&[u8]> {
        //@spec requires self.inv(), self.vv() is Data || self.vv().none(),
        //@spec ensures match r { Some(x) => self.vv() =~= Raw::Data(x@), None => self.vv().none() },
        if self.is_none() {
            None
        } else {
            Some(self.read().unwrap())
        }
    }

}

impl<'a, S: BlobStore> ValueRef<'a, S> {
    pub fn to_owned(&self) -> Value<S> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.vv() == self.vv(),
        match &self.0 {
            Ok(x) => OwnedValueRef::new(*x).to_owned(),
            Err(x) => Value {
                hdr: x.hdr,
                data: CompactOwnedBlob::copy_from_slice(x.slice()),
                p: PhantomData,
            },
        }
    }

    fn detached(&self, store: &S) -> Result<Value, S::Error>
    where
        S: BlobStore, {
        //@spec requires self.inv(), store.readable() || self.vv() is Data || self.vv().none(),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.vv() == raw_val(rv(*store, self.vv())),
        //@ proof { assert(self.vv().none() ==> self.vv() == raw_none()) by { assert(self.vv() is Id && self.vv()->Id_0.len() == 0 ==> self.vv()->Id_0 =~= Seq::<u8>::empty()); } }
        if !self.is_id() || self.is_none() {
            Ok(unsafe { std::mem::transmute(self.to_owned()) })
        //@~ Ok(cast_value(self.to_owned()))
        } else {
            let data = store.read(self.slice())?;
            Ok(Value {
                hdr: Header::data(data.len()),
                data: CompactOwnedBlob::copy_from_slice(&data),
                p: PhantomData,
            })
        }
    }

    fn read(&self) -> Result<&[u8], &[u8]> {
        //@spec requires self.inv(),
        //@spec ensures match r { Ok(x) => self.vv() =~= Raw::Data(x@), Err(x) => self.vv() =~= Raw::Id(x@) },
        if !self.is_id() {
            Ok(self.slice())
        } else {
            Err(self.slice())
        }
    }

    fn is_id(&self) -> bool {
        //@spec requires self.inv(),
        //@spec ensures r == (self.vv() is Id),
        match &self.0 {
            Ok(x) => x.is_id(),
            Err(x) => x.is_id(),
        }
    }

    fn is_none(&self) -> bool {
        //@spec requires self.inv(),
        //@spec ensures r == self.vv().none(),
        match &self.0 {
            Ok(x) => x.is_none(),
            Err(x) => x.is_none(),
        }
    }

    fn slice(&self) -> &'a [u8] {
        //@spec requires self.inv(),
        //@spec ensures r@ == self.vv().bytes(),
        match &self.0 {
            Ok(x) => x.slice(),
            Err(x) => x.slice(),
        }
    }

}

struct OwnedValueRef<'a, S>(OwnedBlobRef<'a>, PhantomData<S>);


impl<'a, S: BlobStore> OwnedValueRef<'a, S> {
    fn new(raw: OwnedBlobRef<'a>) -> Self {
        //@spec ensures r.0 == raw,
        Self(raw, PhantomData)
    }

    fn to_owned(&self) -> Value<S> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.vv() == self.vv(),
        Value {
            hdr: self.0.hdr,
            data: self.0.data.manual_clone(self.0.hdr),
            p: PhantomData,
        }
    }

}



pub struct Value<S: BlobStore = Detached> {
    hdr: Header,
    data: CompactOwnedBlob,
    p: PhantomData<S>,
}

impl AsRef<[u8]> for Value {
    //@impl impl AsBytes for Value
    //@pre spec fn bts(&self) -> Seq<u8> { self.vv().bytes() }
    //@pre spec fn bok(&self) -> bool { self.inv() }
    fn as_ref(&self) -> &[u8] {
        self.data.slice(self.hdr)
    }

}

impl Deref for Value {
    //@impl impl Value
    fn deref(&self) -> &Self::Target {
        //@hdr fn deref(&self) -> (r: &[u8])
        //@spec requires self.inv(),
        //@spec ensures r@ == self.vv().bytes(),
        self.data.slice(self.hdr)
    }

}

impl<'a> AsRef<[u8]> for OwnedValueRef<'a, Detached> {
    //@impl impl<'a> AsBytes for OwnedValueRef<'a, Detached>
    //@pre spec fn bts(&self) -> Seq<u8> { self.vv().bytes() }
    //@pre spec fn bok(&self) -> bool { self.inv() }
    fn as_ref(&self) -> &[u8] {
        self.0.data.slice(self.0.hdr)
    }

}

impl<'a> Deref for OwnedValueRef<'a, Detached> {
    //@impl impl<'a> OwnedValueRef<'a, Detached>
    fn deref(&self) -> &Self::Target {
        //@hdr fn deref(&self) -> (r: &[u8])
        //@spec requires self.inv(),
        //@spec ensures r@ == self.vv().bytes(),
        self.0.data.slice(self.0.hdr)
    }

}


impl Value {
    //@pre #[verifier::external_body]
    pub fn downcast<S2: BlobStore>(self) -> Value<S2> {
        //@spec ensures r.hdr == self.hdr, r.data == self.data,
        unsafe { std::mem::transmute(self) }
    }

}

impl<S: BlobStore> Value<S> {
    //@ens r.inv(), r.vv() =~= raw_none(),
    const EMPTY: Self = Self {
        hdr: Header::NONE,
        data: CompactOwnedBlob::EMPTY,
        p: PhantomData,
    };

    fn as_value_ref(&self) -> OwnedValueRef<S> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.vv() == self.vv(),
        OwnedValueRef::new(OwnedBlobRef {
            hdr: self.hdr,
            data: &self.data,
        })
    }

    pub fn load(&self, store: &S) -> Result<OwnedBlob, S::Error>
    where
        S: BlobStore, {
        //@spec requires self.inv(), store.readable() || self.vv() is Data,
        //@spec ensures r is Ok && !self.vv().none() ==> rv(*store, self.vv()) == Some(r->Ok_0@),
        match self.read() {
            Ok(data) => Ok(OwnedBlob::copy_from_slice(data)),
            Err(id) => store.read(id),
        }
    }

    pub fn set(&mut self, value: Option<&ValueRef<S>>) {
        //@spec requires old(self).inv(), value is Some ==> value->0.inv(),
        //@spec ensures final(self).inv(), final(self).vv() == match value { Some(x) => x.vv(), None => raw_none() },
        self.data.manual_drop(self.hdr);
        //@ proof { assert(cob_free(self.data, old(self).hdr)); }
        match value {
            Some(ValueRef(Ok(raw), _)) => {
                self.hdr = raw.hdr;
                self.data = raw.data.manual_clone(raw.hdr);
            }
            Some(ValueRef(Err(iod), _)) => {
                self.hdr = iod.hdr;
                self.data = CompactOwnedBlob::copy_from_slice(iod.slice());
            }
            None => {
                self.hdr = Header::NONE;
                self.data = CompactOwnedBlob::EMPTY;
            }
        }
    }

    fn read(&self) -> Result<&[u8], &[u8]> {
        //@spec requires self.inv(),
        //@spec ensures match r { Ok(x) => self.vv() =~= Raw::Data(x@), Err(x) => self.vv() =~= Raw::Id(x@) },
        if self.hdr.is_data() {
            Ok(self.data.slice(self.hdr))
        } else {
            Err(self.data.slice(self.hdr))
        }
    }

}

impl<S: BlobStore> Drop for Value<S> {
    //@impl impl<S: BlobStore> Value<S>
    fn drop(&mut self) {
        //@spec requires old(self).inv(),
        //@spec ensures cob_free(final(self).data, old(self).hdr),
        self.data.manual_drop(self.hdr);
    }

}

pub struct TreeNode<S> {

    discriminator: u8,

    prefix_hdr: Header,

    value_hdr: Header,

    children_hdr: Header,

    prefix: CompactOwnedBlob,

    value: CompactOwnedBlob,

    children: ChildrenRef<S>,
}

impl<S: BlobStore> TreeNode<S> {
    //@ens r.inv(), r.np() =~= Raw::Data(Seq::empty()), r.nv() =~= raw_none(), r.nc() =~= Ch::<S>::Id(Seq::empty()),
    const EMPTY: Self = Self {
        discriminator: 0,
        prefix_hdr: Header::EMPTY,
        prefix: CompactOwnedBlob::EMPTY,
        value_hdr: Header::NONE,
        value: CompactOwnedBlob::EMPTY,
        children_hdr: Header::NONE,
        children: ChildrenRef::EMPTY,
    };

    fn empty_with_children(arc: Arc<Vec<TreeNode<S>>>) -> Self {
        //@spec ensures r.inv(), r.np() =~= Raw::Data(Seq::empty()), r.nv() =~= raw_none(), r.nc() =~= Ch::Data(arc@),
        let mut res = Self::EMPTY;
        res.set_children_arc(arc);
        res
    }

    fn single(prefix: &[u8], value: &[u8]) -> Self {
        //@spec ensures r.inv(), r.np() =~= Raw::Data(prefix@), r.nv() =~= Raw::Data(value@), r.nc() =~= Ch::<S>::Id(Seq::empty()),
        let mut res = Self::EMPTY;
        res.set_prefix_slice(prefix);
        res.set_value_slice(Some(value));
        res
    }

    fn leaf(value: &[u8]) -> Self {
        //@spec ensures r.inv(), r.np() =~= Raw::Data(Seq::empty()), r.nv() =~= Raw::Data(value@), r.nc() =~= Ch::<S>::Id(Seq::empty()),
        let mut res = Self::EMPTY;
        res.set_value_slice(Some(value));
        res
    }

    fn prefix_ref(&self) -> OwnedBlobRef<'_> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.vv() == self.np(),
        OwnedBlobRef::new(self.prefix_hdr, &self.prefix)
    }

    fn value_ref(&self) -> OwnedBlobRef<'_> {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.vv() == self.nv(),
        OwnedBlobRef::new(self.value_hdr, &self.value)
    }

    fn first_prefix_byte(&self) -> Option<u8> {
        //@spec requires self.inv(),
        //@spec ensures r == (if self.np().bytes().len() > 0 { Some(self.np().bytes()[0]) } else { None }),
        self.prefix_ref().slice().first().cloned()
    }

    fn is_empty(&self) -> bool {
        //@spec requires self.inv(),
        //@spec ensures r == (self.nv().none() && self.nc() is Id && self.nc()->Id_0.len() == 0),
        !self.has_value() && self.is_leaf()
    }

    fn set_prefix_owned(&mut self, prefix: OwnedBlobRef) {
        //@spec requires old(self).inv(), prefix.inv(), !hnone(prefix.hdr),
        //@spec ensures final(self).inv(), final(self).np() == prefix.vv(), final(self).nv() == old(self).nv(), final(self).nc() == old(self).nc(),
        self.prefix.manual_drop(self.prefix_hdr);
        //@ proof { assert(cob_free(self.prefix, old(self).prefix_hdr)); }
        self.prefix_hdr = prefix.hdr;
        self.prefix = prefix.data.manual_clone(prefix.hdr);
    }

    fn set_prefix_slice(&mut self, prefix: &[u8]) {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).np() =~= Raw::Data(prefix@), final(self).nv() == old(self).nv(), final(self).nc() == old(self).nc(),
        self.prefix.manual_drop(self.prefix_hdr);
        //@ proof { assert(cob_free(self.prefix, old(self).prefix_hdr)); }
        self.prefix_hdr = Header::data(prefix.len());
        self.prefix = CompactOwnedBlob::copy_from_slice(prefix);
    }

    fn set_value_owned(&mut self, value: OwnedBlobRef) {
        //@spec requires old(self).inv(), value.inv(),
        //@spec ensures final(self).inv(), final(self).nv() == value.vv(), final(self).np() == old(self).np(), final(self).nc() == old(self).nc(),
        self.value.manual_drop(self.value_hdr);
        //@ proof { assert(cob_free(self.value, old(self).value_hdr)); }
        self.value_hdr = value.hdr;
        self.value = value.data.manual_clone(value.hdr);
    }

    fn set_value_borrowed(&mut self, value: BorrowedBlobRef) {
        //@spec requires old(self).inv(), value.inv(),
        //@spec ensures final(self).inv(), final(self).nv() == value.vv(), final(self).np() == old(self).np(), final(self).nc() == old(self).nc(),
        self.value.manual_drop(self.value_hdr);
        //@ proof { assert(cob_free(self.value, old(self).value_hdr)); }
        self.value_hdr = value.hdr;
        self.value = CompactOwnedBlob::copy_from_slice(value.slice());
    }

    fn set_prefix_borrowed(&mut self, prefix: BorrowedBlobRef) {
        //@spec requires old(self).inv(), prefix.inv(), !hnone(prefix.hdr),
        //@spec ensures final(self).inv(), final(self).np() == prefix.vv(), final(self).nv() == old(self).nv(), final(self).nc() == old(self).nc(),
        self.prefix.manual_drop(self.prefix_hdr);
        //@ proof { assert(cob_free(self.prefix, old(self).prefix_hdr)); }
        self.prefix_hdr = prefix.hdr;
        self.prefix = CompactOwnedBlob::copy_from_slice(prefix.slice());
    }

    fn set_children_borrowed(&mut self, value: BorrowedBlobRef) {
        //@spec requires old(self).inv(), value.inv(), hid(value.hdr),
        //@spec ensures final(self).inv(), final(self).nc() =~= Ch::<S>::Id(value.vv().bytes()), final(self).np() == old(self).np(), final(self).nv() == old(self).nv(),
        assert!(value.hdr.is_id());
        self.children.manual_drop(self.children_hdr);
        //@ proof { assert(ch_free(self.children, old(self).children_hdr)); }
        self.children_hdr = value.hdr;
        self.children = ChildrenRef::id_from_slice(value.slice());
    }

    fn set_value(&mut self, value: Option<impl AsRef<[u8]>>) {
        //@spec requires old(self).inv(), value is Some ==> value->0.bok(),
        //@spec ensures final(self).inv(), final(self).nv() == (match value { Some(x) => Raw::Data(x.bts()), None => raw_none() }), final(self).np() == old(self).np(), final(self).nc() == old(self).nc(),
        if let Some(x) = value {
            self.set_value_slice(Some(x.as_ref()))
        } else {
            self.set_value_slice(None)
        }
    }

    fn set_value_slice(&mut self, value: Option<&[u8]>) {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).nv() == (match value { Some(x) => Raw::Data(x@), None => raw_none() }), final(self).np() == old(self).np(), final(self).nc() == old(self).nc(),
        self.value.manual_drop(self.value_hdr);
        //@ proof { assert(cob_free(self.value, old(self).value_hdr)); }
        if let Some(value) = value {
            self.value_hdr = Header::data(value.len());
            self.value = CompactOwnedBlob::copy_from_slice(value);
        } else {
            self.value_hdr = Header::NONE;
            self.value = CompactOwnedBlob::EMPTY;
        }
    }

    fn get_children(&self) -> Result<&Arc<Vec<TreeNode<S>>>, &[u8]> {
        //@spec requires self.inv(),
        //@spec ensures match r { Ok(a) => self.nc() =~= Ch::<S>::Data(a@), Err(id) => self.nc() =~= Ch::<S>::Id(id@) },
        self.children.deref(self.children_hdr)
    }

    fn get_children_mut(&mut self) -> Result<&mut Arc<Vec<TreeNode<S>>>, &[u8]> {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).np() == old(self).np(), final(self).nv() == old(self).nv(),
        //@spec match r {
        //@spec     Ok(a) => old(self).nc() =~= Ch::<S>::Data((*a)@) && final(self).nc() =~= Ch::<S>::Data((*final(a))@),
        //@spec     Err(id) => old(self).nc() =~= Ch::<S>::Id(id@) && *final(self) == *old(self) },
        self.children.deref_mut(self.children_hdr)
    }

    fn set_children_arc(&mut self, arc: Arc<Vec<TreeNode<S>>>) {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).nc() =~= Ch::Data(arc@), final(self).np() == old(self).np(), final(self).nv() == old(self).nv(),
        self.children.manual_drop(self.children_hdr);
        //@ proof { assert(ch_free(self.children, old(self).children_hdr)); }
        self.children_hdr = Header::ARCDATA;
        self.children = ChildrenRef::data_from_arc(arc);
    }

    fn set_children_arc_opt(&mut self, arc_opt: Option<Arc<Vec<TreeNode<S>>>>) {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).nc() == (match arc_opt { Some(arc) => Ch::Data(arc@), None => Ch::<S>::Id(Seq::empty()) }), final(self).np() == old(self).np(), final(self).nv() == old(self).nv(),
        match arc_opt {
            Some(arc) => self.set_children_arc(arc),
            None => self.set_children_id(&[]),
        }
    }

    fn set_children_id(&mut self, id: &[u8]) {
        //@spec requires old(self).inv(), id@.len() < 0x80,
        //@spec ensures final(self).inv(), final(self).nc() =~= Ch::<S>::Id(id@), final(self).np() == old(self).np(), final(self).nv() == old(self).nv(),
        self.children.manual_drop(self.children_hdr);
        //@ proof { assert(ch_free(self.children, old(self).children_hdr)); }
        self.children_hdr = Header::id(id.len());
        self.children = ChildrenRef::id_from_slice(id);
    }

    fn has_value(&self) -> bool {
        //@spec requires self.inv(),
        //@spec ensures r == !self.nv().none(),
        self.value_hdr != Header::NONE
    }

    fn value_opt(&self) -> Option<OwnedValueRef<'_, S>> {
        //@spec requires self.inv(),
        //@spec ensures match r { Some(x) => x.inv() && x.vv() == self.nv() && !self.nv().none(), None => self.nv().none() },
        if self.has_value() {
            Some(OwnedValueRef::new(self.value_ref()))
        } else {
            None
        }
    }

    fn take_value_opt(&mut self) -> Option<Value<S>> {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).nv() =~= raw_none(), final(self).np() == old(self).np(), final(self).nc() == old(self).nc(),
        //@spec match r { Some(x) => x.inv() && x.vv() == old(self).nv() && !old(self).nv().none(), None => old(self).nv().none() },
        if self.has_value() {
            let mut value = Value::EMPTY;
            std::mem::swap(&mut self.value_hdr, &mut value.hdr);
            std::mem::swap(&mut self.value, &mut value.data);
            Some(value)
        } else {
            None
        }
    }

    fn take_value(&mut self) -> Value<S> {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).nv() =~= raw_none(), final(self).np() == old(self).np(), final(self).nc() == old(self).nc(), r.inv(), r.vv() == old(self).nv(),
        let mut value = Value::EMPTY;
        std::mem::swap(&mut self.value_hdr, &mut value.hdr);
        std::mem::swap(&mut self.value, &mut value.data);
        value
    }

    fn is_leaf(&self) -> bool {
        //@spec requires self.inv(),
        //@spec ensures r == (self.nc() is Id && self.nc()->Id_0.len() == 0),
        self.children_hdr == Header::NONE
    }

    fn child_count(&self) -> usize {
        //@spec requires self.inv(),
        //@spec ensures r == (match self.nc() { Ch::Data(v) => v.len(), Ch::Id(id) => if id.len() == 0 { 0 } else { 2 } }),
        match self.get_children() {
            Ok(data) => data.len(),
            Err(id) => {
                if id.is_empty() {
                    0
                } else {
                    2
                }
            }
        }
    }

}

impl<S> Drop for TreeNode<S> {
    //@impl impl<S> TreeNode<S>
    fn drop(&mut self) {
        //@spec requires old(self).inv(),
        //@spec ensures cob_free(final(self).prefix, old(self).prefix_hdr), cob_free(final(self).value, old(self).value_hdr), ch_free(final(self).children, old(self).children_hdr),
        self.prefix.manual_drop(self.prefix_hdr);
        self.value.manual_drop(self.value_hdr);
        self.children.manual_drop(self.children_hdr);
    }

}

impl<S> Clone for TreeNode<S> {
    //@impl impl<S> TreeNode<S>
    fn clone(&self) -> Self {
        //@spec requires self.inv(),
        //@spec ensures r.inv(), r.np() == self.np(), r.nv() == self.nv(), r.nc() == self.nc(),
        Self {
            discriminator: 0,
            prefix_hdr: self.prefix_hdr,
            value_hdr: self.value_hdr,
            children_hdr: self.children_hdr,
            prefix: self.prefix.manual_clone(self.prefix_hdr),
            value: self.value.manual_clone(self.value_hdr),
            children: self.children.manual_clone(self.children_hdr),
        }
    }

}
