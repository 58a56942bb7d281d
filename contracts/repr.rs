// ---------------------------------------------------------------------------------------------------------------
// Layer A: headers and the compact representation
// ---------------------------------------------------------------------------------------------------------------

/// an actual byte length that fits a header: exact, except that data of 127 bytes or more has the length 127
spec fn hfits(h: Header, len: nat) -> bool {
    if hid(h) {
        len == hlen(h)
    } else {
        len == hlen(h) || (hlen(h) == 0x7f && len > 0x7f)
    }
}

spec fn cob_arc(b: CompactOwnedBlob) -> Seq<u8> {
    get_union_field::<CompactOwnedBlob, ManuallyDrop<Arc<Vec<u8>>>>(b, "arc")@@
}

spec fn cob_inline(b: CompactOwnedBlob) -> Seq<u8> {
    get_union_field::<CompactOwnedBlob, [u8; PTR_SIZE]>(b, "inline")@
}

spec fn cob_released(b: CompactOwnedBlob) -> bool {
    released(get_union_field::<CompactOwnedBlob, ManuallyDrop<Arc<Vec<u8>>>>(b, "arc"))
}

spec fn ch_released<S>(b: ChildrenRef<S>, h: Header) -> bool {
    if hid(h) {
        released(get_union_field::<ChildrenRef<S>, ManuallyDrop<Arc<Vec<u8>>>>(b, "arc_id"))
    } else {
        released(get_union_field::<ChildrenRef<S>, ManuallyDrop<Arc<Vec<TreeNode<S>>>>>(b, "arc_data"))
    }
}

/// the slot owns nothing: it may be overwritten or go away
spec fn cob_free(b: CompactOwnedBlob, h: Header) -> bool {
    hlen(h) > 8 ==> is_variant(b, "arc") && cob_released(b)
}

spec fn ch_free<S>(b: ChildrenRef<S>, h: Header) -> bool {
    hlen(h) > 8 ==> ((if hid(h) { is_variant(b, "arc_id") } else { is_variant(b, "arc_data") }) && ch_released(b, h))
}

/// C14: the header decides which variant of the union is initialized, and its length is right
spec fn cob_ok(b: CompactOwnedBlob, h: Header) -> bool {
    if hlen(h) > 8 {
        is_variant(b, "arc") && hfits(h, cob_arc(b).len()) && !cob_released(b)
    } else {
        is_variant(b, "inline")
    }
}

/// the bytes of a compact blob
spec fn cob(b: CompactOwnedBlob, h: Header) -> Seq<u8> {
    if hlen(h) > 8 {
        cob_arc(b)
    } else {
        cob_inline(b).take(hlen(h) as int)
    }
}

spec fn ch_arc_id<S>(b: ChildrenRef<S>) -> Seq<u8> {
    get_union_field::<ChildrenRef<S>, ManuallyDrop<Arc<Vec<u8>>>>(b, "arc_id")@@
}

spec fn ch_inline<S>(b: ChildrenRef<S>) -> Seq<u8> {
    get_union_field::<ChildrenRef<S>, [u8; PTR_SIZE]>(b, "inline")@
}

spec fn ch_arc_data<S>(b: ChildrenRef<S>) -> Arc<Vec<TreeNode<S>>> {
    get_union_field::<ChildrenRef<S>, ManuallyDrop<Arc<Vec<TreeNode<S>>>>>(b, "arc_data")@
}

spec fn ch_ok<S>(b: ChildrenRef<S>, h: Header) -> bool {
    if hid(h) {
        if hlen(h) > 8 {
            is_variant(b, "arc_id") && ch_arc_id(b).len() == hlen(h) && !ch_released(b, h)
        } else {
            is_variant(b, "inline")
        }
    } else {
        hlen(h) > 8 && is_variant(b, "arc_data") && !ch_released(b, h)
    }
}

/// the children of a node: an id (empty if there are none) or loaded nodes
#[verifier::ext_equal]
ghost enum Ch<S> {
    Id(Seq<u8>),
    Data(Seq<TreeNode<S>>),
}

spec fn chv<S>(b: ChildrenRef<S>, h: Header) -> Ch<S> {
    if hid(h) {
        Ch::Id(if hlen(h) > 8 { ch_arc_id(b) } else { ch_inline(b).take(hlen(h) as int) })
    } else {
        Ch::Data(ch_arc_data(b)@)
    }
}

/// a prefix or value as it is stored: inline data or an id
#[verifier::ext_equal]
ghost enum Raw {
    Data(Seq<u8>),
    Id(Seq<u8>),
}

impl Raw {
    spec fn bytes(self) -> Seq<u8> {
        match self {
            Raw::Data(x) => x,
            Raw::Id(x) => x,
        }
    }

    spec fn none(self) -> bool {
        self is Id && self->Id_0.len() == 0
    }
}

spec fn raw_none() -> Raw {
    Raw::Id(Seq::empty())
}

spec fn raw_of(h: Header, bytes: Seq<u8>) -> Raw {
    if hid(h) {
        Raw::Id(bytes)
    } else {
        Raw::Data(bytes)
    }
}

impl<S> TreeNode<S> {
    /// prefix, value and children as stored
    spec fn np(self) -> Raw {
        raw_of(self.prefix_hdr, cob(self.prefix, self.prefix_hdr))
    }

    spec fn nv(self) -> Raw {
        raw_of(self.value_hdr, cob(self.value, self.value_hdr))
    }

    spec fn nc(self) -> Ch<S> {
        chv(self.children, self.children_hdr)
    }

    /// representation invariant of an owned node
    spec fn inv(self) -> bool {
        &&& self.discriminator == 0
        &&& cob_ok(self.prefix, self.prefix_hdr)
        &&& cob_ok(self.value, self.value_hdr)
        &&& ch_ok(self.children, self.children_hdr)
        // an indirect prefix carries its first byte in front of the id
        &&& !hnone(self.prefix_hdr)
    }
}

impl<S: BlobStore> Value<S> {
    spec fn inv(self) -> bool {
        cob_ok(self.data, self.hdr)
    }

    spec fn vv(self) -> Raw {
        raw_of(self.hdr, cob(self.data, self.hdr))
    }
}

impl<'a> OwnedBlobRef<'a> {
    spec fn inv(self) -> bool {
        cob_ok(*self.data, self.hdr)
    }

    spec fn vv(self) -> Raw {
        raw_of(self.hdr, cob(*self.data, self.hdr))
    }
}

impl<'a> BorrowedBlobRef<'a> {
    spec fn inv(self) -> bool {
        hlen(self.hdr) + 1 <= self.data.tail().len()
    }

    spec fn vv(self) -> Raw {
        raw_of(self.hdr, self.data.tail().subrange(1, 1 + hlen(self.hdr) as int))
    }
}

impl<'a, S: BlobStore> ValueRef<'a, S> {
    spec fn inv(self) -> bool {
        match self.0 {
            Ok(x) => x.inv(),
            Err(x) => x.inv(),
        }
    }

    spec fn vv(self) -> Raw {
        match self.0 {
            Ok(x) => x.vv(),
            Err(x) => x.vv(),
        }
    }
}

impl<'a, S: BlobStore> OwnedValueRef<'a, S> {
    spec fn inv(self) -> bool {
        self.0.inv()
    }

    spec fn vv(self) -> Raw {
        self.0.vv()
    }
}

impl<'a> OwnedBlobRef<'a> {
    #[verifier::external_body]
    fn empty_ref() -> (r: OwnedBlobRef<'static>)
        ensures
            r.inv(),
            r.vv() == Raw::Data(Seq::empty()),
    {
        unimplemented!()
    }
}

/// a value without id seen as a value of a detached tree (`transmute` of the store marker)
#[verifier::external_body]
fn cast_value<S: BlobStore>(v: Value<S>) -> (r: Value<Detached>)
    ensures
        r.hdr == v.hdr,
        r.data == v.data,
{
    unimplemented!()
}


impl vstd::std_specs::convert::FromSpecImpl<u8> for Header {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(v: u8) -> Header {
        Header(v)
    }
}

impl vstd::std_specs::convert::FromSpecImpl<Header> for u8 {
    open spec fn obeys_from_spec() -> bool {
        true
    }

    open spec fn from_spec(v: Header) -> u8 {
        v.0
    }
}

/// what `OwnedBlobRef::serialize` appends: the header and the bytes, or the header of an id, the first `n` bytes and
/// the id of a blob with the content
spec fn ser_blob<S: BlobStore>(s: S, v: Raw, h: Header, n: nat, a: Seq<u8>, b: Seq<u8>) -> bool {
    if v is Id || v.bytes().len() < 0x80 {
        b =~= a.push(h.0) + v.bytes()
    } else {
        exists|id: Seq<u8>| #![trigger s.blob(id)]
            s.blob(id) == v.bytes() && 1 <= id.len() <= 126 && b =~= a.push(hidh(id.len() + n).0) + v.bytes().take(n as int) + id
    }
}

/// the encoding of a blob: the blob itself, or an id of its content
spec fn ser_raw<S: BlobStore>(s: S, v: Raw, n: nat, e: Seq<u8>) -> bool {
    &&& e.len() > 0
    &&& e.len() == 1 + hlen(Header(e[0]))
    &&& {
        let m = raw_of(Header(e[0]), e.skip(1));
        ||| m == v
        ||| m is Id && v is Data && m.bytes().len() > n && v.bytes().len() > n && m.bytes().take(n as int) == v.bytes().take(n as int) && s.blob(
            m.bytes().skip(n as int),
        ) == v.bytes() && s.readable()
    }
}

proof fn lemma_ser_raw<S: BlobStore>(s: S, r: OwnedBlobRef<'_>, n: nat, a: Seq<u8>, b: Seq<u8>)
    requires
        r.inv(),
        n <= 1,
        s.readable(),
        ser_blob(s, r.vv(), r.hdr, n, a, b),
    ensures
        b.len() > a.len(),
        b == a + b.skip(a.len() as int),
        ser_raw(s, r.vv(), n, b.skip(a.len() as int)),
{
    let v = r.vv();
    let e = b.skip(a.len() as int);
    if v is Id || v.bytes().len() < 0x80 {
        assert(b =~= a + (seq![r.hdr.0] + v.bytes()));
        assert(e =~= seq![r.hdr.0] + v.bytes());
        assert(e.skip(1) =~= v.bytes());
        assert(Header(e[0]) == r.hdr);
    } else {
        let id = choose|id: Seq<u8>| #![trigger s.blob(id)] s.blob(id) == v.bytes() && 1 <= id.len() <= 126 && b =~= a.push(hidh(id.len() + n).0) + v.bytes().take(n as int) + id;
        let h = hidh(id.len() + n);
        assert(e =~= seq![h.0] + v.bytes().take(n as int) + id);
        assert(Header(e[0]) == h);
        assert(e.skip(1) =~= v.bytes().take(n as int) + id);
        assert(e.skip(1).take(n as int) =~= v.bytes().take(n as int));
        assert(e.skip(1).skip(n as int) =~= id);
    }
    assert(b =~= a + e);
}
