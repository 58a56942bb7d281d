pub struct Blob<'a> {
    data: &'a [u8],
    owner: Option<Arc<dyn Any>>,
    //@~ owner: Option<AnyOwner>,
}

impl<'a> AsRef<[u8]> for Blob<'a> {
    //@impl impl<'a> Blob<'a>
    fn as_ref(&self) -> &[u8] {
        //@spec ensures r@ == self@,
        self.data
    }
}

impl<'a> Deref for Blob<'a> {
    type Target = [u8];

    fn deref(&self) -> &Self::Target {
        //@spec ensures r@ == self@, self@.len() <= isize::MAX,
        //@ proof { axiom_slice_len(self.data); }
        self.as_ref()
    }
}

impl<'a> Borrow<[u8]> for Blob<'a> {
    //@impl impl<'a> Blob<'a>
    fn borrow(&self) -> &[u8] {
        //@spec ensures r@ == self@,
        self.as_ref()
    }
}

impl<'a> Hash for Blob<'a> {
    //@impl impl<'a> Blob<'a>
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        //@hdr fn hash<H: Hasher>(&self, state: &mut H)
        //@spec ensures final(state).fed() == old(state).fed().push(self@),
        self.data.hash(state);
    }
}

impl<'a, 'b> PartialEq<Blob<'b>> for Blob<'a> {
    //@impl impl<'a> Blob<'a>
    fn eq(&self, other: &Blob<'b>) -> bool {
        //@hdr fn eq<'b>(&self, other: &Blob<'b>) -> (r: bool)
        //@spec ensures r == (self@ == other@),
        //@ proof { assert((self@ =~= other@) == (self@ == other@)); }
        self.data == other.data
    }
}

impl<'a, 'b> PartialOrd<Blob<'b>> for Blob<'a> {
    //@impl impl<'a> Blob<'a>
    fn partial_cmp(&self, other: &Blob<'b>) -> Option<Ordering> {
        //@hdr fn partial_cmp<'b>(&self, other: &Blob<'b>) -> (r: Option<Ordering>)
        //@spec ensures r == Some(byte_cmp(self@, other@)),
        self.data.partial_cmp(other.data)
        //@~ Some(slice_cmp(self.data, other.data))
    }
}

impl<'a> Ord for Blob<'a> {
    //@impl impl<'a> Blob<'a>
    fn cmp(&self, other: &Self) -> Ordering {
        //@spec ensures r == byte_cmp(self@, other@),
        self.data.cmp(other.data)
        //@~ slice_cmp(self.data, other.data)
    }
}

impl<'a> Blob<'a> {
    pub fn empty() -> Self {
        //@spec ensures r@.len() == 0,
        Self::new(&[])
    }

    pub fn new(data: &'a [u8]) -> Self {
        //@spec ensures r@ == data@,
        Self { data, owner: None }
    }

    pub fn copy_from_slice(data: &[u8]) -> OwnedBlob {
        //@spec ensures r@ == data@, r.owned(),
        OwnedBlob::from_arc_vec(Arc::new(data.to_vec()))
    }

    pub fn from_arc_vec(arc: Arc<Vec<u8>>) -> OwnedBlob {
        //@spec ensures r@ == arc@, r.owned(),
        let data: &[u8] = arc.as_ref();
        // extend the lifetime
        let data: &'static [u8] = unsafe { std::mem::transmute(data) };
        OwnedBlob::owned_new(data, Some(arc))
    }

    pub fn to_owned(self) -> OwnedBlob {
        //@spec ensures r@ == self@, r.owned(), self.owned() ==> r.same_owner(&self),
        if self.owner.is_some() {
            OwnedBlob {
                data: unsafe { std::mem::transmute(self.data) },
                owner: self.owner,
            }
        } else {
            OwnedBlob::copy_from_slice(self.data)
        }
    }

    pub fn slice(&self, range: impl RangeBounds<usize>) -> Self {
        //@hdr fn slice<R: RangeOf>(&self, range: R) -> (r: Self)
        //@rw \bassert!\( => refuse!(
        //@rw \.expect\("[^"]*"\) => .or_refuse()
        //@spec ensures 0 <= range_lo(range) <= range_hi(range, self@.len()) <= self@.len(), r@ == self@.subrange(range_lo(range), range_hi(range, self@.len())), r@.len() > 0 ==> r.same_owner(self),
        let len = self.len();

        let begin = match range.start_bound() {
            Bound::Included(&n) => n,
            Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
            Bound::Unbounded => 0,
        };

        let end = match range.end_bound() {
            Bound::Included(&n) => n.checked_add(1).expect("out of range"),
            Bound::Excluded(&n) => n,
            Bound::Unbounded => len,
        };

        assert!(
            begin <= end,
            "range start must not be greater than end: {:?} <= {:?}",
            begin,
            end,
        );
        assert!(
            end <= len,
            "range end out of bounds: {:?} <= {:?}",
            end,
            len,
        );

        if end == begin {
            return Self::empty();
        }

        Self {
            data: &self.data[begin..end],
            owner: self.owner.clone(),
        }
    }

    pub fn slice_ref(&self, subset: &[u8]) -> Self {
        //@hdr fn slice_ref(&self, subset: &[u8]) -> (r: Self)
        //@rw \bassert!\( => refuse!(
        //@spec ensures subset@.len() > 0 ==> addr_of(self.data) <= addr_of(subset) && addr_of(subset) + subset@.len() <= addr_of(self.data) + self@.len(), r@ == if subset@.len() == 0 { seq![] } else { self@.subrange(addr_of(subset) - addr_of(self.data), addr_of(subset) - addr_of(self.data) + subset@.len()) }, r@.len() > 0 ==> r.same_owner(self),
        // Empty slice and empty Bytes may have their pointers reset
        // so explicitly allow empty slice to be a subslice of any slice.
        if subset.is_empty() {
            return Self::empty();
        }

        let bytes_p = self.as_ptr() as usize;
        //@~ let bytes_p = addr(self.data);
        let bytes_len = self.len();

        let sub_p = subset.as_ptr() as usize;
        //@~ let sub_p = addr(subset);
        let sub_len = subset.len();

        assert!(
            sub_p >= bytes_p,
            "subset pointer ({:p}) is smaller than self pointer ({:p})",
            sub_p as *const u8,
            bytes_p as *const u8,
        );
        assert!(
            sub_p + sub_len <= bytes_p + bytes_len,
            "subset is out of bounds: self = ({:p}, {}), subset = ({:p}, {})",
            bytes_p as *const u8,
            bytes_len,
            sub_p as *const u8,
            sub_len,
        );

        let sub_offset = sub_p - bytes_p;

        self.slice(sub_offset..(sub_offset + sub_len))
    }
}

impl From<Arc<Vec<u8>>> for OwnedBlob {
    fn from(v: Arc<Vec<u8>>) -> Self {
        //@spec ensures r@ == v@, r.owned(),
        let bytes: &[u8] = v.as_ref();
        // extend the lifetime
        // the vec will be unchanged and will be kept alive by the arc
        let bytes: &'static [u8] = unsafe { std::mem::transmute(bytes) };
        Self::owned_new(bytes, Some(v))
    }
}

impl<const N: usize> From<Arc<[u8; N]>> for OwnedBlob {
    fn from(v: Arc<[u8; N]>) -> Self {
        //@spec ensures r@ == v@, r.owned(),
        let bytes: &[u8] = v.as_ref();
        // extend the lifetime
        // the array will be unchanged and will be kept alive by the arc
        let bytes: &'static [u8] = unsafe { std::mem::transmute(bytes) };
        Self::owned_new(bytes, Some(v))
    }
}
