// ---------------------------------------------------------------------------------------------------------------
// Blobs and blob stores
// ---------------------------------------------------------------------------------------------------------------

type OwnedBlob = Blob<'static>;

impl<'a> View for Blob<'a> {
    type V = Seq<u8>;

    closed spec fn view(&self) -> Seq<u8> {
        self.data@
    }
}

/// what an owner keeps alive and unchanged
trait Owner {
    spec fn owns(&self, s: Seq<u8>) -> bool;
}

impl Owner for Vec<u8> {
    spec fn owns(&self, s: Seq<u8>) -> bool {
        s == self@
    }
}

impl<const N: usize> Owner for [u8; N] {
    spec fn owns(&self, s: Seq<u8>) -> bool {
        s == self@
    }
}

/// `Arc<dyn Any>`
#[verifier::external_body]
struct AnyOwner {
    o: u8,
}

impl Clone for AnyOwner {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        unimplemented!()
    }
}

/// `std::mem::transmute::<&[u8], &'static [u8]>`: the lifetime is checked by `owned_new`
#[verifier::external_body]
unsafe fn extend(s: &[u8]) -> (r: &'static [u8])
    ensures
        r@ == s@,
{
    unimplemented!()
}

impl OwnedBlob {
    /// `Blob::owned_new`: whoever calls it promises that the owner keeps the bytes alive
    #[verifier::external_body]
    fn owned_new<O: Owner>(data: &'static [u8], owner: Option<Arc<O>>) -> (r: OwnedBlob)
        requires
            owner is Some,
            owner->0.owns(data@),
        ensures
            r@ == data@,
            r.owned(),
    {
        unimplemented!()
    }
}

impl<'a> Clone for Blob<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self)
        ensures
            r@ == self@,
            r.same_owner(self),
    {
        unimplemented!()
    }
}

/// `AsRef<[u8]>`: conversions are pure
trait AsBytes {
    spec fn bts(&self) -> Seq<u8>;

    spec fn bok(&self) -> bool;

    fn as_ref(&self) -> (r: &[u8])
        requires
            self.bok(),
        ensures
            r@ == self.bts(),
    ;
}

impl<'a> AsBytes for Blob<'a> {
    spec fn bts(&self) -> Seq<u8> {
        self@
    }

    spec fn bok(&self) -> bool {
        true
    }

    fn as_ref(&self) -> (r: &[u8]) {
        self.data
    }
}

impl<'a> AsBytes for &'a [u8] {
    spec fn bts(&self) -> Seq<u8> {
        self@
    }

    spec fn bok(&self) -> bool {
        true
    }

    fn as_ref(&self) -> (r: &[u8]) {
        self
    }
}

/// value of a stored value reference; None if there is no value
spec fn rv<S: BlobStore>(s: S, raw: Raw) -> Option<Seq<u8>> {
    match raw {
        Raw::Data(x) => Some(x),
        Raw::Id(id) => if id.len() == 0 { None } else { Some(s.blob(id)) },
    }
}

/// value of a stored prefix: an id has the first byte of the prefix in front
spec fn rp<S: BlobStore>(s: S, raw: Raw) -> Seq<u8> {
    match raw {
        Raw::Data(x) => x,
        Raw::Id(id) => s.blob(id.skip(1)),
    }
}

spec fn raw_val(v: Option<Seq<u8>>) -> Raw {
    match v {
        Some(x) => Raw::Data(x),
        None => raw_none(),
    }
}

/// store clones refer to the same store
#[verifier::external_body]
broadcast proof fn axiom_store_clone<S: BlobStore + Clone>(a: &S, r: S)
    requires
        #[trigger] call_ensures(S::clone, (a,), r),
    ensures
        r == *a,
{
}


/// stands for `anyhow::Error`
pub struct AnyErr;

/// never called: a detached tree reads nothing
impl From<AnyErr> for NoError {
    #[verifier::external_body]
    fn from(e: AnyErr) -> (r: NoError) {
        unreachable!()
    }
}
impl From<NoError> for AnyErr {
    fn from(e: NoError) -> (r: AnyErr) {
        AnyErr
    }
}

impl vstd::std_specs::convert::FromSpecImpl<Arc<Vec<u8>>> for OwnedBlob {
    closed spec fn obeys_from_spec() -> bool {
        false
    }

    closed spec fn from_spec(v: Arc<Vec<u8>>) -> Self {
        arbitrary()
    }
}

impl<const N: usize> vstd::std_specs::convert::FromSpecImpl<Arc<[u8; N]>> for OwnedBlob {
    closed spec fn obeys_from_spec() -> bool {
        false
    }

    closed spec fn from_spec(v: Arc<[u8; N]>) -> Self {
        arbitrary()
    }
}

/// no object is larger than isize::MAX
#[verifier::external_body]
proof fn axiom_slice_len(s: &[u8])
    ensures
        s@.len() <= isize::MAX,
{
}

impl Default for Detached {
    fn default() -> Self {
        Detached
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Blobs as byte strings: order, hashing, ranges
// ---------------------------------------------------------------------------------------------------------------

impl<'a> Blob<'a> {
    /// something keeps the bytes alive
    pub closed spec fn owned(&self) -> bool {
        self.owner is Some
    }

    /// what keeps the bytes of that blob alive keeps these alive
    pub closed spec fn same_owner<'b>(&self, that: &Blob<'b>) -> bool {
        self.owner == that.owner
    }
}

/// the lexicographic order of byte strings (`Ord for [u8]`)
spec fn byte_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len(),
{
    if a.len() == 0 {
        if b.len() == 0 { Ordering::Equal } else { Ordering::Less }
    } else if b.len() == 0 {
        Ordering::Greater
    } else if a[0] < b[0] {
        Ordering::Less
    } else if a[0] > b[0] {
        Ordering::Greater
    } else {
        byte_cmp(a.drop_first(), b.drop_first())
    }
}

/// the order of blobs is one: it agrees with equality, and it is antisymmetric
proof fn lemma_byte_cmp(a: Seq<u8>, b: Seq<u8>)
    ensures
        (byte_cmp(a, b) == Ordering::Equal) == (a == b),
        (byte_cmp(a, b) == Ordering::Less) == (byte_cmp(b, a) == Ordering::Greater),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_byte_cmp(a.drop_first(), b.drop_first());
        assert(a == seq![a[0]] + a.drop_first());
        assert(b == seq![b[0]] + b.drop_first());
    } else {
        assert(a.len() == 0 && b.len() == 0 ==> a =~= b);
    }
}

/// `a.cmp(b)` of slices
#[verifier::external_body]
fn slice_cmp(a: &[u8], b: &[u8]) -> (r: Ordering)
    ensures
        r == byte_cmp(a@, b@),
{
    unimplemented!()
}

/// `std::hash::Hasher`: what it has been fed so far
trait Hasher {
    spec fn fed(&self) -> Seq<Seq<u8>>;
}

/// `Hash for [u8]`: feeds the bytes
trait FeedBytes {
    fn hash<H: Hasher>(&self, state: &mut H)
        ensures
            final(state).fed() == old(state).fed().push(self.bytes_of()),
    ;

    spec fn bytes_of(&self) -> Seq<u8>;
}

impl FeedBytes for [u8] {
    spec fn bytes_of(&self) -> Seq<u8> {
        self@
    }

    #[verifier::external_body]
    fn hash<H: Hasher>(&self, state: &mut H) {
        unimplemented!()
    }
}

/// `std::ops::Bound`
enum Bound<T> {
    Included(T),
    Excluded(T),
    Unbounded,
}

/// `std::ops::RangeBounds<usize>` (bounds by value)
trait RangeOf {
    spec fn lo(&self) -> Bound<usize>;

    spec fn hi(&self) -> Bound<usize>;

    fn start_bound(&self) -> (r: Bound<usize>)
        ensures
            r == self.lo(),
    ;

    fn end_bound(&self) -> (r: Bound<usize>)
        ensures
            r == self.hi(),
    ;
}

/// the first index of the range, and the one behind its last
spec fn range_lo<R: RangeOf>(r: R) -> int {
    match r.lo() {
        Bound::Included(n) => n as int,
        Bound::Excluded(n) => n + 1,
        Bound::Unbounded => 0,
    }
}

spec fn range_hi<R: RangeOf>(r: R, len: nat) -> int {
    match r.hi() {
        Bound::Included(n) => n + 1,
        Bound::Excluded(n) => n as int,
        Bound::Unbounded => len as int,
    }
}

impl RangeOf for std::ops::Range<usize> {
    spec fn lo(&self) -> Bound<usize> {
        Bound::Included(self.start)
    }

    spec fn hi(&self) -> Bound<usize> {
        Bound::Excluded(self.end)
    }

    fn start_bound(&self) -> (r: Bound<usize>) {
        Bound::Included(self.start)
    }

    fn end_bound(&self) -> (r: Bound<usize>) {
        Bound::Excluded(self.end)
    }
}

/// an assertion that is there to refuse an argument: it does not return unless the condition holds
#[verifier::external_body]
fn refuse_unless(c: bool)
    ensures
        c,
{
    assert!(c)
}

/// `expect` on an argument
trait OrRefuse {
    type T;

    spec fn got(self) -> Option<Self::T>;

    fn or_refuse(self) -> (r: Self::T) where Self: Sized
        ensures
            self.got() == Some(r),
    ;
}

impl<T> OrRefuse for Option<T> {
    type T = T;

    spec fn got(self) -> Option<T> {
        self
    }

    #[verifier::external_body]
    fn or_refuse(self) -> T {
        self.unwrap()
    }
}

/// where a slice lies in memory
uninterp spec fn addr_of(s: &[u8]) -> int;

/// `s.as_ptr() as usize`
#[verifier::external_body]
fn addr(s: &[u8]) -> (r: usize)
    ensures
        r == addr_of(s),
        r + s@.len() <= usize::MAX,
{
    unimplemented!()
}
