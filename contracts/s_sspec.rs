/// the stores that are shipped with the library (C13)

// ---------------------------------------------------------------------------------------------------------------
// numbers as bytes
// ---------------------------------------------------------------------------------------------------------------

/// big endian
spec fn un(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { un(s.drop_last()) * 256 + s.last() as nat }
}

proof fn lemma_un_zero(s: Seq<u8>)
    requires
        forall|i: int| 0 <= i < s.len() ==> s[i] == 0,
    ensures
        un(s) == 0,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_un_zero(s.drop_last());
    }
}

proof fn lemma_un_inj(a: Seq<u8>, b: Seq<u8>)
    requires
        a.len() == b.len(),
        un(a) == un(b),
    ensures
        a == b,
    decreases a.len(),
{
    if a.len() > 0 {
        let x = un(a.drop_last());
        let y = un(b.drop_last());
        let p = a.last() as nat;
        let q = b.last() as nat;
        assert(x * 256 + p == y * 256 + q);
        assert(x == y && p == q) by (nonlinear_arith)
            requires
                x * 256 + p == y * 256 + q,
                p < 256,
                q < 256,
        ;
        lemma_un_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else {
        assert(a =~= b);
    }
}

/// `u64::from_be_bytes`
#[verifier::external_body]
fn u64_from_be(b: [u8; 8]) -> (r: u64)
    ensures
        r == un(b@),
{
    u64::from_be_bytes(b)
}

/// `u32::from_be_bytes`
#[verifier::external_body]
fn u32_from_be(b: [u8; 4]) -> (r: u32)
    ensures
        r == un(b@),
{
    u32::from_be_bytes(b)
}

/// `to_be_bytes`
trait BeBytes {
    type Bytes;

    fn be_bytes(self) -> Self::Bytes;
}

impl BeBytes for u64 {
    type Bytes = [u8; 8];

    #[verifier::external_body]
    fn be_bytes(self) -> (r: [u8; 8])
        ensures
            un(r@) == self,
            r@.len() == 8,
    {
        self.to_be_bytes()
    }
}

impl BeBytes for u32 {
    type Bytes = [u8; 4];

    #[verifier::external_body]
    fn be_bytes(self) -> (r: [u8; 4])
        ensures
            un(r@) == self,
            r@.len() == 4,
    {
        self.to_be_bytes()
    }
}

/// `[u8]::try_into::<[u8; N]>`
#[derive(Debug)]
struct ArrErr;

impl From<ArrErr> for AnyErr {
    fn from(e: ArrErr) -> (r: AnyErr) {
        AnyErr
    }
}

#[verifier::external_body]
fn to_array<const N: usize>(s: &[u8]) -> (r: Result<[u8; N], ArrErr>)
    ensures
        r is Ok <==> s@.len() == N,
        r is Ok ==> r->Ok_0@ == s@,
{
    s.try_into().map_err(|_| ArrErr)
}

// ---------------------------------------------------------------------------------------------------------------
// locks: whoever holds the lock sees some state that a former holder has left, and must leave a state that extends it
// ---------------------------------------------------------------------------------------------------------------

trait Hist: Sized {
    spec fn hinv(&self) -> bool;

    /// everything that has been written so far
    spec fn ent(&self, k: nat) -> Option<Seq<u8>>;

    /// what has been written up to here survives a crash
    spec fn stable(&self) -> nat;
}

/// nothing that was written is lost or changed
spec fn extends<T: Hist>(b: T, a: T) -> bool {
    forall|k: nat| #[trigger] a.ent(k) is Some ==> b.ent(k) == a.ent(k)
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct Mutex<T> {
    t: T,
}

impl<T: Hist> Mutex<T> {
    /// t is one of the states of the protected value
    uninterp spec fn hist(&self, t: T) -> bool;

    /// t was the protected value at some moment during the present call
    uninterp spec fn during(&self, t: T) -> bool;

    /// the union of the logs of all states
    uninterp spec fn limit(&self, k: nat) -> Option<Seq<u8>>;

    #[verifier::external_body]
    fn new(t: T) -> (r: Mutex<T>)
        requires
            t.hinv(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn lock(&self) -> (r: &mut T)
        ensures
            self.hist(*r),
            self.during(*r),
            r.hinv(),
            forall|k: nat| #[trigger] r.ent(k) is Some ==> self.limit(k) == r.ent(k),
    {
        unimplemented!()
    }

    /// unlocking: an obligation of the holder
    #[verifier::external_body]
    proof fn release(&self, before: T, after: T)
        requires
            self.hist(before),
            self.during(before),
            after.hinv(),
            extends(after, before),
            after.stable() >= before.stable(),
        ensures
            self.hist(after),
            self.during(after),
            forall|k: nat| #[trigger] after.ent(k) is Some ==> self.limit(k) == after.ent(k),
    {
    }
}

// ---------------------------------------------------------------------------------------------------------------
// files: a byte string, a position, and the part that is mapped into memory; nobody else writes to it
// ---------------------------------------------------------------------------------------------------------------

#[derive(Debug)]
struct IoErr;

impl From<IoErr> for AnyErr {
    fn from(e: IoErr) -> (r: AnyErr) {
        AnyErr
    }
}

enum SeekFrom {
    Start(u64),
    End(i64),
    Current(i64),
}

#[verifier::external_body]
struct File {
    f: u8,
}

/// no file is larger
spec const MAXLEN: nat = 0x4000_0000_0000_0000;

/// byte string arguments
trait Buf {
    spec fn bs(&self) -> Seq<u8>;
}

impl Buf for [u8] {
    spec fn bs(&self) -> Seq<u8> {
        self@
    }
}

impl Buf for Vec<u8> {
    spec fn bs(&self) -> Seq<u8> {
        self@
    }
}

impl<const N: usize> Buf for [u8; N] {
    spec fn bs(&self) -> Seq<u8> {
        self@
    }
}

spec fn overwrite(c: Seq<u8>, p: int, d: Seq<u8>) -> Seq<u8> {
    c.take(p) + d + (if p + d.len() <= c.len() { c.skip(p + d.len()) } else { Seq::empty() })
}

/// the size that is recorded in the header
spec fn hsize(c: Seq<u8>) -> nat {
    un(c.subrange(16, 24))
}

/// writing into the header is harmless, if the size does not become less
spec fn header_write(pos: int, d: Seq<u8>, synced: nat) -> bool {
    pos + d.len() <= 16 || (24 <= pos && pos + d.len() <= 4096) || (pos == 16 && d.len() == 8 && un(d) + 4096 >= synced)
}

spec fn resize(c: Seq<u8>, n: int) -> Seq<u8> {
    if n <= c.len() { c.take(n) } else { c + Seq::new((n - c.len()) as nat, |i: int| 0u8) }
}

impl File {
    uninterp spec fn content(&self) -> Seq<u8>;

    uninterp spec fn pos(&self) -> nat;

    /// bytes from the header up to here are mapped into memory and must not change any more
    uninterp spec fn mapped(&self) -> nat;

    /// 0 before the first sync. Otherwise the end of what the header covered at the last successful sync: what lies
    /// between the header and here is on the disk and must not be touched any more, and the header must go on covering it.
    /// The size field of the header is written in one piece
    uninterp spec fn synced(&self) -> nat;

    /// the operating system has reported an error
    uninterp spec fn faulty(&self) -> bool;

    /// the operating system will have reported an error in the end (a prophecy)
    uninterp spec fn dead(&self) -> bool;

    spec fn same(&self, o: &File) -> bool {
        self.content() == o.content() && self.mapped() == o.mapped() && self.synced() == o.synced() && self.dead() == o.dead() && (o.faulty() ==> self.faulty())
    }

    #[verifier::external_body]
    fn seek(&mut self, to: SeekFrom) -> (r: Result<u64, IoErr>)
        requires
            to is Start || to == SeekFrom::End(0),
        ensures
            final(self).same(old(self)),
            final(self).content().len() <= MAXLEN,
            r is Ok ==> final(self).faulty() == old(self).faulty() && r->Ok_0 == final(self).pos() && final(self).pos() == (match to { SeekFrom::Start(n) => n as nat, _ => old(self).content().len() }),
            r is Err ==> final(self).faulty() && final(self).dead(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn stream_position(&mut self) -> (r: Result<u64, IoErr>)
        ensures
            final(self).same(old(self)),
            r is Ok ==> final(self).faulty() == old(self).faulty() && r->Ok_0 == final(self).pos() && final(self).pos() == old(self).pos(),
            r is Err ==> final(self).faulty() && final(self).dead(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn read_exact<B: Buf>(&mut self, b: &mut B) -> (r: Result<(), IoErr>)
        ensures
            final(self).same(old(self)),
            final(b).bs().len() == old(b).bs().len(),
            r is Ok ==> final(self).faulty() == old(self).faulty() && old(self).pos() + old(b).bs().len() <= old(self).content().len() && final(b).bs() == old(self).content().subrange(old(self).pos() as int, (old(self).pos() + old(b).bs().len()) as int) && final(self).pos() == old(self).pos() + old(b).bs().len(),
            r is Err ==> (final(self).faulty() && final(self).dead()) || old(self).pos() + old(b).bs().len() > old(self).content().len(),
    {
        unimplemented!()
    }

    /// never into a part that is mapped, never leaving a hole
    #[verifier::external_body]
    fn write_all<B: Buf + ?Sized>(&mut self, b: &B) -> (r: Result<(), IoErr>)
        requires
            old(self).pos() <= old(self).content().len(),
            old(self).pos() >= old(self).mapped() || old(self).pos() + b.bs().len() <= 4096,
            old(self).pos() >= old(self).synced() || header_write(old(self).pos() as int, b.bs(), old(self).synced()),
        ensures
            final(self).mapped() == old(self).mapped(),
            final(self).synced() == old(self).synced(),
            final(self).dead() == old(self).dead(),
            old(self).faulty() ==> final(self).faulty(),
            final(self).content().len() <= MAXLEN,
            final(self).content().len() >= old(self).content().len(),
            old(self).pos() == 16 && b.bs().len() == 8 && old(self).content().len() >= 24 ==> hsize(final(self).content()) == hsize(old(self).content()) || hsize(final(self).content()) == un(b.bs()),
            forall|i: int| 0 <= i < old(self).content().len() && (i < old(self).pos() || i >= old(self).pos() + b.bs().len()) ==> #[trigger] final(self).content()[i] == old(self).content()[i],
            r is Ok ==> final(self).faulty() == old(self).faulty() && final(self).content() == overwrite(old(self).content(), old(self).pos() as int, b.bs()) && final(self).pos() == old(self).pos() + b.bs().len(),
            r is Err ==> final(self).faulty() && final(self).dead(),
    {
        unimplemented!()
    }

    /// never cutting off a part that is mapped
    #[verifier::external_body]
    fn set_len(&mut self, n: u64) -> (r: Result<(), IoErr>)
        requires
            n >= old(self).mapped(),
            n >= old(self).synced(),
        ensures
            final(self).mapped() == old(self).mapped(),
            final(self).synced() == old(self).synced(),
            final(self).dead() == old(self).dead(),
            old(self).faulty() ==> final(self).faulty(),
            final(self).content().len() <= MAXLEN,
            r is Ok ==> final(self).faulty() == old(self).faulty() && final(self).content() == resize(old(self).content(), n as int) && final(self).pos() == old(self).pos(),
            r is Err ==> final(self).faulty() && final(self).dead(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<(), IoErr>)
        ensures
            final(self).same(old(self)),
            final(self).pos() == old(self).pos(),
            r is Ok ==> final(self).faulty() == old(self).faulty(),
            r is Err ==> final(self).faulty() && final(self).dead(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn sync_all(&mut self) -> (r: Result<(), IoErr>)
        ensures
            final(self).content() == old(self).content(),
            final(self).mapped() == old(self).mapped(),
            old(self).faulty() ==> final(self).faulty(),
            final(self).pos() == old(self).pos(),
            final(self).dead() == old(self).dead(),
            final(self).synced() == (if r is Ok && old(self).content().len() >= 4096 && hsize(old(self).content()) + 4096 <= old(self).content().len() { hsize(old(self).content()) + 4096 } else { old(self).synced() }),
            r is Ok ==> final(self).faulty() == old(self).faulty(),
            r is Err ==> final(self).faulty() && final(self).dead(),
    {
        unimplemented!()
    }
}

/// `memmap::Mmap`
#[verifier::external_body]
struct Mmap {
    m: u8,
}

impl Mmap {
    uninterp spec fn view(&self) -> Seq<u8>;

    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures
            r == self.view().len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8])
        ensures
            r@ == self.view(),
    {
        unimplemented!()
    }
}

struct MmapOptions {
    o: u64,
    n: usize,
}

impl MmapOptions {
    fn new() -> (r: Self)
        ensures
            r.o == 0,
            r.n == 0,
    {
        MmapOptions { o: 0, n: 0 }
    }

    fn offset(self, o: u64) -> (r: Self)
        ensures
            r.o == o,
            r.n == self.n,
    {
        MmapOptions { o, n: self.n }
    }

    fn len(self, n: usize) -> (r: Self)
        ensures
            r.n == n,
            r.o == self.o,
    {
        MmapOptions { o: self.o, n }
    }

    /// the mapped range must exist; from now on it must not change
    #[verifier::external_body]
    unsafe fn map(&self, f: &mut File) -> (r: Result<Mmap, IoErr>)
        requires
            self.o >= 4096,
            self.o + self.n <= old(f).content().len(),
        ensures
            final(f).content() == old(f).content(),
            final(f).pos() == old(f).pos(),
            final(f).synced() == old(f).synced(),
            final(f).dead() == old(f).dead(),
            r is Ok ==> final(f).faulty() == old(f).faulty() && r->Ok_0.view() == old(f).content().subrange(self.o as int, self.o + self.n) && final(f).mapped() == (if old(f).mapped() >= self.o + self.n { old(f).mapped() } else { (self.o + self.n) as nat }),
            r is Err ==> final(f).faulty() && final(f).dead() && final(f).mapped() == old(f).mapped(),
    {
        unimplemented!()
    }
}

/// `FnvHashMap`, `BTreeMap`
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::accept_recursive_types(K)]
struct MapOf<K, V> {
    v: V,
    k: K,
}

spec fn sub<V>(b: Map<u64, V>, a: Map<u64, V>) -> bool {
    forall|k: u64| #[trigger] b.contains_key(k) ==> a.contains_key(k) && b[k] == a[k]
}

impl<V> MapOf<u64, V> {
    uninterp spec fn m(&self) -> Map<u64, V>;

    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures
            r.m() == Map::<u64, V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn insert(&mut self, k: u64, v: V) -> (r: Option<V>)
        ensures
            final(self).m() == old(self).m().insert(k, v),
            // every entry takes memory
            final(self).m().dom().len() <= isize::MAX,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn contains_key(&self, k: &u64) -> (r: bool)
        ensures
            r == self.m().contains_key(*k),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn get(&self, k: &u64) -> (r: Option<&V>)
        ensures
            r is Some <==> self.m().contains_key(*k),
            r is Some ==> *(r->0) == self.m()[*k],
    {
        unimplemented!()
    }

    /// some entries are dropped
    #[verifier::external_body]
    fn retain<F: FnMut(&u64, &mut V) -> bool>(&mut self, f: F)
        requires
            forall|k: &u64, v: &mut V| f.requires((k, v)),
        ensures
            sub(final(self).m(), old(self).m()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn len(&self) -> (r: usize)
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn keys(&self) -> (r: Keys<'_>)
        ensures
            r.m() == self.m().dom(),
    {
        unimplemented!()
    }
}

type FnvHashMap<K, V> = MapOf<K, V>;

type BTreeMap<K, V> = MapOf<K, V>;

#[verifier::external_body]
struct Keys<'a> {
    k: &'a u64,
}

impl<'a> Keys<'a> {
    uninterp spec fn m(&self) -> Set<u64>;

    /// the greatest key
    #[verifier::external_body]
    fn next_back(&mut self) -> (r: Option<&'a u64>)
        ensures
            r is None <==> old(self).m() == Set::<u64>::empty(),
            r is Some ==> old(self).m().contains(*(r->0)) && forall|k: u64| #[trigger] old(self).m().contains(k) ==> k <= *(r->0),
    {
        unimplemented!()
    }
}

trait Context<X> {
    fn context(self, m: &str) -> (r: Result<X, AnyErr>);
}

impl<X> Context<X> for Option<X> {
    fn context(self, m: &str) -> (r: Result<X, AnyErr>)
        ensures
            r is Ok <==> self is Some,
            r is Ok ==> r->Ok_0 == self->0,
    {
        match self { Some(x) => Ok(x), None => Err(AnyErr) }
    }
}
