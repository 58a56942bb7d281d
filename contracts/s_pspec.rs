// ---------------------------------------------------------------------------------------------------------------
// the paged file: a log of blobs, each followed by its length; the id of a blob is its end
// ---------------------------------------------------------------------------------------------------------------

/// the length of the blob that ends at id
spec fn blen(b: Seq<u8>, id: int) -> int {
    un(b.subrange(id - 4, id)) as int
}

/// there is room for a blob that ends at id
spec fn fits(b: Seq<u8>, id: int) -> bool {
    4 <= id <= b.len() && blen(b, id) + 4 <= id
}

/// the blob that ends at id
spec fn entry(b: Seq<u8>, id: int) -> Seq<u8> {
    b.subrange(id - 4 - blen(b, id), id - 4)
}

/// a blob that has been written: it does not cross the end of a page
spec fn valid(b: Seq<u8>, ps: int, id: int) -> bool {
    4 <= id <= b.len() && blen(b, id) + 4 <= id % ps
}

/// blobs only depend on what precedes their end
proof fn lemma_entry_prefix(a: Seq<u8>, b: Seq<u8>, id: int)
    requires
        0 <= id <= a.len(),
        id <= b.len(),
        a.take(id) == b.take(id),
    ensures
        id >= 4 ==> blen(a, id) == blen(b, id),
        fits(a, id) == fits(b, id),
        fits(a, id) ==> entry(a, id) == entry(b, id),
        forall|ps: int| valid(a, ps, id) == valid(b, ps, id),
{
    if id >= 4 {
        assert(a.subrange(id - 4, id) =~= a.take(id).subrange(id - 4, id));
        assert(b.subrange(id - 4, id) =~= b.take(id).subrange(id - 4, id));
        if fits(a, id) {
            let n = blen(a, id);
            assert(a.subrange(id - 4 - n, id - 4) =~= a.take(id).subrange(id - 4 - n, id - 4));
            assert(b.subrange(id - 4 - n, id - 4) =~= b.take(id).subrange(id - 4 - n, id - 4));
        }
    }
}

proof fn lemma_take_take(a: Seq<u8>, b: Seq<u8>, n: int, k: int)
    requires
        0 <= k <= n <= a.len(),
        n <= b.len(),
        a.take(n) == b.take(n),
    ensures
        a.take(k) == b.take(k),
{
    assert(a.take(k) =~= a.take(n).take(k));
    assert(b.take(k) =~= b.take(n).take(k));
}

/// a blob within a page
proof fn lemma_entry_page(b: Seq<u8>, ps: int, id: int)
    requires
        ps > 0,
        4 <= id <= b.len(),
        (id - 1) / ps * ps + ps <= b.len(),
        id % ps >= 4,
    ensures
        ({
            let p = (id - 1) / ps;
            let pg = b.subrange(p * ps, p * ps + ps);
            let o = id % ps;
            &&& o == id - p * ps
            &&& 4 <= o < ps
            &&& p * ps >= 0
            &&& blen(pg, o) == blen(b, id)
            &&& fits(pg, o) == valid(b, ps, id)
            &&& fits(pg, o) ==> fits(b, id) && entry(pg, o) == entry(b, id)
        }),
{
    let p = (id - 1) / ps;
    let o = id % ps;
    lemma_page_of(id - 1, ps);
    assert(id - p * ps <= ps);
    if id == p * ps + ps {
        assert((p + 1) * ps == p * ps + ps) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(id, ps, p + 1, 0);
    }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(id, ps, p, id - p * ps);
    assert(p * ps >= 0) by (nonlinear_arith)
        requires
            p >= 0,
            ps > 0,
    ;
    let pg = b.subrange(p * ps, p * ps + ps);
    assert(pg.subrange(o - 4, o) =~= b.subrange(id - 4, id));
    if fits(pg, o) {
        let n = blen(b, id);
        assert(pg.subrange(o - 4 - n, o - 4) =~= b.subrange(id - 4 - n, id - 4));
    }
}

/// no page is larger
spec const PSMAX: nat = 0x2000_0000_0000_0000;

/// what is on the disk is there, and the header covers it
spec fn synced_ok(f: File) -> bool {
    f.synced() > 0 ==> 4096 <= f.synced() <= f.content().len() && f.synced() <= hsize(f.content()) + 4096
}

spec fn zeros(n: nat) -> Seq<u8> {
    Seq::new(n, |i: int| 0u8)
}

impl Owner for PageInner {
    closed spec fn owns(&self, s: Seq<u8>) -> bool {
        exists|i: int, j: int| 0 <= i <= j <= self.mmap.view().len() && s == self.mmap.view().subrange(i, j)
    }
}

proof fn lemma_owns(p: &PageInner, i: int, j: int)
    requires
        0 <= i <= j <= p.mmap.view().len(),
    ensures
        p.owns(p.mmap.view().subrange(i, j)),
{
}

impl PageInner {
    spec fn inv(&self) -> bool {
        self.mmap.view().len() == self.page_size
    }
}

impl Inner {
    spec fn body(&self) -> Seq<u8> {
        self.file.content().skip(4096)
    }

    spec fn ps(&self) -> int {
        self.page_size as int
    }

    /// a file that can be used by this library
    spec fn finv(&self) -> bool {
        &&& 0 < self.page_size <= PSMAX
        &&& self.page_size % 8 == 0
        &&& 4096 <= self.file.content().len() <= MAXLEN
        &&& self.file.mapped() <= self.file.content().len()
        &&& synced_ok(self.file)
        &&& forall|p: u64| #[trigger] self.pages.m().contains_key(p) ==> self.page_ok(p, self.pages.m()[p])
    }

    spec fn page_ok(&self, p: u64, x: Page) -> bool {
        &&& p * self.ps() + self.ps() <= self.body().len()
        &&& p * self.ps() >= 0
        &&& x.0.mmap.view() == self.body().subrange(p * self.ps(), p * self.ps() + self.ps())
        &&& x.0.mmap.view().len() == x.0.page_size
    }

    spec fn recent_ok(&self, k: u64, x: OwnedBlob) -> bool {
        k <= self.last_id && fits(self.body(), k as int) && x@ == entry(self.body(), k as int)
    }

    spec fn inv(&self) -> bool {
        &&& self.finv()
        &&& 4096 + self.last_id <= self.file.content().len()
        &&& forall|k: u64| #[trigger] self.recent.m().contains_key(k) ==> self.recent_ok(k, self.recent.m()[k])
        // the header covers everything that was handed out
        &&& !self.file.faulty() ==> self.last_id <= hsize(self.file.content()) && hsize(self.file.content()) + 4096 <= self.file.content().len()
    }

    /// everything up to the last blob is unchanged
    spec fn keeps(&self, o: &Inner) -> bool {
        &&& self.page_size == o.page_size
        &&& self.last_id >= o.last_id
        &&& self.body().len() >= o.last_id
        &&& self.body().take(o.last_id as int) == o.body().take(o.last_id as int)
        &&& (o.file.faulty() ==> self.file.faulty())
        &&& self.file.synced() >= o.file.synced()
        &&& self.file.dead() == o.file.dead()
    }
}

/// a change above the header leaves the pages alone
proof fn lemma_pages(a: Inner, b: Inner)
    requires
        forall|p: u64| #[trigger] a.pages.m().contains_key(p) ==> a.page_ok(p, a.pages.m()[p]),
        a.page_size == b.page_size,
        b.pages.m() == a.pages.m(),
        b.body().len() >= a.body().len(),
        b.body().take(a.body().len() as int) == a.body(),
    ensures
        forall|p: u64| #[trigger] b.pages.m().contains_key(p) ==> b.page_ok(p, b.pages.m()[p]),
{
    assert forall|p: u64| #[trigger] b.pages.m().contains_key(p) implies b.page_ok(p, b.pages.m()[p]) by {
        assert(a.pages.m().contains_key(p));
        assert(a.page_ok(p, a.pages.m()[p]));
        let i = p * a.ps();
        assert(b.body().subrange(i, i + a.ps()) =~= b.body().take(a.body().len() as int).subrange(i, i + a.ps()));
    }
}

proof fn lemma_recent(a: Inner, b: Inner)
    requires
        forall|k: u64| #[trigger] a.recent.m().contains_key(k) ==> a.recent_ok(k, a.recent.m()[k]),
        sub(b.recent.m(), a.recent.m()),
        a.last_id <= a.body().len(),
        b.keeps(&a),
    ensures
        forall|k: u64| #[trigger] b.recent.m().contains_key(k) ==> b.recent_ok(k, b.recent.m()[k]),
{
    assert forall|k: u64| #[trigger] b.recent.m().contains_key(k) implies b.recent_ok(k, b.recent.m()[k]) by {
        assert(a.recent.m().contains_key(k) && a.recent.m()[k] == b.recent.m()[k]);
        assert(a.recent_ok(k, a.recent.m()[k]));
        lemma_take_take(a.body(), b.body(), a.last_id as int, k as int);
        lemma_entry_prefix(a.body(), b.body(), k as int);
    }
}

impl Hist for Inner {
    spec fn hinv(&self) -> bool {
        self.inv()
    }

    spec fn ent(&self, k: nat) -> Option<Seq<u8>> {
        if k <= self.last_id && fits(self.body(), k as int) { Some(entry(self.body(), k as int)) } else { None }
    }

    spec fn stable(&self) -> nat {
        self.file.synced()
    }
}

proof fn lemma_log(a: Inner, b: Inner)
    requires
        a.inv(),
        b.keeps(&a),
    ensures
        extends(b, a),
        b.stable() >= a.stable(),
{
    assert forall|k: nat| #[trigger] a.ent(k) is Some implies b.ent(k) == a.ent(k) by {
        lemma_take_take(a.body(), b.body(), a.last_id as int, k as int);
        lemma_entry_prefix(a.body(), b.body(), k as int);
    }
}

/// the file has grown (and the header may have changed)
proof fn lemma_grow(a: Inner, b: Inner)
    requires
        a.inv(),
        b.page_size == a.page_size,
        b.pages == a.pages,
        b.recent == a.recent,
        b.last_id == a.last_id,
        b.file.mapped() == a.file.mapped(),
        a.file.content().len() <= b.file.content().len() <= MAXLEN,
        forall|i: int| 4096 <= i < a.file.content().len() ==> #[trigger] b.file.content()[i] == a.file.content()[i],
        a.file.faulty() ==> b.file.faulty(),
        a.file.dead() == b.file.dead(),
        a.file.synced() <= b.file.synced(),
        synced_ok(b.file),
        !b.file.faulty() ==> (hsize(b.file.content()) == hsize(a.file.content()) || b.last_id <= hsize(b.file.content()) && hsize(b.file.content()) + 4096 <= b.file.content().len()),
    ensures
        b.inv(),
        b.keeps(&a),
        b.body().len() >= a.body().len(),
        b.body().take(a.body().len() as int) == a.body(),
        forall|k: int| 0 <= k <= a.body().len() ==> b.body().take(k) == #[trigger] a.body().take(k),
{
    assert(b.body().take(a.body().len() as int) =~= a.body());
    assert forall|k: int| 0 <= k <= a.body().len() implies b.body().take(k) == #[trigger] a.body().take(k) by {
        assert(b.body().take(k) =~= a.body().take(k));
    }
    assert(b.body().take(a.last_id as int) =~= a.body().take(a.last_id as int));
    lemma_pages(a, b);
    lemma_recent(a, b);
}

proof fn lemma_hsize(a: Seq<u8>, b: Seq<u8>)
    requires
        a.len() >= 24,
        b.len() >= 24,
        forall|i: int| 16 <= i < 24 ==> a[i] == b[i],
    ensures
        hsize(a) == hsize(b),
{
    assert(a.subrange(16, 24) =~= b.subrange(16, 24));
}

/// the page of a position
proof fn lemma_page_of(o: int, ps: int)
    requires
        o >= 0,
        ps > 0,
    ensures
        0 <= o / ps,
        o / ps * ps <= o < o / ps * ps + ps,
        o == o / ps * ps + o % ps,
        0 <= o % ps < ps,
{
    assert(0 <= o / ps && o / ps * ps <= o < o / ps * ps + ps && o == o / ps * ps + o % ps && 0 <= o % ps < ps) by (nonlinear_arith)
        requires
            o >= 0,
            ps > 0,
    ;
}

proof fn lemma_bytes(a: Inner, id: u64)
    requires
        a.inv(),
        4 <= id <= a.last_id,
    ensures
        (id - 1) / a.ps() >= 0,
        (id - 1) / a.ps() < a.last_id as int / a.ps() ==> (id - 1) / a.ps() * a.ps() + a.ps() <= a.body().len(),
        valid(a.body(), a.ps(), id as int) ==> fits(a.body(), id as int),
        (id - 1) / a.ps() < a.last_id as int / a.ps() ==> ({
            let b = a.body();
            let p = (id - 1) / a.ps();
            let pg = b.subrange(p * a.ps(), p * a.ps() + a.ps());
            let o = id as int % a.ps();
            &&& o < pg.len()
            &&& fits(pg, o) == valid(b, a.ps(), id as int)
            &&& fits(pg, o) ==> fits(b, id as int) && entry(pg, o) == entry(b, id as int)
        }),
{
    let ps = a.ps();
    let p = (id - 1) / ps;
    let l = a.last_id as int;
    lemma_page_of(id - 1, ps);
    lemma_page_of(l, ps);
    lemma_page_of(id as int, ps);
    assert(p < l / ps ==> p * ps + ps <= l) by (nonlinear_arith)
        requires
            ps > 0,
            l / ps * ps <= l,
    ;
    assert(id as int / ps * ps >= 0) by (nonlinear_arith)
        requires
            id as int / ps >= 0,
            ps > 0,
    ;
    assert(p * ps >= 0) by (nonlinear_arith)
        requires
            p >= 0,
            ps > 0,
    ;
    if p < l / ps && id as int % ps >= 4 {
        lemma_entry_page(a.body(), ps, id as int);
    }
}

/// where a blob of n bytes goes, if the file ends at o
proof fn lemma_place(o: int, s: int, n: int, ps: int)
    requires
        o >= 0,
        ps > 0,
        4 <= n <= ps - 4,
        s == (if (o + n) / ps != o / ps { o / ps * ps + ps } else { o }),
    ensures
        o <= s,
        (s + n) % ps >= n,
{
    lemma_page_of(o, ps);
    lemma_page_of(o + n, ps);
    let q = o / ps;
    if (o + n) / ps != q {
        assert((q + 1) * ps == q * ps + ps) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(s + n, ps, q + 1, n);
    }
}

proof fn lemma_appended(b: Seq<u8>, d: Seq<u8>, l: Seq<u8>, r: Seq<u8>)
    requires
        l.len() == 4,
        un(l) == d.len(),
        r == b + d + l,
    ensures
        fits(r, r.len() as int),
        blen(r, r.len() as int) == d.len(),
        entry(r, r.len() as int) == d,
{
    let n = r.len() as int;
    assert(r.subrange(n - 4, n) =~= l);
    assert(r.subrange(n - 4 - d.len(), n - 4) =~= d);
}

impl Hist for MapOf<u64, Arc<Vec<u8>>> {
    /// ids are handed out in order
    spec fn hinv(&self) -> bool {
        self.m().dom().len() <= isize::MAX && self.m().dom().finite() && forall|k: u64| #[trigger] self.m().contains_key(k) ==> k <= self.m().dom().len()
    }

    spec fn ent(&self, k: nat) -> Option<Seq<u8>> {
        if k <= u64::MAX && self.m().contains_key(k as u64) { Some(self.m()[k as u64]@) } else { None }
    }

    spec fn stable(&self) -> nat {
        0
    }
}

/// what `Inner::new` promises about a file that this library has written (see there) is enough: nothing is lost by reopening
proof fn lemma_reopen(a: Inner, b: Inner)
    requires
        a.inv(),
        !a.file.faulty(),
        b.inv(),
        b.last_id == hsize(a.file.content()),
        b.body() == resize(a.file.content().skip(4096), b.last_id as int),
    ensures
        extends(b, a),
        forall|id: int| 0 <= id <= a.last_id && valid(a.body(), a.ps(), id) ==> #[trigger] valid(b.body(), a.ps(), id),
{
    assert forall|k: nat| #[trigger] a.ent(k) is Some implies b.ent(k) == a.ent(k) by {
        assert(b.body().take(k as int) =~= a.body().take(k as int));
        lemma_entry_prefix(a.body(), b.body(), k as int);
    }
    assert forall|id: int| 0 <= id <= a.last_id && valid(a.body(), a.ps(), id) implies #[trigger] valid(b.body(), a.ps(), id) by {
        assert(b.body().take(id) =~= a.body().take(id));
        lemma_entry_prefix(a.body(), b.body(), id);
    }
}

/// a crash: what was on the disk at the last sync is still there, everything else may be anything
spec fn crash(f: File, c: Seq<u8>) -> bool {
    f.synced() > 0 ==> {
        &&& c.len() >= f.synced()
        &&& forall|i: int| 4096 <= i < f.synced() ==> #[trigger] c[i] == f.content()[i]
        &&& hsize(c) + 4096 >= f.synced()
    }
}

/// after a crash: what `Inner::new` promises about a file is enough to find everything that was synced
proof fn lemma_crash(a: Inner, c: Seq<u8>, b: Inner)
    requires
        a.inv(),
        a.file.synced() > 0,
        crash(a.file, c),
        b.inv(),
        b.page_size == a.page_size,
        b.last_id == hsize(c),
        b.body() == resize(c.skip(4096), b.last_id as int),
    ensures
        b.last_id + 4096 >= a.file.synced(),
        forall|k: nat| k <= a.last_id && k + 4096 <= a.file.synced() ==> #[trigger] b.ent(k) == a.ent(k),
        forall|k: int| 0 <= k && k + 4096 <= a.file.synced() ==> #[trigger] valid(b.body(), a.ps(), k) == valid(a.body(), a.ps(), k),
{
    assert forall|k: nat| k <= a.last_id && k + 4096 <= a.file.synced() implies #[trigger] b.ent(k) == a.ent(k) by {
        assert(b.body().take(k as int) =~= a.body().take(k as int));
        lemma_entry_prefix(a.body(), b.body(), k as int);
    }
    assert forall|k: int| 0 <= k && k + 4096 <= a.file.synced() implies #[trigger] valid(b.body(), a.ps(), k) == valid(a.body(), a.ps(), k) by {
        assert(b.body().take(k) =~= a.body().take(k));
        lemma_entry_prefix(a.body(), b.body(), k);
    }
}
