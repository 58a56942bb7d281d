//@pre #[derive(Clone)]
pub struct PagedFileStore(Arc<Mutex<Inner>>);

struct Inner {
    file: File,
    page_size: u64,
    pages: FnvHashMap<u64, Page>,
    recent: FnvHashMap<u64, OwnedBlob>,
    last_id: u64,
}

const ALIGN: usize = 8;
const HEADER_SIZE: u64 = 4096;

struct PageInner {
    page_size: usize,
    mmap: Mmap,
}

impl PageInner {
    fn new(mmap: Mmap, page_size: usize) -> Self {
        //@spec requires mmap.view().len() == page_size,
        //@spec ensures r.mmap == mmap, r.page_size == page_size,
        assert!(mmap.len() == page_size);
        Self { mmap, page_size }
    }
}

struct Page(Arc<PageInner>);

impl Page {
    fn new(mmap: Mmap, page_size: usize) -> Self {
        //@spec requires mmap.view().len() == page_size,
        //@spec ensures r.0.mmap == mmap, r.0.page_size == page_size,
        assert!(mmap.len() == page_size);
        Self(Arc::new(PageInner::new(mmap, page_size)))
    }

    /// try to get the bytes at the given offset
    fn bytes(&self, offset: usize) -> anyhow::Result<OwnedBlob> {
        //@spec requires offset <= self.0.mmap.view().len(),
        //@spec ensures r is Ok <==> fits(self.0.mmap.view(), offset as int), r is Ok ==> r->Ok_0@ == entry(self.0.mmap.view(), offset as int),
        let data = self.0.mmap.as_ref();
        anyhow::ensure!(offset >= 4);
        let length = u32::from_be_bytes(data[offset - 4..offset].try_into().unwrap()) as usize;
        anyhow::ensure!(offset >= length + 4);
        let slice: &[u8] = &data[offset - 4 - length..offset - 4];
        let slice: &'static [u8] = unsafe { std::mem::transmute(slice) };
        //@ proof { let v = self.0.mmap.view(); assert(slice@ =~= v.subrange(offset - 4 - length, offset - 4)); lemma_owns(&*self.0, offset - 4 - length, offset - 4); }
        Ok(OwnedBlob::owned_new(slice, Some(self.0.clone())))
    }
}

fn page(offset: u64, page_size: u64) -> u64 {
    //@spec requires page_size > 0,
    //@spec ensures r == offset / page_size,
    offset / page_size
}

fn offset_within_page(offset: u64, page_size: u64) -> usize {
    //@spec requires page_size > 0,
    //@spec ensures r == offset % page_size,
    (offset % page_size) as usize
}

fn offset_of_page(page: u64, page_size: u64) -> u64 {
    //@spec requires page * page_size + 4096 <= u64::MAX,
    //@spec ensures r == page * page_size + 4096,
    page * page_size + HEADER_SIZE
}

fn read_size(file: &mut File) -> anyhow::Result<u64> {
    //@spec ensures final(file).same(old(file)), r is Ok ==> old(file).content().len() >= 24 && r->Ok_0 == hsize(old(file).content()) && final(file).pos() == final(file).content().len() && final(file).faulty() == old(file).faulty(), r is Err ==> (final(file).faulty() && final(file).dead()) || old(file).content().len() < 24,
    let mut buf = [0u8; 8];
    file.seek(SeekFrom::Start(16))?;
    file.read_exact(&mut buf)?;
    file.seek(SeekFrom::End(0))?;
    Ok(u64::from_be_bytes(buf))
}

fn write_size(file: &mut File, size: u64) -> anyhow::Result<()> {
    //@spec requires old(file).content().len() >= 4096, synced_ok(*old(file)), size + 4096 >= old(file).synced(),
    //@spec ensures final(file).mapped() == old(file).mapped(), (old(file).faulty() ==> final(file).faulty()), final(file).content().len() >= old(file).content().len(), final(file).content().len() <= MAXLEN, final(file).synced() == old(file).synced(), final(file).dead() == old(file).dead(), synced_ok(*final(file)),
    //@spec     forall|i: int| 4096 <= i < old(file).content().len() ==> #[trigger] final(file).content()[i] == old(file).content()[i],
    //@spec     r is Ok ==> final(file).faulty() == old(file).faulty() && final(file).content().len() == old(file).content().len() && hsize(final(file).content()) == size && final(file).pos() == final(file).content().len(), r is Err ==> final(file).faulty() && final(file).dead(),
    //@ let ghost c = file.content();
    file.seek(SeekFrom::Start(16))?;
    file.write_all(&size.to_be_bytes())?;
    //@~ let d = size.to_be_bytes();
    //@~ file.write_all(&d)?;
    //@ proof { assert(file.content().subrange(16, 24) =~= d@); }
    file.seek(SeekFrom::End(0))?;
    Ok(())
}

impl Inner {
    pub fn new(mut file: File, page_size: u64) -> anyhow::Result<Self> {
        //@spec requires file.mapped() == 0, 0 < page_size <= PSMAX, file.content().len() >= 4096 ==> hsize(file.content()) + 4096 <= MAXLEN, synced_ok(file),
        //@spec ensures r is Ok ==> r->Ok_0.inv() && r->Ok_0.page_size == page_size && r->Ok_0.file.faulty() == file.faulty() && r->Ok_0.file.synced() == file.synced() && r->Ok_0.file.dead() == file.dead(),
        //@spec     r is Err ==> file.dead() || page_size % 8 != 0 || 0 < file.content().len() < 4096,
        //@spec     r is Ok && file.content().len() == 0 ==> r->Ok_0.last_id == 0,
        //@spec     r is Ok && file.content().len() > 0 ==> file.content().len() >= 4096 && r->Ok_0.last_id == hsize(file.content()) && r->Ok_0.body() == resize(file.content().skip(4096), r->Ok_0.last_id as int),
        anyhow::ensure!((page_size as usize) % ALIGN == 0);
        //@ let ghost c = file.content();
        let end = file.seek(std::io::SeekFrom::End(0))?;
        if end == 0 {
            // write header
            file.set_len(HEADER_SIZE)?;
            //@ proof { lemma_un_zero(file.content().subrange(16, 24)); }
            file.seek(std::io::SeekFrom::End(0))?;
        } else if end < HEADER_SIZE {
            // something went seriously wrong
            anyhow::bail!("Incomplete header!");
        }
        let size = read_size(&mut file)?;
        //@ let ghost c1 = file.content();
        file.set_len(size + HEADER_SIZE)?;
        file.seek(std::io::SeekFrom::End(0))?;
        //@ proof { lemma_hsize(c1, file.content()); if c.len() > 0 { assert(file.content().skip(4096) =~= resize(c.skip(4096), size as int)); } }
        Ok(Self {
            file,
            page_size,
            pages: Default::default(),
            recent: Default::default(),
            last_id: size,
        })
    }

    fn load_page(&mut self, page: u64) -> anyhow::Result<()> {
        //@ let ghost a = *self;
        //@ proof { assert(page * a.ps() == page * a.page_size) by (nonlinear_arith) requires a.ps() == a.page_size; assert(page * a.ps() >= 0) by (nonlinear_arith) requires a.ps() >= 0; }
        //@spec requires old(self).finv(), page * old(self).ps() + old(self).ps() <= old(self).body().len(),
        //@spec ensures final(self).finv(), final(self).file.content() == old(self).file.content(), final(self).page_size == old(self).page_size, final(self).last_id == old(self).last_id, final(self).recent == old(self).recent, final(self).file.pos() == old(self).file.pos(), final(self).file.synced() == old(self).file.synced(), final(self).file.dead() == old(self).file.dead(),
        //@spec     (old(self).file.faulty() ==> final(self).file.faulty()), r is Ok ==> final(self).pages.m().contains_key(page) && final(self).file.faulty() == old(self).file.faulty(), r is Err ==> final(self).file.faulty(),
        let start = offset_of_page(page, self.page_size);
        let mmap = unsafe {
            MmapOptions::new()
                .offset(start)
                .len(self.page_size as usize)
                .map(&self.file)?
                //@~ .map(&mut self.file)?
        };
        //@ proof { assert(mmap.view() =~= a.body().subrange(page * a.ps(), page * a.ps() + a.ps())); }
        self.pages
            .insert(page, Page::new(mmap, self.page_size as usize));
        Ok(())
    }

    fn load_recent(&mut self, id: u64) -> anyhow::Result<()> {
        //@ let ghost b = self.body();
        //@ let ghost c = self.file.content();
        //@spec requires old(self).inv(), id <= old(self).last_id,
        //@spec ensures final(self).inv(), final(self).keeps(old(self)), final(self).last_id == old(self).last_id, final(self).file.content() == old(self).file.content(), r is Ok ==> final(self).recent.m().contains_key(id) && final(self).file.faulty() == old(self).file.faulty(), r is Err ==> final(self).file.faulty() || !fits(old(self).body(), id as int),
        anyhow::ensure!(id >= 4);
        self.file.seek(SeekFrom::Start(id + HEADER_SIZE - 4))?;
        let mut size = [0u8; 4];
        self.file.read_exact(&mut size)?;
        //@ proof { assert(size@ =~= b.subrange(id - 4, id as int)); }
        let size = u32::from_be_bytes(size) as u64;
        anyhow::ensure!(id >= 4 + size);
        self.file
            .seek(SeekFrom::Start(id + HEADER_SIZE - 4 - size))?;
        let mut buf = vec![0u8; size as usize];
        self.file.read_exact(&mut buf)?;
        //@ proof { assert(buf@ =~= entry(b, id as int)); }
        self.file.seek(SeekFrom::End(0))?;
        self.recent
            .insert(id, OwnedBlob::from_arc_vec(Arc::new(buf)));
        Ok(())
    }

    fn close_page(&mut self, current_page: u64) -> anyhow::Result<()> {
        //@ let ghost a = *self;
        //@ proof { lemma_page_of(a.body().len() as int, a.ps()); }
        //@spec requires old(self).inv(), old(self).file.pos() == old(self).file.content().len(), current_page == old(self).body().len() as int / old(self).ps(),
        //@spec ensures final(self).inv(), final(self).keeps(old(self)), final(self).last_id == old(self).last_id, final(self).body().len() >= old(self).body().len(),
        //@spec     r is Ok ==> final(self).body().len() == current_page * old(self).ps() + old(self).ps() && final(self).file.pos() == final(self).file.content().len() && final(self).file.faulty() == old(self).file.faulty(), r is Err ==> final(self).file.faulty(),
        // println!("close_page page={} offset={}", current_page, self.file.stream_position()?);
        let start = offset_of_page(current_page, self.page_size);
        self.pad_to(start + (self.page_size as u64))?;
        //@ let ghost b = *self;
        self.commit()?;
        //@ let ghost c = *self;
        self.load_page(current_page)?;
        //@ let ghost d = *self;
        self.recent
            .retain(|offset, _| page(*offset, self.page_size) != current_page);
        //@ proof { lemma_recent(c, *self); }
            //@~ .retain(|offset: &u64, _u: &mut OwnedBlob| -> (r: bool) requires self.page_size > 0 { page(*offset, self.page_size) != current_page });
        Ok(())
    }

    fn pad_to(&mut self, offset: u64) -> anyhow::Result<()> {
        //@spec requires old(self).inv(), old(self).file.pos() == old(self).file.content().len(),
        //@spec ensures final(self).inv(), final(self).keeps(old(self)), final(self).last_id == old(self).last_id, final(self).body().len() >= old(self).body().len(), final(self).body().take(old(self).body().len() as int) == old(self).body(),
        //@spec     r is Ok ==> final(self).file.content().len() == (if offset > old(self).file.content().len() { offset as nat } else { old(self).file.content().len() }) && final(self).file.pos() == final(self).file.content().len() && final(self).file.faulty() == old(self).file.faulty(), r is Err ==> final(self).file.faulty(),
        let padding = [0u8; 1024];
        //@ let ghost a = *self;
        //@ proof { assert(a.body().take(a.body().len() as int) =~= a.body()); }
        loop {
        //@spec invariant a == *old(self), self.inv(), self.keeps(&a), self.last_id == a.last_id, self.body().len() >= a.body().len(), self.body().take(a.body().len() as int) == a.body(), self.file.faulty() == a.file.faulty(), self.file.pos() == self.file.content().len(), a.inv(), self.file.content().len() <= (if offset > a.file.content().len() { offset as nat } else { a.file.content().len() }),
        //@spec ensures self.file.content().len() >= offset,
        //@spec decreases offset - self.file.content().len(),
        //@ let ghost b = *self;
            let pos = self.file.stream_position()?;
            if pos < offset {
                let n = (offset - pos).min(1024);
                self.file.write_all(&padding[..n as usize])?;
                //@~ let w = self.file.write_all(&padding[..n as usize]);
        //@ proof { lemma_hsize(b.file.content(), self.file.content()); lemma_grow(b, *self); }
                //@ w?;
            } else {
                break;
            }
        }
        Ok(())
    }

    fn bytes(&mut self, offset: u64) -> anyhow::Result<OwnedBlob> {
        //@ let ghost a = *self;
        //@ proof { if offset >= 4 && offset <= self.last_id { lemma_bytes(a, offset); } }
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).keeps(old(self)), final(self).last_id == old(self).last_id, final(self).body() == old(self).body(), r is Ok ==> offset <= old(self).last_id && fits(old(self).body(), offset as int) && r->Ok_0@ == entry(old(self).body(), offset as int),
        //@spec     r is Err ==> final(self).file.faulty() || offset > old(self).last_id || !valid(old(self).body(), old(self).ps(), offset as int),
        anyhow::ensure!(offset >= 4 && offset <= self.last_id, "unknown id");
        let last_page = page(self.last_id, self.page_size);
        let page = page(offset - 1, self.page_size);
        let page_offset = offset_within_page(offset, self.page_size);
        if page < last_page {
            if !self.pages.contains_key(&page) {
                self.load_page(page)?;
        //@ proof { lemma_recent(a, *self); }
            }
            let page = self.pages.get(&page).expect("page must exist");
            page.bytes(page_offset)
        } else {
            if !self.recent.contains_key(&offset) {
                self.load_recent(offset)?;
            }
            let blob = self.recent.get(&offset).expect("blob must exist");
            Ok(blob.clone())
        }
    }

    fn commit(&mut self) -> anyhow::Result<u64> {
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).keeps(old(self)), final(self).last_id == old(self).last_id, final(self).body().len() >= old(self).body().len(), final(self).body().take(old(self).body().len() as int) == old(self).body(),
        //@spec     r is Ok ==> final(self).body() == old(self).body() && hsize(final(self).file.content()) == r->Ok_0 && r->Ok_0 == final(self).body().len() && final(self).file.pos() == final(self).file.content().len() && final(self).file.faulty() == old(self).file.faulty() && final(self).recent == old(self).recent, r is Err ==> final(self).file.faulty(),
        //@ let ghost a = *self;
        let id = self.file.seek(SeekFrom::End(0))? - HEADER_SIZE;
        write_size(&mut self.file, id)?;
        //@~ let w = write_size(&mut self.file, id);
        //@ proof { lemma_grow(a, *self); assert(w is Ok ==> self.body() =~= a.body()); }
        //@ w?;
        self.file.flush()?;
        Ok(id)
    }

    fn append(&mut self, data: &[u8]) -> anyhow::Result<u64> {
        //@ let ghost a = *self;
        //@spec requires old(self).inv(),
        //@spec ensures final(self).inv(), final(self).keeps(old(self)),
        //@spec     r is Ok ==> r->Ok_0 > old(self).last_id && r->Ok_0 == final(self).last_id && fits(final(self).body(), r->Ok_0 as int) && valid(final(self).body(), old(self).ps(), r->Ok_0 as int) && entry(final(self).body(), r->Ok_0 as int) == data@,
        //@spec     r is Err ==> final(self).file.faulty() || data@.len() + 8 > old(self).ps() || data@.len() > u32::MAX,
        anyhow::ensure!(
            data.len() <= (self.page_size as usize) - 8,
            "block too large for this store"
        );
        anyhow::ensure!(
            data.len() <= u32::MAX as usize,
            "block too large for this store"
        );
        // len of the data when stored, including length prefix
        let len = data.len() as u64 + 4;
        let position = self.file.seek(SeekFrom::End(0))?;
        if position < HEADER_SIZE {
            panic!();
        }
        let offset = position - HEADER_SIZE;
        // new end
        let end = offset + len;
        //@ proof { lemma_page_of(offset as int, a.ps()); lemma_page_of(end as int, a.ps()); }
        let current_page = page(offset, self.page_size);
        let end_page = page(end, self.page_size);
        // check if we cross a page boundary
        if end_page != current_page {
            self.close_page(current_page)?;
        }
        //@ let ghost b = *self;
        //@ proof { lemma_place(a.body().len() as int, b.body().len() as int, len as int, a.ps()); }
        self.file.write_all(data)?;
        //@~ let w = self.file.write_all(data);
        //@ proof { lemma_hsize(b.file.content(), self.file.content()); lemma_grow(b, *self); }
        //@ w?;
        //@ let ghost c = *self;
        self.file.write_all(&(data.len() as u32).to_be_bytes())?;
        //@~ let d = (data.len() as u32).to_be_bytes();
        //@~ let w = self.file.write_all(&d);
        //@ proof { lemma_hsize(c.file.content(), self.file.content()); lemma_grow(c, *self); }
        //@ w?;
        let id = self.commit()?;
        //@ proof { assert(self.body() =~= b.body() + data@ + d@); lemma_appended(b.body(), data@, d@, self.body()); lemma_page_of(id as int, a.ps()); }
        self.last_id = id;
        self.recent.insert(id, OwnedBlob::copy_from_slice(data));
        //@ proof { assert(self.body().take(a.last_id as int) =~= a.body().take(a.last_id as int)); }
        if id % self.page_size < 4 {
            assert!(id % 1024 > 4);
        }
        Ok(id)
    }
}

impl PagedFileStore {
    pub fn new(file: File, page_size: u64) -> anyhow::Result<Self> {
        //@spec requires file.mapped() == 0, 0 < page_size <= PSMAX, file.content().len() >= 4096 ==> hsize(file.content()) + 4096 <= MAXLEN, synced_ok(file),
        //@spec ensures r is Err ==> file.dead() || page_size % 8 != 0 || 0 < file.content().len() < 4096,
        Ok(Self(Arc::new(Mutex::new(Inner::new(file, page_size)?))))
    }

    pub fn last_id(&self) -> Option<[u8; 8]> {
        //@spec ensures exists|t: Inner| #[trigger] self.0.during(t) && (r is None <==> t.last_id == 0) && (r is Some ==> un(r->0@) == t.last_id),
        let id = self.0.lock().last_id;
        //@~ let l = self.0.lock();
        //@~ let id = l.last_id;
        //@ proof { assert(self.0.during(*l)); }
        if id == 0 {
            None
        } else {
            Some(id.to_be_bytes())
        }
    }
}

impl BlobStore for PagedFileStore {
    type Error = anyhow::Error;

    //@pre closed spec fn blob(&self, id: Seq<u8>) -> Seq<u8> { self.0.limit(un(id))->0 }
    //@pre closed spec fn readable(&self) -> bool { true }
    //@pre /// some moment during the call: unless the system has failed, everything that was written so far is on the disk
    //@pre closed spec fn flushed(&self) -> bool { exists|t: Inner| #[trigger] self.0.during(t) && (t.file.faulty() || t.stable() >= t.last_id + 4096) }
    fn read(&self, id: &[u8]) -> anyhow::Result<OwnedBlob> {
        //@spec ensures id@.len() != 8 ==> r is Err, id@.len() == 8 ==> exists|t: Inner| #[trigger] self.0.during(t) && (r is Ok ==> t.ent(un(id@)) is Some) && (r is Err ==> t.file.faulty() || un(id@) > t.last_id || !valid(t.body(), t.ps(), un(id@) as int)),
        let offset = u64::from_be_bytes(id.try_into()?);
        self.0.lock().bytes(offset)
        //@~ let l = self.0.lock();
        //@~ let ghost a = *l;
        //@~ let r = l.bytes(offset);
        //@~ proof { lemma_log(a, *l); assert(l.ent(offset as nat) == a.ent(offset as nat)); self.0.release(a, *l); }
        //@~ r
    }

    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let id = self.0.lock().append(data)?;
        //@~ let l = self.0.lock();
        //@~ let ghost a = *l;
        //@~ let w = l.append(data);
        //@~ proof { lemma_log(a, *l); self.0.release(a, *l); }
        //@~ let id = w?;
        //@ proof { assert(l.ent(id as nat) == Some(data@)); }
        Ok(id.to_be_bytes().to_vec())
        //@~ let b = id.to_be_bytes();
        //@~ let v = b.to_vec();
        //@~ proof { assert(v@ =~= b@); }
        //@~ Ok(v)
    }

    fn sync(&self) -> anyhow::Result<()> {
        self.0.lock().file.sync_all()?;
        //@~ let l = self.0.lock();
        //@~ let ghost a = *l;
        //@~ let w = l.file.sync_all();
        //@~ proof { lemma_grow(a, *l); lemma_log(a, *l); self.0.release(a, *l); }
        //@~ w?;
        Ok(())
    }
}
