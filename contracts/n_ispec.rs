// ---------------------------------------------------------------------------------------------------------------
// Iterators over entries: what is still to come
// ---------------------------------------------------------------------------------------------------------------

type Fr<S> = (usize, Option<TreeNodeIter<'static, S>>);

/// the nodes that an iterator has still to deliver
spec fn it_ok<S: BlobStore>(it: TreeNodeIter<S>, s: S) -> bool {
    it.inv() && irep(it.rem(), s)
}

spec fn fr_fit<S: BlobStore>(f: Fr<S>, s: S) -> bool {
    f.1 is Some ==> it_ok(f.1->0, s)
}

spec fn fr_ts<S: BlobStore>(f: Fr<S>, s: S) -> Seq<T> {
    match f.1 {
        Some(it) => itv(it.rem(), s),
        None => Seq::empty(),
    }
}

/// `n`: length of the path
spec fn st_ok<S: BlobStore>(st: Seq<Fr<S>>, s: S, n: int) -> bool
    decreases st.len(),
{
    st.len() > 0 ==> fr_fit(st.last(), s) && st.last().0 <= n && st_ok(st.drop_last(), s, n - st.last().0)
}

spec fn st_ents<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>) -> Seq<(Seq<u8>, Seq<u8>)>
    decreases st.len(),
{
    if st.len() == 0 {
        Seq::empty()
    } else {
        entsc(fr_ts(st.last(), s), path) + st_ents(st.drop_last(), s, path.take(path.len() - st.last().0))
    }
}

/// an upper bound for the number of steps
spec fn st_steps<S: BlobStore>(st: Seq<Fr<S>>, s: S) -> nat
    decreases st.len(),
{
    if st.len() == 0 {
        0
    } else {
        (match st.last().1 {
            Some(it) => 3 * cntc(itv(it.rem(), s)) + 2,
            None => 1,
        }) + st_steps(st.drop_last(), s)
    }
}

impl<S: BlobStore> KeyValueIter<S> {
    spec fn ok(self) -> bool {
        st_ok(self.stack@, self.store, self.path.kb().len() as int)
    }

    /// the entries that are still to come
    spec fn ents(self) -> Seq<(Seq<u8>, Seq<u8>)> {
        st_ents(self.stack@, self.store, self.path.kb())
    }
}

/// a step into the next node
#[verifier::spinoff_prover]
proof fn lemma_st_into<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>, f1: Fr<S>, f2: Fr<S>, t: T, ts: Seq<T>)
    requires
        st.len() > 0,
        st_ok(st, s, path.len() as int),
        st.last().1 is Some,
        f1.0 == st.last().0,
        f1.1 is Some && f1.1->0.inv() && irepr(f1.1->0.rem(), s, ts.skip(1)),
        irepr(st.last().1->0.rem(), s, ts),
        ts.len() > 0,
        ts[0] == t,
        f2.0 == t.p().len(),
        f2.1 is Some ==> f2.1->0.inv() && irepr(f2.1->0.rem(), s, t.c()),
        f2.1 is None ==> t.c().len() == 0,
    ensures
        st_ok(st.drop_last().push(f1).push(f2), s, (path + t.p()).len() as int),
        st_ents(st, s, path) =~= (match t.v() {
            Some(v) => seq![(path + t.p(), v)],
            None => Seq::empty(),
        }) + st_ents(st.drop_last().push(f1).push(f2), s, path + t.p()),
        st_steps(st.drop_last().push(f1).push(f2), s) < st_steps(st, s),
{
    reveal_with_fuel(st_ents, 3);
    reveal_with_fuel(st_steps, 3);
    reveal_with_fuel(st_ok, 3);
    let s1 = st.drop_last().push(f1);
    let s2 = s1.push(f2);
    assert(s1.drop_last() =~= st.drop_last());
    assert(s2.drop_last() =~= s1);
    assert(st_ok(s1, s, path.len() as int));
    let p2 = path + t.p();
    assert(p2.take(p2.len() - f2.0) =~= path);
    assert(fr_ts(f2, s) =~= t.c());
    assert(fr_ts(f1, s) == ts.skip(1));
    assert(fr_ts(st.last(), s) == ts);
    assert(cnt(t) == 1 + cntc(t.c()));
    assert(cntc(ts) == cnt(ts[0]) + cntc(ts.skip(1)));
    let rest = st_ents(st.drop_last(), s, path.take(path.len() - f1.0));
    assert(st_ents(s1, s, path) == entsc(ts.skip(1), path) + rest);
    assert(st_ents(s2, s, p2) == entsc(t.c(), p2) + st_ents(s1, s, path));
    assert(entsc(ts, path) == ents(t, path) + entsc(ts.skip(1), path));
    assert(st_ents(st, s, path) == entsc(ts, path) + rest);
    let own = match t.v() {
        Some(v) => seq![(p2, v)],
        None => Seq::<(Seq<u8>, Seq<u8>)>::empty(),
    };
    assert(ents(t, path) == own + entsc(t.c(), p2));
    assert(own + entsc(t.c(), p2) + entsc(ts.skip(1), path) + rest =~= own + (entsc(t.c(), p2) + (entsc(ts.skip(1), path) + rest)));
}

/// the iterator of the top frame is at its end
proof fn lemma_st_end<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>)
    requires
        st.len() > 0,
        st_ok(st, s, path.len() as int),
        st.last().1 is Some ==> irepr(st.last().1->0.rem(), s, Seq::empty()),
    ensures
        st_ok(st.drop_last().push((st.last().0, None)), s, path.len() as int),
        st_ents(st.drop_last().push((st.last().0, None)), s, path) =~= st_ents(st, s, path),
        st.last().1 is Some ==> st_steps(st.drop_last().push((st.last().0, None)), s) < st_steps(st, s),
        st_ok(st.drop_last(), s, path.len() - st.last().0),
        st_ents(st.drop_last(), s, path.take(path.len() - st.last().0)) =~= st_ents(st, s, path),
        st_steps(st.drop_last(), s) < st_steps(st, s),
{
    let s1 = st.drop_last().push((st.last().0, None));
    assert(s1.drop_last() =~= st.drop_last());
    assert(fr_ts(s1.last(), s) =~= Seq::empty());
    assert(fr_ts(st.last(), s) =~= Seq::empty());
}

/// one iterator to start with
proof fn lemma_st_one<S: BlobStore>(st: Seq<Fr<S>>, s: S, path: Seq<u8>, t: T)
    requires
        st.len() == 1,
        st[0].0 == 0,
        st[0].1 is Some,
        st[0].1->0.inv(),
        irepr(st[0].1->0.rem(), s, seq![t]),
    ensures
        st_ok(st, s, path.len() as int),
        st_ents(st, s, path) =~= ents(t, path),
{
    reveal_with_fuel(st_ents, 3);
    reveal_with_fuel(st_ok, 3);
    assert(st.drop_last() =~= Seq::empty());
    assert(st.last() == st[0]);
    assert(fr_ts(st.last(), s) == seq![t]);
    assert(seq![t].skip(1) =~= Seq::empty());
    assert(entsc(seq![t], path) =~= ents(t, path) + entsc(seq![t].skip(1), path));
}

// --------------------------------------------------------------------------------------------------------------- values

/// the values of a list of trees
spec fn valsc(ts: Seq<T>) -> Seq<Seq<u8>> {
    entsc(ts, Seq::empty()).map_values(|e: (Seq<u8>, Seq<u8>)| e.1)
}

spec fn vst_ok<S: BlobStore>(st: Seq<TreeNodeIter<S>>, s: S) -> bool {
    forall|i: int| 0 <= i < st.len() ==> it_ok(#[trigger] st[i], s)
}

spec fn vst_vals<S: BlobStore>(st: Seq<TreeNodeIter<S>>, s: S) -> Seq<Seq<u8>>
    decreases st.len(),
{
    if st.len() == 0 {
        Seq::empty()
    } else {
        valsc(itv(st.last().rem(), s)) + vst_vals(st.drop_last(), s)
    }
}

spec fn vst_steps<S: BlobStore>(st: Seq<TreeNodeIter<S>>, s: S) -> nat
    decreases st.len(),
{
    if st.len() == 0 {
        0
    } else {
        2 * cntc(itv(st.last().rem(), s)) + 1 + vst_steps(st.drop_last(), s)
    }
}

impl<S: BlobStore> ValueIter<S> {
    spec fn ok(self) -> bool {
        vst_ok(self.stack@, self.store)
    }

    /// the values that are still to come
    spec fn vals(self) -> Seq<Seq<u8>> {
        vst_vals(self.stack@, self.store)
    }
}

proof fn lemma_valsc(t: T, ts: Seq<T>)
    requires
        ts.len() > 0,
        ts[0] == t,
    ensures
        valsc(ts) =~= vals(t) + valsc(ts.skip(1)),
        vals(t) =~= (match t.v() {
            Some(v) => seq![v],
            None => Seq::empty(),
        }) + valsc(t.c()),
{
    let e = Seq::<u8>::empty();
    assert(entsc(ts, e) == ents(t, e) + entsc(ts.skip(1), e));
    lemma_entsc_pre(t.c(), e + t.p(), e);
    assert(ents(t, e).map_values(|e: (Seq<u8>, Seq<u8>)| e.1) =~= (match t.v() {
        Some(v) => seq![v],
        None => Seq::empty(),
    }) + valsc(t.c()));
}

proof fn lemma_vst_into<S: BlobStore>(st: Seq<TreeNodeIter<S>>, s: S, i1: TreeNodeIter<S>, f: Option<TreeNodeIter<S>>, t: T, ts: Seq<T>)
    requires
        st.len() > 0,
        vst_ok(st, s),
        irepr(st.last().rem(), s, ts),
        i1.inv() && irepr(i1.rem(), s, ts.skip(1)),
        ts.len() > 0,
        ts[0] == t,
        f is Some ==> f->0.inv() && irepr(f->0.rem(), s, t.c()),
        f is None ==> t.c().len() == 0,
    ensures
        ({
            let s1 = st.drop_last().push(i1);
            let s2 = match f { Some(x) => s1.push(x), None => s1 };
            &&& vst_ok(s2, s)
            &&& vst_steps(s2, s) < vst_steps(st, s)
            &&& vst_vals(st, s) =~= (match t.v() { Some(v) => seq![v], None => Seq::empty() }) + vst_vals(s2, s)
        }),
{
    reveal_with_fuel(vst_vals, 3);
    reveal_with_fuel(vst_steps, 3);
    let s1 = st.drop_last().push(i1);
    assert(s1.drop_last() =~= st.drop_last());
    lemma_valsc(t, ts);
    assert(cnt(t) == 1 + cntc(t.c()));
    assert(cntc(ts) == cnt(ts[0]) + cntc(ts.skip(1)));
    assert(vst_ok(s1, s));
    match f {
        Some(x) => {
            let s2 = s1.push(x);
            assert(s2.drop_last() =~= s1);
        }
        None => {
            assert(t.c() =~= Seq::empty());
            assert(valsc(t.c()) =~= Seq::empty());
        }
    }
}

proof fn lemma_vst_end<S: BlobStore>(st: Seq<TreeNodeIter<S>>, s: S)
    requires
        st.len() > 0,
        vst_ok(st, s),
        irepr(st.last().rem(), s, Seq::empty()),
    ensures
        vst_ok(st.drop_last(), s),
        vst_vals(st.drop_last(), s) =~= vst_vals(st, s),
        vst_steps(st.drop_last(), s) < vst_steps(st, s),
{
    assert(valsc(Seq::empty()) =~= Seq::empty());
}
