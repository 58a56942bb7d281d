/// the iterator over the children of a node
spec fn cload<S: BlobStore>(c: Ch<S>, s: S, it: Option<TreeNodeIter<S>>, strict: bool) -> bool {
    match it {
        None => match c {
            Ch::Data(v) => v.len() == 0,
            Ch::Id(id) => id.len() == 0,
        },
        Some(x) => x.fresh() && match c {
            Ch::Data(v) => x is Owned && x.rem() == Rem::Data(v) && (strict ==> v.len() > 0),
            Ch::Id(id) => x is Borrowed && x.inv() && id.len() > 0 && x.rem() == Rem::<S>::Bytes(s.blob(id.skip(1))),
        },
    }
}

broadcast proof fn lemma_cload<S: BlobStore>(c: Ch<S>, s: S, ts: Seq<T>, it: Option<TreeNodeIter<S>>, strict: bool)
    requires
        #[trigger] crepr(c, s, ts),
        #[trigger] cload(c, s, it, strict),
    ensures
        it is None ==> ts.len() == 0,
        it is Some ==> it->0.inv() && irepr(it->0.rem(), s, ts),
        it is Some && strict ==> ts.len() > 0,
{
}

