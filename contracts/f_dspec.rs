
/// the detached form of a list
spec fn iter_det(r: Option<Arc<Vec<TreeNode<Detached>>>>, ts: Seq<T>) -> bool {
    match r {
        Some(a) => ts.len() > 0 && drepr(a@, Detached, ts),
        None => ts.len() == 0,
    }
}

/// `transmute` of a list of nodes without store: only the marker type changes
#[verifier::external_body]
fn cast_children<S: BlobStore>(a: Option<Arc<Vec<TreeNode<S>>>>, Ghost(s): Ghost<S>) -> (r: Option<Arc<Vec<TreeNode<Detached>>>>)
    requires
        no_store::<S>(),
    ensures
        a is Some <==> r is Some,
        a is Some ==> forall|ts: Seq<T>| #[trigger] drepr((a->0)@, s, ts) ==> drepr((r->0)@, Detached, ts),
{
    unimplemented!()
}
