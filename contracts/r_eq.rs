impl PartialEq for TreeNode<Detached> {
    //@impl impl TreeNode<Detached>
    fn eq(&self, other: &Self) -> bool {
        //@spec requires self.inv(), self.nw().tight(), rep(self.nw(), Detached), other.inv(), other.nw().tight(), rep(other.nw(), Detached),
        //@spec ensures r == (tv(self.nw(), Detached) == tv(other.nw(), Detached)),
        //@spec decreases tv(self.nw(), Detached), 1nat,
        //@ let ghost x = tv(self.nw(), Detached);
        //@ let ghost y = tv(other.nw(), Detached);
        //@ proof { let a = self.nw(); let b = other.nw(); assert(repr(a, Detached, x) && repr(b, Detached, y)); assert((a.p.bytes() =~= b.p.bytes()) == (x.p() == y.p())); assert((a.v.bytes() =~= b.v.bytes() && a.v.none() == b.v.none()) == (x.v() == y.v())); }
        self.prefix_ref().slice() == other.prefix_ref().slice()
            && self.has_value() == other.has_value()
            && self.value_ref().slice() == other.value_ref().slice()
            && self.get_children() == other.get_children()
            //@~ && eq_children(self.get_children(), other.get_children(), Ghost(x.c()), Ghost(y.c()))
    }

}

impl PartialEq for RadixTree {
    //@impl impl RadixTree
    fn eq(&self, other: &Self) -> bool {
        //@spec requires self.ok(), other.ok(),
        //@spec ensures r == (self.t() == other.t()), r ==> (forall|k: Seq<u8>| #[trigger] self.at(k) == other.at(k)), compressed() && (forall|k: Seq<u8>| #[trigger] self.at(k) == other.at(k)) ==> r,
        //@ proof { if compressed() && forall|k: Seq<u8>| #[trigger] self.at(k) == other.at(k) { assert forall|k: Seq<u8>| #[trigger] lk(self.t(), k) == lk(other.t(), k) by { assert(self.at(k) == other.at(k)); } lemma_unique(self.t(), other.t()); } }
        self.node == other.node
        //@~ self.node.eq(&other.node)
    }

}
