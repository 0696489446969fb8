@inherent RawBTree::Clone

@fn RawBTree::clone::clone_node
@ret id
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    wfh(ah::<T, S>(*old_nodes)),
    ah::<T, S>(*old_nodes).contains_key(node_id),
ensures
    exists|m: Map<S::Node, S::Node>| #[trigger] subtree_copied(ah::<T, S>(*old_nodes), ah::<T, S>(*old(new_nodes)), ah::<T, S>(*final(new_nodes)), m, id, node_id),
    parent is None ==> ah::<T, S>(*final(new_nodes))[id].par is None,
decreases (gh(ah::<T, S>(*old_nodes)).ht)(node_id),
@at entry
hide(subtree_copied);
hide(kids_copied);
hide(wfh);
hide(node_ok);
hide(h_adopt);
hide(kids_of);
hide(its_of);
hide(SliceIter::rest);
broadcast use group_heap;
let ghost h = ah::<T, S>(*old_nodes);
let ghost g = gh(h);
let ghost n0 = ah::<T, S>(*new_nodes);
let ghost mut m: Map<S::Node, S::Node> = Map::empty();
proof { lemma_copy_kids(h, node_id); }
@at after let first#0
proof {
    m = choose|q: Map<S::Node, S::Node>| #[trigger] subtree_copied(h, n0, ah::<T, S>(*new_nodes), q, first, h[node_id].kids[0]);
    lemma_copy_first(h, n0, ah::<T, S>(*new_nodes), m, first, node_id);
    lemma_kids_of_none::<T, S>(first);
    lemma_its_none::<T, S>(h[node_id].its);
    lemma_branches_of::<T, S>(h, node_id, *node);
}
@loop 0
invariant
    viter.rest().len() + branches@.len() == h[node_id].its.len(),
    kids_of::<T, S>(first, branches@).len() == branches@.len() + 1,
    forall|j: int| 0 <= j < viter.rest().len() ==> branch_of::<T, S>(h, node_id, #[trigger] viter.rest()[j], branches@.len() + j),
    kids_copied(h, n0, ah::<T, S>(*new_nodes), m, kids_of::<T, S>(first, branches@), node_id, branches@.len() as int + 1),
    its_cloned(h[node_id].its.take(branches@.len() as int), its_of::<T, S>(branches@)),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at loop 0 start
let ghost n1 = ah::<T, S>(*new_nodes);
let ghost bs = branches@;
@at after call push#0
proof {
    let n2 = ah::<T, S>(*new_nodes);
    let r = branches@.last().child;
    let m2 = choose|q: Map<S::Node, S::Node>| #[trigger] subtree_copied(h, n1, n2, q, r, h[node_id].kids[bs.len() as int + 1]);
    lemma_copy_next(h, n0, n1, m, kids_of::<T, S>(first, bs), node_id, bs.len() as int + 1, n2, m2, r);
    m = m.union_prefer_right(m2);
    lemma_kids_of_push::<T, S>(first, bs, branches@.last());
    lemma_its_push(h[node_id].its, bs, branches@.last());
}
@at after let clone#0
let ghost n = clone.an();
let ghost n1 = ah::<T, S>(*new_nodes);
proof {
    if !n.leaf {
        lemma_copy_roots(h, n0, n1, m, n.kids, node_id, n.kids.len() as int);
    }
}
@at exit
proof {
    let n2 = ah::<T, S>(*new_nodes);
    if n.leaf {
        lemma_adopt_none(n1, n.kids, id);
        lemma_copy_leaf(h, n0, node_id, n2, id, n);
    } else {
        assert(h[node_id].its.take(h[node_id].its.len() as int) =~= h[node_id].its);
        lemma_copy_top(h, n0, n1, m, n.kids, node_id, n2, id, n);
    }
}

@fn RawBTree::clone
@ret r
@spec
requires self.inv(),
ensures
    r.inv(),
    its_cloned(self@, r@),
@at entry
broadcast use group_heap;
proof {
    lemma_wf(self.h(), self.root);
    assert forall|s: S| #[trigger] call_ensures(<S as Default>::default, (), s) implies ah::<T, S>(s) == Map::<S::Node, AN<S::Node, T>>::empty() by {
        S::default_empty(s);
        assert(ah::<T, S>(s) =~= Map::empty());
    }
}
@at exit
proof {
    if self.root is Some {
        let m = choose|m: Map<S::Node, S::Node>| #[trigger] subtree_copied(self.h(), Map::empty(), r.h(), m, r.root->0, self.root->0);
        lemma_copy_tree(self.h(), r.h(), m, r.root->0);
    }
    lemma_wf(r.h(), r.root);
}
