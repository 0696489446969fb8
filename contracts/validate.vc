@fn Leaf::validate
@ret r
@spec
requires
    vcmp_ok(cmp),
    self.an().par == parent,
    fits(self.an(), min is Some || max is Some),
    in_order(cmp, true, self.an().its, oval(min), oval(max)),
@at entry
broadcast use axiom_array_len;
proof { S::node_eq(); }
@attr #[verifier::loop_isolation(false)]
@loop 0
invariant
    vi <= self.an().its.len(),
    vw@.len() == self.an().its.len(),
    vall,
decreases vw@.len() - vi,
@at loop 0 start
proof { assert(adj(cmp, true, self.an().its, vi as int)); }

@fn Leaf::validate#refuse
@ret r
@spec
requires
    vcmp_ok(cmp),
ensures
    self.an().par == parent,
    fits(self.an(), min is Some || max is Some),
    in_order(cmp, false, self.an().its, oval(min), oval(max)),
@at entry
broadcast use axiom_array_len;
proof { S::node_eq(); }
@attr #[verifier::loop_isolation(false)]
@loop 0
invariant
    vi <= self.an().its.len(),
    vw@.len() == self.an().its.len(),
    vall ==> forall|j: int| 0 <= j < vi && j + 1 < vw@.len() ==> #[trigger] adj(cmp, false, self.an().its, j),
decreases vw@.len() - vi,

@fn Internal::validate
@ret r
@spec
requires
    vcmp_ok(cmp),
    self.an().par == parent,
    fits(self.an(), min is Some || max is Some),
    in_order(cmp, true, self.an().its, oval(min), oval(max)),
@at entry
broadcast use axiom_array_len;
proof { S::node_eq(); }
@attr #[verifier::loop_isolation(false)]
@loop 0
invariant
    vi <= self.an().its.len(),
    vw@.len() == self.an().its.len(),
    vall,
decreases vw@.len() - vi,
@at loop 0 start
proof { assert(adj(cmp, true, self.an().its, vi as int)); }

@fn Internal::validate#refuse
@ret r
@spec
requires
    vcmp_ok(cmp),
ensures
    self.an().par == parent,
    fits(self.an(), min is Some || max is Some),
    in_order(cmp, false, self.an().its, oval(min), oval(max)),
@at entry
broadcast use axiom_array_len;
proof { S::node_eq(); }
@attr #[verifier::loop_isolation(false)]
@loop 0
invariant
    vi <= self.an().its.len(),
    vw@.len() == self.an().its.len(),
    vall ==> forall|j: int| 0 <= j < vi && j + 1 < vw@.len() ==> #[trigger] adj(cmp, false, self.an().its, j),
decreases vw@.len() - vi,

@fn Node::validate
@ret r
@spec
requires
    vcmp_ok(cmp),
    self.an().par == parent,
    fits(self.an(), min is Some || max is Some),
    in_order(cmp, true, self.an().its, oval(min), oval(max)),

@fn Node::validate#refuse
@ret r
@spec
requires
    vcmp_ok(cmp),
ensures
    self.an().par == parent,
    fits(self.an(), min is Some || max is Some),
    in_order(cmp, false, self.an().its, oval(min), oval(max)),

@fn RawBTree::validate_node
@ret r
@spec
requires
    self.inv(),
    vcmp_ok(*cmp),
    sorted(*cmp, self@),
    self.h().contains_key(id),
    self.h()[id].par == parent,
    oval(min) == sopt(self@, (gh(self.h()).st)(id) - 1),
    oval(max) == sopt(self@, (gh(self.h()).en)(id)),
ensures
    r == (gh(self.h()).ht)(id),
decreases (gh(self.h()).ht)(id),
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@at entry
broadcast use group_heap;
let ghost h = self.h();
let ghost g = gh(h);
let ghost min0 = min;
let ghost max0 = max;
let ghost kids = h[id].kids;
proof {
    lemma_wf(h, self.root);
    lemma_accept(h, *cmp, id);
    lemma_order_ref(cmp, true, h[id].its, oval(min), oval(max));
    lemma_height(h, id);
    assert(node_ok(h, g, id));
}
@loop 0
invariant
    viter.rest().len() <= kids.len(),
    viter.rest() =~= kids.subrange(kids.len() - viter.rest().len(), kids.len() as int),
    vcount == kids.len() - viter.rest().len(),
    vcount == 0 ==> min == min0,
    vcount < kids.len() ==> max == max0,
    vcount == 0 ==> depth is None,
    vcount > 0 ==> depth == Some(((g.ht)(id) - 1) as usize),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at loop 0 start
proof { if vcount < kids.len() { lemma_kid_seps(h, id, vcount as int); } }

@fn RawBTree::validate
@spec
requires
    self.inv(),
    vcmp_ok(cmp),
    sorted(cmp, self@),
@at entry
proof { lemma_wf(self.h(), self.root); if self.root is Some { lemma_accept(self.h(), cmp, self.root->0); assert(node_ok(self.h(), gh(self.h()), self.root->0)); } }

@fn RawBTree::validate_node#refuse
@ret r
@spec
requires
    closed(self.h()),
    vcmp_ok(*cmp),
    self.h().contains_key(id),
    parent is Some ==> min is Some || max is Some,
    parent is None ==> min is None && max is None,
ensures
    valid(self.h(), *cmp, id, parent, oval(min), oval(max), r as nat),
@attr #[verifier::exec_allows_no_decreases_clause]
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@at entry
hide(valid);
hide(kid_valid);
hide(in_order);
hide(fits);
hide(closed);
broadcast use group_heap;
let ghost h = self.h();
let ghost min0 = min;
let ghost max0 = max;
let ghost kids = h[id].kids;
proof { lemma_order_ref(cmp, false, h[id].its, oval(min), oval(max)); }
@loop 0
invariant
    viter.rest().len() <= kids.len(),
    forall|j: int| 0 <= j < viter.rest().len() ==> #[trigger] viter.rest()[j] == kids[vcount + j],
    vcount == kids.len() - viter.rest().len(),
    vcount == 0 ==> min == min0,
    vcount < kids.len() ==> max == max0,
    vcount == 0 ==> depth is None,
    vcount > 0 ==> depth is Some,
    forall|j: int| 0 <= j < vcount ==> #[trigger] kid_valid(h, *cmp, id, oval(min0), oval(max0), depth->0 as nat, j),
ensures
    viter.rest().len() == 0,
@at loop 0 start
proof { lemma_fits(h[id], min0 is Some || max0 is Some); if vcount < kids.len() { lemma_closed(h, id, vcount as int); } }
@at after let child_depth#0
proof { lemma_kid_valid(h, *cmp, id, oval(min0), oval(max0), child_depth as nat, i as int, child_id, oval(min), oval(max)); }
@at exit
proof { lemma_valid(h, *cmp, id, parent, oval(min0), oval(max0), depth, r as nat); }

@fn RawBTree::validate#refuse
@spec
requires
    closed(self.h()),
    vcmp_ok(cmp),
    self.root is Some ==> self.h().contains_key(self.root->0),
ensures
    self.root is Some ==> exists|d: nat| valid(self.h(), cmp, self.root->0, None, None, None, d),
