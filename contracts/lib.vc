@fn RawBTree::new
@ret r
@spec
ensures r.inv(), r@ == Seq::<T>::empty(), r.root is None, r.h() == Map::<S::Node, AN<S::Node, T>>::empty(),
@at entry
broadcast use group_heap;
@at exit
proof { S::default_empty(r.nodes); assert(r.h() =~= Map::empty()); lemma_wf(r.h(), r.root); }

@fn RawBTree::Default::default
@ret r
@spec
ensures r.inv(), r@ == Seq::<T>::empty(), r.root is None, r.h() == Map::<S::Node, AN<S::Node, T>>::empty(),

@fn RawBTree::is_empty
@ret r
@spec
requires self.inv(),
ensures r == (self@.len() == 0),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::len
@ret r
@spec
requires self.inv(),
ensures r == self@.len(),

@fn RawBTree::address_of
@ret r
@spec
requires self.inv(), cmp_ok(cmp, key),
ensures
    match r {
        Ok(a) => self.is_at(a, at(self.h(), a)) && hit(cmp, self@, key, at(self.h(), a)),
        Err(Some(a)) => self.root is Some && a_leaf(self.h(), a) && miss(cmp, self@, key, at(self.h(), a)),
        Err(None) => self.root is None && miss(cmp, self@, key, 0),
    },
    forall|a: int, b: int| #[trigger] ordered(cmp, self@, key, a, b) ==> (r is Ok) == (a < b),
@at entry
broadcast use group_heap;
proof { lemma_wf(self.h(), self.root); if self.root is Some { assert(node_ok(self.h(), gh(self.h()), self.root->0)); } }
@at exit
proof { assert forall|a: int, b: int| #[trigger] ordered(cmp, self@, key, a, b) implies (r is Ok) == (a < b) by { lemma_search(cmp, self@, key, a, b); } }

@fn RawBTree::first_item_address
@ret r
@spec
requires self.inv(),
ensures
    match r {
        Some(a) => self.is_at(a, 0) && a_leaf(self.h(), a),
        None => self@.len() == 0,
    },
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@at entry
broadcast use group_heap;
let ghost h = self.h();
let ghost g = gh(h);
proof { lemma_wf(h, self.root); if self.root is Some { assert(node_ok(h, g, g.root)); } }
@loop 0
invariant_except_break
    wfh(h),
    h.contains_key(id),
    (g.st)(id) == 0,
ensures
    a_leaf(h, vbrk0) && a_item(h, aa(vbrk0)) && at(h, vbrk0) == 0,
decreases (g.ht)(id),
@at loop 0 start
broadcast use group_heap;
proof { lemma_not_empty(h, id); lemma_edge(h, g, id, 0); if !h[id].leaf { lemma_edge(h, g, h[id].kids[0], 0); } }

@fn RawBTree::last_item_address
@ret r
@spec
requires self.inv(),
ensures
    match r {
        Some(a) => self.is_at(a, self@.len() - 1) && a_leaf(self.h(), a),
        None => self@.len() == 0,
    },
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@at entry
broadcast use group_heap;
let ghost h = self.h();
let ghost g = gh(h);
proof { lemma_wf(h, self.root); if self.root is Some { assert(node_ok(h, g, g.root)); } }
@loop 0
invariant_except_break
    wfh(h),
    h.contains_key(id),
    (g.en)(id) == g.s.len(),
ensures
    a_leaf(h, vbrk0) && a_item(h, aa(vbrk0)) && at(h, vbrk0) == g.s.len() - 1,
decreases (g.ht)(id),
@at loop 0 start
broadcast use group_heap;
proof { lemma_not_empty(h, id); lemma_edge(h, g, id, gp_len(h, id)); lemma_gp_bounds(h, g, (id, gp_len(h, id))); lemma_gp_bounds(h, g, (id, gp_len(h, id) - 1)); }

@fn RawBTree::get_at
@ret r
@spec
requires self.inv(), a_ok(self.h(), aa(addr)),
ensures
    match r {
        Some(x) => self.is_at(addr, at(self.h(), addr)) && *x == self@[at(self.h(), addr)],
        None => !a_item(self.h(), aa(addr)),
    },
@at entry
broadcast use group_heap;
proof { lemma_wf(self.h(), self.root); if a_item(self.h(), aa(addr)) { lemma_gp_bounds(self.h(), gh(self.h()), aa(addr)); } }

@fn RawBTree::get_mut_at
@ret r
@spec
requires old(self).inv(), a_ok(old(self).h(), aa(addr)),
ensures
    final(self).inv(),
    match r {
        Some(x) => upd_post(old(self).h(), final(self).h(), aa(addr), *final(x)) && old(self).is_at(addr, at(old(self).h(), addr)) && *x == old(self)@[at(old(self).h(), addr)]
            && final(self)@ == old(self)@.update(at(old(self).h(), addr), *final(x))
            && final(self).root == old(self).root,
        None => !a_item(old(self).h(), aa(addr)) && final(self)@ == old(self)@ && final(self).h() == old(self).h() && final(self).root == old(self).root,
    },
@at entry
broadcast use group_heap;
let ghost h0 = self.h();
proof {
    lemma_wf(self.h(), self.root);
    assert(h0.insert(addr.node, h0[addr.node]) =~= h0);
    if a_item(self.h(), aa(addr)) {
        lemma_gp_bounds(self.h(), gh(self.h()), aa(addr));
    }
}
@at exit
proof {
    if r is Some {
        let v = *final(r->0);
        lemma_update_here(h0, aa(addr), v, h_its(h0, addr.node, h0[addr.node].its.update(addr.offset.v(), v)));
        assert(upd_post(h0, h_its(h0, addr.node, h0[addr.node].its.update(addr.offset.v(), v)), aa(addr), v));
    }
}

@fn RawBTree::get
@ret r
@spec
requires self.inv(), cmp_ok(cmp, key),
ensures
    match r {
        Some(x) => exists|i: int| #[trigger] hit(cmp, self@, key, i) && *x == self@[i],
        None => exists|i: int| #[trigger] miss(cmp, self@, key, i),
    },
    forall|a: int, b: int| #[trigger] ordered(cmp, self@, key, a, b) ==> (r is Some) == (a < b),

@fn RawBTree::get_mut
@ret r
@spec
requires old(self).inv(), cmp_ok(cmp, key),
ensures
    final(self).inv(),
    match r {
        Some(x) => exists|i: int| #[trigger] hit(cmp, old(self)@, key, i) && *x == old(self)@[i] && final(self)@ == old(self)@.update(i, *final(x)),
        None => final(self)@ == old(self)@ && exists|i: int| #[trigger] miss(cmp, old(self)@, key, i),
    },
    forall|a: int, b: int| #[trigger] ordered(cmp, old(self)@, key, a, b) ==> (r is Some) == (a < b),

@fn RawBTree::first
@ret r
@spec
requires self.inv(),
ensures
    match r {
        Some(x) => self@.len() > 0 && *x == self@[0],
        None => self@.len() == 0,
    },

@fn RawBTree::first_mut
@ret r
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    match r {
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.update(0, *final(x)),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
    },

@fn RawBTree::last
@ret r
@spec
requires self.inv(),
ensures
    match r {
        Some(x) => self@.len() > 0 && *x == self@[self@.len() - 1],
        None => self@.len() == 0,
    },

@fn RawBTree::last_mut
@ret r
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    match r {
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
    },

@fn RawBTree::root
@ret r
@spec
ensures r == self.root,

@fn RawBTree::next_item_address
@ret r
@spec
requires self.inv(), a_ok(self.h(), aa(addr)),
ensures
    match r {
        Some(b) => self.is_at(b, behind(self.h(), addr)),
        None => behind(self.h(), addr) == self@.len(),
    },
@at entry
proof { lemma_wf(self.h(), self.root); }
@at exit
proof { if r is Some { lemma_gp_bounds(self.h(), gh(self.h()), aa(r->0)); } }

@fn RawBTree::previous_item_address
@ret r
@spec
requires self.inv(), a_ok(self.h(), aa(addr)),
ensures
    match r {
        Some(b) => self.is_at(b, at(self.h(), addr) - 1),
        None => at(self.h(), addr) == 0,
    },
@at entry
proof { lemma_wf(self.h(), self.root); }
@at exit
proof { if r is Some { lemma_gp_bounds(self.h(), gh(self.h()), aa(r->0)); } }

@fn RawBTree::previous_front_address
@ret r
@spec
requires self.inv(), a_ok(self.h(), aa(addr)),
ensures front_res(self.h(), addr, r),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::next_back_address
@ret r
@spec
requires self.inv(), a_ok(self.h(), aa(addr)),
ensures back_res(self.h(), addr, r),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::next_item_or_back_address
@ret r
@spec
requires self.inv(), a_ok(self.h(), aa(addr)),
ensures
    r is Some,
    a_ok(self.h(), aa(r->0)) && r->0.offset.v() >= 0,
    at(self.h(), r->0) == behind(self.h(), addr),
    behind(self.h(), addr) < self@.len() ==> a_item(self.h(), aa(r->0)),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::normalize
@ret r
@spec
requires self.inv(), a_ok(self.h(), aa(addr)),
ensures
    match r {
        Some(b) => if addr.offset.v() < self.h()[addr.node].its.len() { b == addr } else { self.is_at(b, at(self.h(), addr)) },
        None => addr.offset.v() == self.h()[addr.node].its.len() && at(self.h(), addr) == self@.len(),
    },
@at entry
proof { lemma_wf(self.h(), self.root); }
@at exit
proof { if r is Some { lemma_gp_bounds(self.h(), gh(self.h()), aa(r->0)); } }

@fn RawBTree::leaf_address
@ret r
@spec
requires self.inv(), a_ok(self.h(), aa(addr)), addr.offset.v() >= 0,
ensures
    a_leaf(self.h(), r),
    at(self.h(), r) == at(self.h(), addr),
    self.h()[addr.node].leaf ==> r == addr,
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::insert_at
@ret r
@spec
requires
    old(self).inv(),
    old(self).len < usize::MAX,
    addr is Some == (old(self)@.len() > 0),
    addr is Some ==> a_ok(old(self).h(), aa(addr->0)) && addr->0.offset.v() >= 0,
ensures
    ({
        let q = if addr is Some { at(old(self).h(), addr->0) } else { 0 };
        &&& final(self).inv()
        &&& 0 <= q <= old(self)@.len()
        &&& final(self)@ == old(self)@.insert(q, item)
        &&& r is Some && final(self).is_at(r->0, q)
    }),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::insert_exactly_at
@ret r
@spec
requires
    old(self).inv(),
    old(self).len < usize::MAX,
    addr is Some == (old(self)@.len() > 0),
    addr is Some ==> a_leaf(old(self).h(), addr->0),
ensures
    ({
        let q = if addr is Some { at(old(self).h(), addr->0) } else { 0 };
        &&& final(self).inv()
        &&& 0 <= q <= old(self)@.len()
        &&& final(self)@ == old(self)@.insert(q, item)
        &&& r is Some && final(self).is_at(r->0, q)
    }),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::replace_at
@ret r
@spec
requires old(self).inv(), a_item(old(self).h(), aa(addr)),
ensures
    ({
        let q = at(old(self).h(), addr);
        &&& final(self).inv()
        &&& 0 <= q < old(self)@.len()
        &&& r == old(self)@[q]
        &&& final(self)@ == old(self)@.update(q, item)
        &&& final(self).is_at(addr, q)
    }),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::remove_at
@ret r
@spec
requires old(self).inv(), a_ok(old(self).h(), aa(addr)),
ensures
    ({
        let q = at(old(self).h(), addr);
        &&& final(self).inv()
        &&& match r {
            Some((x, a)) => {
                &&& old(self).is_at(addr, q)
                &&& x == old(self)@[q]
                &&& final(self)@ == old(self)@.remove(q)
                &&& a is Some == (final(self)@.len() > 0)
                &&& a is Some ==> a_ok(final(self).h(), aa(a->0)) && a->0.offset.v() >= 0 && at(final(self).h(), a->0) == q
            },
            None => !a_item(old(self).h(), aa(addr)) && final(self)@ == old(self)@ && final(self).h() == old(self).h(),
        }
    }),
@at entry
proof { lemma_wf(self.h(), self.root); }
@at exit
proof { lemma_wf(final(self).h(), final(self).root); }

@fn RawBTree::node
@ret r
@spec
requires self.h().contains_key(id),
ensures r.an() == self.h()[id],
@at entry
broadcast use group_heap;

@fn RawBTree::node_mut
@ret r
@spec
requires old(self).h().contains_key(id),
ensures
    r.an() == old(self).h()[id],
    final(self).h() == old(self).h().insert(id, final(r).an()),
    final(self).root == old(self).root,
    final(self).len == old(self).len,
@at entry
broadcast use group_heap;

@fn RawBTree::insert
@ret r
@spec
requires old(self).inv(), old(self).len < usize::MAX, cmp_ok(cmp, &item),
ensures
    final(self).inv(),
    match r {
        Some(x) => exists|i: int| #[trigger] hit(cmp, old(self)@, &item, i) && x == old(self)@[i] && final(self)@ == old(self)@.update(i, item),
        None => exists|i: int| #[trigger] miss(cmp, old(self)@, &item, i) && final(self)@ == old(self)@.insert(i, item),
    },
    forall|a: int, b: int| #[trigger] ordered(cmp, old(self)@, &item, a, b) ==> (r is Some) == (a < b),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn RawBTree::remove
@ret r
@spec
requires old(self).inv(), cmp_ok(cmp, key),
ensures
    final(self).inv(),
    match r {
        Some(x) => exists|i: int| #[trigger] hit(cmp, old(self)@, key, i) && x == old(self)@[i] && final(self)@ == old(self)@.remove(i),
        None => final(self)@ == old(self)@ && final(self).h() == old(self).h() && exists|i: int| #[trigger] miss(cmp, old(self)@, key, i),
    },
    forall|a: int, b: int| #[trigger] ordered(cmp, old(self)@, key, a, b) ==> (r is Some) == (a < b),
@at entry
proof { lemma_wf(self.h(), self.root); }
