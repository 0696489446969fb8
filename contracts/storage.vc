@trait Storage
spec fn h(&self) -> Map<Self::Node, Node<T, Self>>;
/// the storage destroys its nodes itself, no dropper is needed
spec fn drops(&self) -> bool;
proof fn default_empty(s: Self)
    requires call_ensures(<Self as Default>::default, (), s),
    ensures s.h() == Map::<Self::Node, Node<T, Self>>::empty();
proof fn node_eq()
    ensures
        <Self::Node as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(),
        forall|a: Self::Node, b: Self::Node| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) <==> a == b;

@type Storage::Dropper
type Dropper: Dropper<Self::Node, T>;
@--
@drop *::FusedIterator
@drop *::ExactSizeIterator
@drop usize::From<BoxPtr<T>>
@drop Dropper

@fn Storage::start_dropping
@ret r
@spec
ensures
    r matches Some(d) ==> d.gone() == Seq::<Self::Node>::empty() && d.may() == self.h().dom(),
    r is None ==> self.drops(),

@fn Storage::allocate_node
@ret id
@spec
ensures !old(self).h().contains_key(id), final(self).h() == old(self).h().insert(id, node),

@fn Storage::release_node
@ret r
@spec
requires old(self).h().contains_key(id),
ensures r == old(self).h()[id], final(self).h() == old(self).h().remove(id),

@fn Storage::get
@ret r
@spec
requires self.h().contains_key(id),
ensures *r == self.h()[id],

@fn Storage::get_mut
@ret r
@spec
requires old(self).h().contains_key(id),
ensures *r == old(self).h()[id], final(self).h() == old(self).h().insert(id, *final(r)),

@fn Storage::insert_node
@ret id
@spec
requires
    forall|c: Self::Node| #[trigger] node.an().kids.contains(c) ==> ah::<T, Self>(*old(self)).contains_key(c),
    node.an().kids.len() <= M,
ensures
    !ah::<T, Self>(*old(self)).contains_key(id),
    ah::<T, Self>(*final(self)) =~= h_adopt(ah::<T, Self>(*old(self)), node.an().kids, id).insert(id, node.an()),
@at entry
broadcast use group_heap;
let ghost h0 = ah::<T, Self>(*self);
let ghost n = node;
let ghost rk = n.an().kids;
proof {
    assert forall|j: int| 0 <= j < rk.len() implies h0.contains_key(#[trigger] rk[j]) by { assert(n.an().kids.contains(rk[j])); }
    assert(rk.subrange(0, 0) =~= Seq::empty());
}
@loop 0
invariant
    rk == n.an().kids,
    viter.ok(),
    viter.rest().len() <= rk.len(),
    viter.rest() =~= rk.subrange(rk.len() - viter.rest().len(), rk.len() as int),
    !h0.contains_key(id),
    forall|j: int| 0 <= j < rk.len() ==> h0.contains_key(#[trigger] rk[j]),
    ah::<T, Self>(*self) =~= h_adopt(h0, rk.subrange(0, rk.len() - viter.rest().len()), id).insert(id, n.an()),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at loop 0 start
broadcast use group_heap;
let ghost k = rk.len() - viter.rest().len();
let ghost hk = ah::<T, Self>(*self);
@at after call set_parent#0
proof {
    assert(rk.subrange(0, k + 1) =~= rk.subrange(0, k).push(rk[k]));
    assert(h0.contains_key(rk[k]));
    lemma_adopt_one(h0, rk, k, id);
    let a = h_adopt(h0, rk.subrange(0, k), id);
    assert(child_id == rk[k]);
    assert(rk[k] != id);
    assert(hk[rk[k]] == a[rk[k]]);
    assert(ah::<T, Self>(*self) =~= hk.insert(rk[k], AN { par: Some(id), ..a[rk[k]] }));
    assert(a.insert(id, n.an()).insert(rk[k], AN { par: Some(id), ..a[rk[k]] }) =~= a.insert(rk[k], AN { par: Some(id), ..a[rk[k]] }).insert(id, n.an()));
}
@at exit
proof { assert(rk.subrange(0, rk.len() as int) =~= rk); }

@fn Storage::normalize
@ret r
@spec
requires
    shaped(ah::<T, Self>(*self)),
    a_ok(ah::<T, Self>(*self), aa(addr)),
ensures
    ({
        let h = ah::<T, Self>(*self);
        match r {
            Some(b) => if addr.offset.v() < h[addr.node].its.len() { b == addr } else {
                a_item(h, aa(b)) && at(h, b) == at(h, addr)
            },
            None => addr.offset.v() == h[addr.node].its.len() && at(h, addr) == items(h).len(),
        }
    }),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost a0 = addr;
proof { Self::node_eq(); assert(node_ok(h, g, addr.node)); }
@loop 0
invariant_except_break
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(a0)),
    a_ok(h, aa(addr)),
    at(h, addr) == at(h, a0),
    addr == a0 || a0.offset.v() == h[a0.node].its.len() && addr.offset.v() >= 0,
ensures
    match vbrk0 {
        Some(b) => if a0.offset.v() < h[a0.node].its.len() { b == a0 } else { a_item(h, aa(b)) && at(h, b) == at(h, a0) },
        None => a0.offset.v() == h[a0.node].its.len() && at(h, a0) == items(h).len(),
    },
decreases (g.ht)(g.root) - (g.ht)(addr.node),
@at loop 0 start
broadcast use group_heap;
let ghost n0 = addr.node;
proof {
    Self::node_eq();
    assert(node_ok(h, g, n0));
    lemma_gp_bounds(h, g, aa(addr));
    if h[n0].par is Some { lemma_up(h, g, n0); } else { assert(node_ok(h, g, g.root)); }
}
@at after assign addr.offset#0
proof { lemma_climb(h, g, n0, Some(addr.offset.0)); }

@fn Storage::leaf_address
@ret r
@spec
requires
    shaped(ah::<T, Self>(*self)),
    a_ok(ah::<T, Self>(*self), aa(addr)),
    addr.offset.v() >= 0,
ensures
    a_leaf(ah::<T, Self>(*self), r),
    at(ah::<T, Self>(*self), r) == at(ah::<T, Self>(*self), addr),
    ah::<T, Self>(*self)[addr.node].leaf ==> r == addr,
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost a0 = addr;
@loop 0
invariant
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(addr)),
    addr.offset.v() >= 0,
    at(h, addr) == at(h, a0),
    h[a0.node].leaf ==> addr == a0,
ensures
    h[addr.node].leaf,
decreases (g.ht)(addr.node),
@at loop 0 start
broadcast use group_heap;
proof {
    lemma_edge(h, g, addr.node, addr.offset.v());
    if !h[addr.node].leaf {
        let c = h[addr.node].kids[addr.offset.v()];
        lemma_edge(h, g, c, 0);
        lemma_gp_bounds(h, g, (c, gp_len(h, c)));
    }
}

@fn Storage::previous_item_address
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
requires
    shaped(ah::<T, Self>(*self)),
    a_ok(ah::<T, Self>(*self), aa(addr)),
ensures
    ({
        let h = ah::<T, Self>(*self);
        match r {
            Some(b) => a_item(h, aa(b)) && at(h, b) == at(h, addr) - 1,
            None => at(h, addr) == 0,
        }
    }),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost q = at(h, addr);
@loop 0
invariant
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(addr)),
    at(h, addr) == q,
decreases (g.ht)(addr.node),
@at loop 0 start
broadcast use group_heap;
proof {
    Self::node_eq();
    lemma_edge(h, g, addr.node, addr.offset.v());
    if addr.offset.v() > 0 { lemma_edge(h, g, addr.node, addr.offset.v() - 1); }
    if !h[addr.node].leaf && addr.offset.v() >= 0 {
        let c = h[addr.node].kids[addr.offset.v()];
        lemma_edge(h, g, c, 0);
        lemma_gp_bounds(h, g, (c, gp_len(h, c)));
    }
}
@loop 1
invariant
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(addr)),
    addr.offset.v() <= 0 ==> (g.st)(addr.node) == q,
    addr.offset.v() > 0 ==> gp(h, g, addr.node, addr.offset.v() - 1) == q - 1,
decreases (g.ht)(g.root) - (g.ht)(addr.node),
@at loop 1 start
broadcast use group_heap;
let ghost n0 = addr.node;
proof {
    Self::node_eq();
    assert(node_ok(h, g, n0));
    if h[n0].par is Some { lemma_up(h, g, n0); } else { assert(node_ok(h, g, g.root)); }
}
@at after assign addr.offset#1
proof { lemma_climb(h, g, n0, Some(addr.offset.0)); }

@fn Storage::next_item_address
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
requires
    shaped(ah::<T, Self>(*self)),
    a_ok(ah::<T, Self>(*self), aa(addr)),
ensures
    ({
        let h = ah::<T, Self>(*self);
        match r {
            Some(b) => a_item(h, aa(b)) && at(h, b) == behind(h, addr),
            None => behind(h, addr) == items(h).len(),
        }
    }),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost q = behind(h, addr);
proof {
    lemma_edge(h, g, addr.node, addr.offset.v());
}
@loop 0
invariant
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(addr)),
    addr.offset.v() >= 0,
    edge(h, g, addr.node, addr.offset.v()) == q,
decreases (g.ht)(addr.node),
@at loop 0 start
broadcast use group_heap;
proof {
    Self::node_eq();
    lemma_edge(h, g, addr.node, addr.offset.v());
    if !h[addr.node].leaf {
        let c = h[addr.node].kids[addr.offset.v()];
        lemma_edge(h, g, c, 0);
    }
}
@loop 1
invariant
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(addr)),
    addr.offset.v() >= 0,
    at(h, addr) == q,
decreases (g.ht)(g.root) - (g.ht)(addr.node),
@at loop 1 start
broadcast use group_heap;
let ghost n0 = addr.node;
proof {
    Self::node_eq();
    assert(node_ok(h, g, n0));
    lemma_gp_bounds(h, g, aa(addr));
    if h[n0].par is Some { lemma_up(h, g, n0); } else { assert(node_ok(h, g, g.root)); }
}
@at after assign addr.offset#1
proof { lemma_climb(h, g, n0, Some(addr.offset.0)); }

@fn Storage::next_item_or_back_address
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
requires
    shaped(ah::<T, Self>(*self)),
    a_ok(ah::<T, Self>(*self), aa(addr)),
ensures
    ({
        let h = ah::<T, Self>(*self);
        &&& r is Some
        &&& a_ok(h, aa(r->0)) && r->0.offset.v() >= 0
        &&& at(h, r->0) == behind(h, addr)
        &&& behind(h, addr) < items(h).len() ==> a_item(h, aa(r->0))
    }),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost q = behind(h, addr);
proof {
    lemma_edge(h, g, addr.node, addr.offset.v());
}
@at after let original_addr_shifted#0
proof {
    lemma_edge(h, g, addr.node, addr.offset.v());
    lemma_gp_bounds(h, g, aa(addr));
}
@loop 0
invariant
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(addr)),
    a_ok(h, aa(original_addr_shifted)),
    original_addr_shifted.offset.v() >= 0,
    q == g.s.len() ==> at(h, original_addr_shifted) == q,
    addr.offset.v() >= 0,
    edge(h, g, addr.node, addr.offset.v()) == q,
decreases (g.ht)(addr.node),
@at loop 0 start
broadcast use group_heap;
proof {
    Self::node_eq();
    lemma_edge(h, g, addr.node, addr.offset.v());
    if !h[addr.node].leaf {
        let c = h[addr.node].kids[addr.offset.v()];
        lemma_edge(h, g, c, 0);
    }
}
@loop 1
invariant
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(addr)),
    a_ok(h, aa(original_addr_shifted)),
    original_addr_shifted.offset.v() >= 0,
    q == g.s.len() ==> at(h, original_addr_shifted) == q,
    addr.offset.v() >= 0,
    at(h, addr) == q,
decreases (g.ht)(g.root) - (g.ht)(addr.node),
@at loop 1 start
broadcast use group_heap;
let ghost n0 = addr.node;
proof {
    Self::node_eq();
    assert(node_ok(h, g, n0));
    lemma_gp_bounds(h, g, aa(addr));
    if h[n0].par is Some { lemma_up(h, g, n0); } else { assert(node_ok(h, g, g.root)); }
}
@at after assign addr.offset#1
proof { lemma_climb(h, g, n0, Some(addr.offset.0)); }

@fn Storage::next_back_address
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
requires
    shaped(ah::<T, Self>(*self)),
    a_ok(ah::<T, Self>(*self), aa(addr)),
ensures back_res(ah::<T, Self>(*self), addr, r),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost a0 = addr;
let ghost q = behind(h, addr);
@loop 0
invariant_except_break
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(a0)),
    a_ok(h, aa(addr)),
    q == behind(h, a0),
    addr == a0 || addr.offset.v() == -1 && (g.st)(addr.node) == q && !h[a0.node].leaf && a0.offset.v() < h[a0.node].its.len(),
ensures
    if a0.offset.v() < h[a0.node].its.len() {
        &&& a_leaf(h, addr) && at(h, addr) == q
        &&& h[a0.node].leaf ==> aa(addr) == (a0.node, a0.offset.v() + 1)
        &&& !h[a0.node].leaf ==> addr.offset.v() == 0
    } else {
        h[a0.node].par == Some(addr.node) && a_ok(h, aa(addr)) && h[addr.node].kids[addr.offset.v()] == a0.node && at(h, addr) == at(h, a0)
    },
decreases (g.ht)(addr.node),
@at loop 0 start
broadcast use group_heap;
let ghost n0 = addr.node;
proof {
    Self::node_eq();
    lemma_edge(h, g, n0, addr.offset.v());
    lemma_gp_bounds(h, g, aa(addr));
    if !h[n0].leaf && addr.offset.v() < h[n0].its.len() {
        lemma_edge(h, g, n0, addr.offset.v() + 1);
        lemma_edge(h, g, h[n0].kids[addr.offset.v() + 1], -1);
    }
    if h[n0].par is Some { lemma_up(h, g, n0); }
}
@at before break#1
proof { lemma_climb(h, g, n0, Some(addr.offset.0)); }

@fn Storage::previous_front_address
@attr #[verifier::allow_complex_invariants]
@attr #[verifier::loop_isolation(false)]
@ret r
@spec
requires
    shaped(ah::<T, Self>(*self)),
    a_ok(ah::<T, Self>(*self), aa(addr)),
ensures front_res(ah::<T, Self>(*self), addr, r),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost a0 = addr;
let ghost q = at(h, addr);
@loop 0
invariant_except_break
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    a_ok(h, aa(a0)),
    a_ok(h, aa(addr)),
    at(h, addr) == q,
    addr == a0 || addr.offset.v() == h[addr.node].its.len() && !h[a0.node].leaf && a0.offset.v() >= 0,
ensures
    if a0.offset.v() >= 0 {
        &&& a_ok(h, aa(addr)) && h[addr.node].leaf && addr.offset.v() < h[addr.node].its.len()
        &&& behind(h, addr) == q
        &&& h[a0.node].leaf ==> aa(addr) == (a0.node, a0.offset.v() - 1)
        &&& !h[a0.node].leaf ==> addr.offset.v() == h[addr.node].its.len() - 1
    } else {
        h[a0.node].par == Some(addr.node) && a_ok(h, aa(addr)) && addr.offset.v() < h[addr.node].its.len() && h[addr.node].kids[addr.offset.v() + 1] == a0.node
            && behind(h, addr) == q
    },
decreases (g.ht)(addr.node),
@at loop 0 start
broadcast use group_heap;
let ghost n0 = addr.node;
proof {
    Self::node_eq();
    lemma_edge(h, g, n0, addr.offset.v());
    lemma_gp_bounds(h, g, aa(addr));
    if h[n0].leaf && addr.offset.v() > 0 { lemma_edge(h, g, n0, addr.offset.v() - 1); }
    if !h[n0].leaf && addr.offset.v() >= 0 {
        let c = h[n0].kids[addr.offset.v()];
        lemma_edge(h, g, c, 0);
        lemma_gp_bounds(h, g, (c, gp_len(h, c)));
    }
    if h[n0].par is Some { lemma_up(h, g, n0); }
}
@at after assign addr.offset#1
proof { lemma_climb(h, g, n0, Some(addr.offset.0)); }

@fn Storage::address_in
@ret r
@spec
requires
    shaped(ah::<T, Self>(*self)),
    ah::<T, Self>(*self).contains_key(id),
    cmp_ok(cmp, key),
ensures
    ({
        let h = ah::<T, Self>(*self);
        let lo = (gh(h).st)(id);
        let hi = (gh(h).en)(id);
        match r {
            Ok(a) => a_item(h, aa(a)) && lo <= at(h, a) < hi && cmps(cmp, items(h)[at(h, a)], key, Ordering::Equal),
            Err(a) => a_leaf(h, a) && gap_ok(cmp, items(h), key, lo, at(h, a), hi),
        }
    }),
@attr #[verifier::loop_isolation(false)]
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost lo = (g.st)(id);
let ghost hi = (g.en)(id);
proof { assert(node_ok(h, g, id)); }
@loop 0
invariant
    h == ah::<T, Self>(*self),
    g == gh(h),
    shape(h, g),
    h.contains_key(id),
    cmp_ok(cmp, key),
    lo <= (g.st)(id) <= (g.en)(id) <= hi,
    (g.st)(id) > lo ==> cmps(cmp, g.s[(g.st)(id) - 1], key, Ordering::Less),
    (g.en)(id) < hi ==> cmps(cmp, g.s[(g.en)(id)], key, Ordering::Greater),
decreases (g.ht)(id),
@at loop 0 start
broadcast use group_heap;
let ghost n0 = id;
proof {
    assert(node_ok(h, g, n0));
    assert forall|o: int| 0 <= o <= h[n0].its.len() implies #[trigger] edge(h, g, n0, o) == edge(h, g, n0, o)
        && (o > 0 ==> edge(h, g, n0, o) == gp(h, g, n0, o - 1) + 1) by { lemma_edge(h, g, n0, o); }
    assert forall|o: int| 0 <= o < h[n0].its.len() implies (g.st)(n0) <= gp(h, g, n0, o) < (g.en)(n0) && g.s[#[trigger] gp(h, g, n0, o)] == h[n0].its[o] by { lemma_gp_bounds(h, g, (n0, o)); }
}
@at arm Err((offset,None))#0
proof { lemma_gp_bounds(h, g, (n0, offset as int)); if offset > 0 { lemma_gp_bounds(h, g, (n0, offset - 1)); lemma_edge(h, g, n0, offset as int); } if offset < h[n0].its.len() { lemma_gp_bounds(h, g, (n0, offset as int)); } }
@at arm Err((_,Some(child_id)))#0
proof { 
    let o = choose|o: int| gap_res(cmp, h[n0].its, key, false, o) && h[n0].kids[o] == child_id;
    lemma_kid(h, g, n0, o);
    lemma_edge(h, g, n0, o);
    if o > 0 { lemma_gp_bounds(h, g, (n0, o - 1)); }
    if o < h[n0].its.len() { lemma_gp_bounds(h, g, (n0, o)); }
}

@fn Storage::insert_at
@ret r
@spec
requires
    wf(ah::<T, Self>(*old(self)), root),
    addr is Some == root is Some,
    addr is Some ==> a_ok(ah::<T, Self>(*old(self)), aa(addr->0)) && addr->0.offset.v() >= 0,
ensures
    ({
        let h = ah::<T, Self>(*old(self));
        let q = if addr is Some { at(h, addr->0) } else { 0 };
        &&& 0 <= q <= tv(h, root).len()
        &&& ins_post(ah::<T, Self>(*final(self)), r.0, r.1, tv(h, root), q, item)
    }),

@fn Storage::insert_exactly_at
@ret r
@spec
requires
    wf(ah::<T, Self>(*old(self)), root),
    addr is Some == root is Some,
    addr is Some ==> a_leaf(ah::<T, Self>(*old(self)), addr->0),
ensures
    ({
        let h = ah::<T, Self>(*old(self));
        let q = if addr is Some { at(h, addr->0) } else { 0 };
        &&& 0 <= q <= tv(h, root).len()
        &&& ins_post(ah::<T, Self>(*final(self)), r.0, r.1, tv(h, root), q, item)
    }),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
proof {
    lemma_wf(h, root);
    if addr is Some { lemma_insert_here(h, aa(addr->0), item, h_its(h, addr->0.node, h[addr->0.node].its.insert(addr->0.offset.v(), item)));
        assert(size_ok(h, root->0, addr->0.node)); assert(node_ok(h, gh(h), addr->0.node)); }
}
@at exit
proof { if addr is None { lemma_one(ah::<T, Self>(*self), r.0->0, item); } }

@fn Storage::replace_at
@ret r
@spec
requires
    shaped(ah::<T, Self>(*old(self))),
    a_item(ah::<T, Self>(*old(self)), aa(addr)),
ensures
    ({
        let h = ah::<T, Self>(*old(self));
        let h1 = ah::<T, Self>(*final(self));
        &&& r == items(h)[at(h, addr)]
        &&& 0 <= at(h, addr) < items(h).len()
        &&& upd_post(h, h1, aa(addr), item)
    }),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
@at exit
proof { lemma_update_here(h, aa(addr), item, ah::<T, Self>(*self)); }

@fn Storage::remove_rightmost_leaf_of
@ret r
@spec
requires
    wfh(ah::<T, Self>(*old(self))),
    ah::<T, Self>(*old(self)).contains_key(id),
ensures
    ({
        let h = ah::<T, Self>(*old(self));
        let l = r.1;
        &&& h.contains_key(l) && h[l].leaf && h[l].its.len() >= 1
        &&& (gh(h).en)(l) == (gh(h).en)(id)
        &&& r.0 == h[l].its[h[l].its.len() - 1]
        &&& ah::<T, Self>(*final(self)) =~= h_its(h, l, h[l].its.remove(h[l].its.len() - 1))
    }),
@attr #[verifier::loop_isolation(false)]
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost id0 = id;
@loop 0
invariant
    h =~= ah::<T, Self>(*self),
    g == gh(h),
    wfh(h),
    h.contains_key(id),
    (g.en)(id) == (g.en)(id0),
decreases (g.ht)(id),
@at loop 0 start
broadcast use group_heap;
proof {
    lemma_not_empty(h, id);
    assert(node_ok(h, g, id));
    if !h[id].leaf { lemma_kid(h, g, id, h[id].its.len() as int); }
    let its = h[id].its;
    assert(its.subrange(0, its.len() - 1) =~= its.remove(its.len() - 1));
}

@fn Storage::remove_at
@ret r
@spec
requires
    wf(ah::<T, Self>(*old(self)), root),
    root is Some,
    a_ok(ah::<T, Self>(*old(self)), aa(addr)),
ensures
    ({
        let h = ah::<T, Self>(*old(self));
        let h1 = ah::<T, Self>(*final(self));
        let q = at(h, addr);
        match r {
            Some(x) => {
                &&& a_item(h, aa(addr))
                &&& 0 <= q < tv(h, root).len()
                &&& x.item == tv(h, root)[q]
                &&& wf(h1, x.new_root)
                &&& tv(h1, x.new_root) == tv(h, root).remove(q)
                &&& x.new_addr is Some == x.new_root is Some
                &&& x.new_addr is Some ==> a_ok(h1, aa(x.new_addr->0)) && x.new_addr->0.offset.v() >= 0 && at(h1, x.new_addr->0) == q
            },
            None => !a_item(h, aa(addr)) && h1 =~= h,
        }
    }),
@at entry
broadcast use group_heap;
let ghost h = ah::<T, Self>(*self);
let ghost g = gh(h);
let ghost q = at(h, addr);
proof {
    lemma_wf(h, root);
    lemma_edge(h, g, addr.node, addr.offset.v());
    lemma_gp_bounds(h, g, aa(addr));
    if a_item(h, aa(addr)) {
        if h[addr.node].leaf {
            lemma_remove_here(h, aa(addr), h_its(h, addr.node, h[addr.node].its.remove(addr.offset.v())));
        } else {
            lemma_kid(h, g, addr.node, addr.offset.v());
            lemma_kid(h, g, addr.node, addr.offset.v() + 1);
            lemma_not_empty(h, h[addr.node].kids[addr.offset.v()]);
            lemma_not_empty(h, h[addr.node].kids[addr.offset.v() + 1]);
        }
    }
}
@at arm Some(Err(left_child_id))#0
proof { assert(ah::<T, Self>(*self) =~= h); }
@at after let (separator,leaf_id)#0
let ghost h1 = ah::<T, Self>(*self);
proof {
    let lo = h[leaf_id].its.len() - 1;
    lemma_gp_bounds(h, g, (leaf_id, lo));
    assert(node_ok(h, g, leaf_id));
    lemma_remove_here(h, (leaf_id, lo), h1);
    assert(at_gp(h, g, (leaf_id, lo)) == q - 1);
    assert(new_addr.node != leaf_id) by { if new_addr.node == leaf_id { lemma_gp_bounds(h, g, aa(new_addr)); } }
    assert(addr.node != leaf_id);
    assert(at_gp(h1, gh(h1), aa(addr)) == q - 1);
    assert(at_gp(h1, gh(h1), aa(new_addr)) == q);
}
@at after let item#0
let ghost h2 = ah::<T, Self>(*self);
proof {
    lemma_update_here(h1, aa(addr), separator, h2);
    assert(items(h2) =~= items(h).remove(q));
    assert(near(h2, gh(h).root, leaf_id));
}
