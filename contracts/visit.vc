@fn Node::visit_from_leaves_with
@spec
requires
    shaped(ah::<T, S>(*nodes)),
    has(ah::<T, S>(*nodes), self.an()),
    old(f).ok(),
    forall|y: S::Node| #[trigger] below(ah::<T, S>(*nodes), self.an()).contains(y) ==> old(f).dom().contains(y),
    fresh(old(f).trace(), below(ah::<T, S>(*nodes), self.an())),
ensures
    final(f).ok(),
    final(f).dom() == old(f).dom(),
    final(f).kept() == old(f).kept(),
    final(f).trace() == old(f).trace() + below(ah::<T, S>(*nodes), self.an()),
decreases hk(ah::<T, S>(*nodes), self.an()),
@attr #[verifier::loop_isolation(false)]
@attr #[verifier::allow_complex_invariants]
@at entry
broadcast use group_heap;
let ghost h = ah::<T, S>(*nodes);
let ghost g = gh(h);
let ghost x = choose|x: S::Node| h.contains_key(x) && #[trigger] h[x] == self.an();
let ghost kids = h[x].kids;
let ghost k = (g.ht)(x);
let ghost t0 = f.trace();
proof {
    lemma_hk(h, g, x);
    lemma_post(h, g, x, kids.len() as int);
    assert(post_to(h, kids, k, 0) =~= Seq::empty());
    assert(t0 + Seq::<S::Node>::empty() =~= t0);
    assert(h[x].leaf ==> below(h, self.an()) =~= Seq::empty());
}
@loop 0
invariant
    h == ah::<T, S>(*nodes), g == gh(h), shape(h, g), h.contains_key(x), h[x] == self.an(), kids == h[x].kids, k == (g.ht)(x), k == hk(h, self.an()), !h[x].leaf,
    viter.rest().len() <= kids.len(),
    viter.rest() =~= kids.subrange(kids.len() - viter.rest().len(), kids.len() as int),
    f.ok(),
    f.dom() == old(f).dom(),
    f.kept() == old(f).kept(),
    f.trace() == t0 + post_to(h, kids, k, kids.len() - viter.rest().len()),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at before call get#0
let ghost i = kids.len() - viter.rest().len();
let ghost before = post_to(h, kids, k, i - 1);
let ghost sub = below(h, h[c]);
proof {
    assert(kids[i - 1] == c);
    lemma_kid(h, g, x, i - 1);
    lemma_hk(h, g, c);
    lemma_visit_step(h, g, x, i, t0, f.trace(), f.dom());
    assert(!f.trace().contains(c));
}
@at loop 0 end
proof { assert(f.trace() =~= t0 + post_to(h, kids, k, kids.len() - viter.rest().len())); }

@fn Node::visit_from_leaves
@spec
requires
    shaped(ah::<T, S>(*nodes)),
    has(ah::<T, S>(*nodes), self.an()),
    old(f).ok(),
    forall|y: S::Node| #[trigger] below(ah::<T, S>(*nodes), self.an()).contains(y) ==> old(f).dom().contains(y),
    fresh(old(f).trace(), below(ah::<T, S>(*nodes), self.an())),
ensures
    final(f).ok(),
    final(f).dom() == old(f).dom(),
    final(f).kept() == old(f).kept(),
    final(f).trace() == old(f).trace() + below(ah::<T, S>(*nodes), self.an()),

@fn RawBTree::visit_from_leaves
@spec
requires
    self.inv(),
    old(f).ok(),
    forall|y: S::Node| #[trigger] self.h().contains_key(y) ==> old(f).dom().contains(y) && !old(f).trace().contains(y),
ensures
    final(f).ok(),
    final(f).dom() == old(f).dom(),
    final(f).kept() == old(f).kept(),
    final(f).trace() == old(f).trace() + visits(self.h(), self.root),
    visit_ok(self.h(), visits(self.h(), self.root)),
@at entry
broadcast use group_heap;
let ghost t0 = f.trace();
proof {
    lemma_wf(self.h(), self.root);
    lemma_visits(self.h(), self.root);
    if self.root is Some { lemma_visit_root(self.h(), self.root->0, t0); }
}
@at exit
proof { assert(f.trace() =~= t0 + visits(self.h(), self.root)); }

@fn Node::visit_from_leaves_mut_with
@spec
requires
    shaped(old(f).dom()),
    has(old(f).dom(), self.an()),
    old(f).ok(),
    forall|y: S::Node| #[trigger] below(old(f).dom(), self.an()).contains(y) ==> ah::<T, S>(*old(nodes)).contains_key(y) && ah::<T, S>(*old(nodes))[y] == old(f).dom()[y],
    fresh(old(f).trace(), below(old(f).dom(), self.an())),
ensures
    final(f).ok(),
    final(f).dom() == old(f).dom(),
    final(f).trace() == old(f).trace() + below(old(f).dom(), self.an()),
    final(f).left() == old(f).left(),
    final(f).kept() == old(f).kept(),
    changed_in(ah::<T, S>(*old(nodes)), ah::<T, S>(*final(nodes)), below(old(f).dom(), self.an()), old(f).left()),
decreases hk(old(f).dom(), self.an()),
@at entry
broadcast use group_heap;
let ghost h = f.dom();
let ghost p = f.left();
let ghost g = gh(h);
let ghost x = choose|x: S::Node| h.contains_key(x) && #[trigger] h[x] == self.an();
let ghost kids = h[x].kids;
let ghost k = (g.ht)(x);
let ghost t0 = f.trace();
let ghost m0 = ah::<T, S>(*nodes);
proof {
    lemma_hk(h, g, x);
    lemma_post(h, g, x, kids.len() as int);
    assert(post_to(h, kids, k, 0) =~= Seq::empty());
    assert(t0 + Seq::<S::Node>::empty() =~= t0);
    assert(h[x].leaf ==> below(h, self.an()) =~= Seq::empty());
    assert forall|y: S::Node| #[trigger] below(h, self.an()).contains(y) implies h.dom().contains(y) by { assert(h.contains_key(y)); }
}
@loop 0
invariant
    shaped(h),
    h == old(f).dom(),
    p == old(f).left(), f.left() == p, f.kept() == old(f).kept(),
    forall|y: S::Node| #[trigger] below(h, self.an()).contains(y) ==> h.dom().contains(y),
    fresh(t0, below(h, self.an())),
    forall|y: S::Node| #[trigger] below(h, self.an()).contains(y) ==> m0.contains_key(y) && m0[y] == h[y],
    f.dom() == h, g == gh(h), shape(h, g), h.contains_key(x), h[x] == self.an(), kids == h[x].kids, k == (g.ht)(x), k == hk(h, self.an()), !h[x].leaf,
    viter.rest().len() <= kids.len(),
    viter.rest() =~= kids.subrange(kids.len() - viter.rest().len(), kids.len() as int),
    f.ok(),
    f.trace() == t0 + post_to(h, kids, k, kids.len() - viter.rest().len()),
    changed_in(m0, ah::<T, S>(*nodes), post_to(h, kids, k, kids.len() - viter.rest().len()), p),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at loop 0 start
broadcast use group_heap;
let ghost i = kids.len() - viter.rest().len() + 1;
let ghost m1 = ah::<T, S>(*nodes);
@at before call get_mut#0
proof {
    assert(kids[i - 1] == c);
    lemma_kid(h, g, x, i - 1);
    lemma_hk(h, g, c);
    lemma_visit_step(h, g, x, i, t0, f.trace(), h.dom());
    lemma_visit_mut(h, g, x, i, m0, m1, p);
}
@at before call visit_from_leaves_mut_with#0
let ghost m2 = ah::<T, S>(*nodes);
proof {
    assert(m2 =~= m1.insert(c, m2[c]));
    assert(child.an() == h[c]);
    lemma_visit_put(h, below(h, h[c]), c, m1, m2);
}
@at after call visit#0
proof { lemma_visit_changed(h, g, x, i, m0, m1, ah::<T, S>(*nodes), p); }
@at loop 0 end
proof { assert(f.trace() =~= t0 + post_to(h, kids, k, kids.len() - viter.rest().len())); }

@fn Node::visit_from_leaves_mut
@spec
requires
    shaped(old(f).dom()),
    has(old(f).dom(), self.an()),
    old(f).ok(),
    forall|y: S::Node| #[trigger] below(old(f).dom(), self.an()).contains(y) ==> ah::<T, S>(*old(nodes)).contains_key(y) && ah::<T, S>(*old(nodes))[y] == old(f).dom()[y],
    fresh(old(f).trace(), below(old(f).dom(), self.an())),
ensures
    final(f).ok(),
    final(f).dom() == old(f).dom(),
    final(f).trace() == old(f).trace() + below(old(f).dom(), self.an()),
    final(f).left() == old(f).left(),
    final(f).kept() == old(f).kept(),
    changed_in(ah::<T, S>(*old(nodes)), ah::<T, S>(*final(nodes)), below(old(f).dom(), self.an()), old(f).left()),

@fn RawBTree::visit_from_leaves_mut
@spec
requires
    old(self).inv(),
    old(f).ok(),
    old(f).dom() == old(self).h(),
    forall|y: S::Node| #[trigger] old(self).h().contains_key(y) ==> !old(f).trace().contains(y),
ensures
    final(f).ok(),
    final(f).dom() == old(f).dom(),
    final(f).trace() == old(f).trace() + visits(old(self).h(), old(self).root),
    visit_ok(old(self).h(), visits(old(self).h(), old(self).root)),
    final(f).kept() == old(f).kept(),
    final(self).root == old(self).root,
    final(self).len == old(self).len,
    final(self).h().dom() =~= old(self).h().dom(),
    forall|y: S::Node| old(self).h().contains_key(y) ==> (old(f).left())(old(self).h()[y], #[trigger] final(self).h()[y]),
@at entry
broadcast use group_heap;
let ghost t0 = f.trace();
let ghost h0 = self.h();
let ghost r0 = self.root;
let ghost p = f.left();
let ghost mut vm = h0;
proof {
    lemma_wf(h0, r0);
    lemma_visits(h0, r0);
    if r0 is Some { lemma_visit_root(h0, r0->0, t0); }
}
@at before call visit_from_leaves_mut#0
let ghost vm2 = ah::<T, S>(self.nodes);
proof {
    let r = r0->0;
    assert(vm2 =~= h0.insert(r, vm2[r]));
    assert forall|y: S::Node| #[trigger] below(h0, h0[r]).contains(y) implies vm2.contains_key(y) && vm2[y] == h0[y] by {}
}
@at after call visit_from_leaves_mut#0
proof {
    vm = ah::<T, S>(self.nodes);
    let b = below(h0, h0[r0->0]);
    assert(changed_in(vm2, vm, b, p));
    assert forall|y: S::Node| b.contains(y) implies p(h0[y], #[trigger] vm[y]) by { assert(vm2.contains_key(y)); }
    assert(!b.contains(r0->0));
    assert(vm[r0->0] == vm2[r0->0]);
}
@at exit
proof {
    assert(f.trace() =~= t0 + visits(h0, r0));
    if r0 is Some {
        let b = below(h0, h0[r0->0]);
        assert(self.h() == vm);
        assert forall|y: S::Node| h0.contains_key(y) implies p(h0[y], #[trigger] self.h()[y]) by {
            assert(visits(h0, r0).contains(y));
            lemma_pushed(b, r0->0);
            if y == r0->0 { assert(p(h0[y], vm[y])); } else { assert(b.contains(y)); assert(p(h0[y], vm[y])); }
        }
    }
}
