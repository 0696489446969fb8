@inherent RawBTree::Drop
@inherent IntoIter::Drop

@fn Leaf::forget
@spec
ensures
    final(self).an() =~= (AN { its: Seq::<T>::empty(), ..old(self).an() }),
    forgotten(old(self).items),
@at entry
broadcast use axiom_may_forget;
@at exit
proof { assert(final(self).an().its =~= Seq::<T>::empty()); }

@fn Internal::forget
@spec
ensures
    final(self).an().its.len() == 0,
    final(self).an().leaf == old(self).an().leaf,
    final(self).an().par == old(self).an().par,
    forgotten(old(self).other_children),
@at entry
broadcast use axiom_may_forget;

@fn Node::forget
@spec
ensures
    final(self).an().its.len() == 0,
    final(self).an().leaf == old(self).an().leaf,
    final(self).an().par == old(self).an().par,
    items_forgotten(*old(self)),

@fn RawBTree::clear::clear_closure
@spec
requires
    old(dropper).may().contains(vp0),
    !old(dropper).gone().contains(vp0),
ensures
    final(dropper).may() == old(dropper).may(),
    final(dropper).gone() == old(dropper).gone().push(vp0),
    final(dropper).lost() == old(dropper).lost().insert(vp0, vh[vp0].its),
@at entry
let ghost vits = vh[vp0].its;

@fn RawBTree::clear
@object visit_from_leaves
sig: fn clear_closure<T, S: Storage<T>>(dropper: &mut S::Dropper, vp0: S::Node, Ghost(vh): Ghost<Heap<S::Node, T>>)
caps: dropper=start_dropping
new: ClearVisit::<T, S> { d: dropper, h: Ghost(h0) }
back: dropper = vobj.d;
@spec
requires old(self).inv(),
ensures final(self).inv(), final(self)@ == Seq::<T>::empty(), destroyed(*old(self)),
@at entry
broadcast use group_heap;
let ghost t0 = *self;
let ghost h0 = self.h();
let ghost r0 = self.root;
proof {
    assert(self.nodes.h().dom() =~= h0.dom());
    lemma_wf(h0, r0);
    lemma_visits(h0, r0);
    if r0 is Some { lemma_visit_root(h0, r0->0, Seq::<S::Node>::empty()); }
}
@at before call start_dropping#0
proof {
    S::default_empty(self.nodes);
    assert(self.h() =~= Map::empty());
    lemma_wf(self.h(), self.root);
}
assert(nodes == t0.nodes);
let ghost vself = *self;
// from here on destructors of items run, which may panic: the tree is an empty one by then
@unwind before call visit_from_leaves#*
assert(self.inv());
assert(self@ == Seq::<T>::empty());
assert(self.h() =~= Map::empty());
@unwind before call drop_node#*
assert(self.inv());
assert(self@ == Seq::<T>::empty());
assert(self.h() =~= Map::empty());
@at before call visit_from_leaves#0
proof { assert(dropper.gone() == Seq::<S::Node>::empty()); }
@at before call drop_node#0
let ghost vits = h0[id].its;
let ghost d0 = dropper;
@at after call drop_node#0
proof {
    lemma_pushed(d0.gone(), id);
    assert(dropper.gone() =~= visits(h0, r0));
    assert(all_gone(h0, dropper.gone()));
    assert forall|y: S::Node| h0.contains_key(y) implies #[trigger] dropper.lost()[y] == h0[y].its by { assert(dropper.gone().contains(y)); if y != id { assert(d0.gone().contains(y)); } }
    assert(destroyed(t0));
}
@at exit
proof {
    S::default_empty(self.nodes);
    assert(self.h() =~= Map::empty());
    lemma_wf(self.h(), self.root);
    if r0 is None { assert(t0.h().dom() =~= Set::empty()); }
    assert(destroyed(t0));
}

@fn RawBTree::forget::forget_closure
@spec
requires
    *old(dropper) matches Some(d) ==> d.may().contains(vp0) && !d.gone().contains(vp0),
ensures
    (*final(dropper)) is Some <==> (*old(dropper)) is Some,
    *old(dropper) matches Some(d) ==> (*final(dropper))->0.may() == d.may() && (*final(dropper))->0.gone() == d.gone().push(vp0)
        && (*final(dropper))->0.lost() == d.lost().insert(vp0, Seq::<T>::empty()),
    items_forgotten(*old(vp1)),
    final(vp1).an().its.len() == 0,
@at before call drop_node#0
let ghost vits = vp1.an().its;
assert(vits =~= Seq::<T>::empty());

@fn RawBTree::forget
@object visit_from_leaves_mut
sig: fn forget_closure<T, S: Storage<T>>(dropper: &mut Option<S::Dropper>, vp0: S::Node, vp1: &mut Node<T, S>)
caps: dropper=start_dropping
new: ForgetVisit::<T, S> { d: dropper, t: Ghost(Seq::empty()), h: Ghost(h0) }
back: dropper = vobj.d; proof { assert(vobj.t@ =~= visits(h0, r0)); assert(dropper is Some ==> all_gone(h0, dropper->0.gone())); vdone = dropper is Some; assert(forall|y: S::Node| self.h().contains_key(y) ==> (#[trigger] self.h()[y]).its.len() == 0); vempty = true; assert(abandoned(t0)); }
@spec
requires old(self).inv(),
ensures final(self).inv(), final(self)@ == Seq::<T>::empty(), abandoned(*old(self)),
@at entry
broadcast use group_heap;
let ghost t0 = *self;
let ghost h0 = self.h();
let ghost r0 = self.root;
let ghost mut vdone = false;
let ghost mut vempty = false;
proof { assert(self.nodes.h().dom() =~= h0.dom()); }
@at before assign self.nodes#0
assert(vdone || old(self).nodes.drops());
assert(vempty);
@at exit
proof { S::default_empty(self.nodes); assert(self.h() =~= Map::empty()); lemma_wf(self.h(), self.root); }

@fn RawBTree::drop
@spec
requires old(self).inv(),
ensures final(self).inv(), final(self)@ == Seq::<T>::empty(), destroyed(*old(self)),
@at entry
proof { lemma_wf(self.h(), self.root); }

@fn IntoIter::drop
@spec
requires old(self).inv(),
ensures final(self).btree.inv(), final(self).btree@ == Seq::<T>::empty(), abandoned(old(self).btree),
@unwind entry
// the destructor of an item may panic: the tree, items handed out included, must not be destroyed then
assert(by_hand_IntoIter_btree());
@loop 0
invariant
    self.inv(),
    self.btree == old(self).btree,
ensures
    self.inv(),
    self.btree == old(self).btree,
    self@.len() == 0,
decreases self@.len(),
@at before call forget#0
assert(self@.len() == 0);
