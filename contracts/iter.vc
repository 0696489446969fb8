@inherent Iter::Iterator
@inherent Iter::DoubleEndedIterator

@fn Iter::new
@ret r
@spec
requires btree.inv(),
ensures r.inv(), r@ == btree@, r.btree == btree,
@at exit
proof { assert(r@ =~= btree@); }

@fn Iter::size_hint
@ret r
@spec
requires self.inv(),
ensures r == (self@.len() as usize, Some(self@.len() as usize)), self@.len() <= usize::MAX,

@fn Iter::next
@ret r
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    final(self).btree == old(self).btree,
    match r {
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
    },
@at entry
broadcast use group_heap;
proof { lemma_wf(self.btree.h(), self.btree.root); if self.addr is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.addr->0)); } }
@at exit
proof {
    if self.addr is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.addr->0)); }
    if r is Some { assert(final(self)@ =~= old(self)@.skip(1)); }
}

@fn Iter::next_back
@ret r
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    final(self).btree == old(self).btree,
    match r {
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.take(old(self)@.len() - 1),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
    },
@at entry
broadcast use group_heap;
proof { lemma_wf(self.btree.h(), self.btree.root); if self.end is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.end->0)); } }
@at exit
proof { if r is Some { assert(final(self)@ =~= old(self)@.take(old(self)@.len() - 1)); } }

@fn RawBTree::iter
@ret r
@spec
requires self.inv(),
ensures r.inv(), r@ == self@, r.btree == self,

@fn Iter::Clone::clone
@ret r
@spec
ensures r == *self,

@inherent &'aRawBTree<T,S>::IntoIterator
@rename &'aRawBTree<T,S>::IntoIterator::into_iter iter_of_ref

@fn iter_of_ref
@ret r
@spec
requires vself.inv(),
ensures r.inv(), r@ == vself@, r.btree == vself,

@inherent IterMut::Iterator
@inherent IterMut::DoubleEndedIterator

@fn IterMut::new
@ret r
@spec
requires old(btree).inv(),
ensures r.inv(), r@ == old(btree)@, *r.btree == *old(btree), *final(r.btree) == *final(btree),
@at exit
proof { assert(r@ =~= old(btree)@); }

@fn IterMut::size_hint
@ret r
@spec
requires self.inv(),
ensures r == (self@.len() as usize, Some(self@.len() as usize)), self@.len() <= usize::MAX,

@fn IterMut::next
@ret r
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    *final(final(self).btree) == *final(old(self).btree),
    final(self).hi() == old(self).hi() - 0int,
    final(self).lo() == old(self).lo() + (if r is Some { 1int } else { 0 }),
    match r {
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.skip(1) && (*final(self).btree)@ == (*old(self).btree)@.update(old(self).lo(), *final(x)),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@ && (*final(self).btree)@ == (*old(self).btree)@,
    },
@at entry
broadcast use group_heap;
proof { lemma_wf(self.btree.h(), self.btree.root); if self.addr is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.addr->0)); } }
@at exit
proof {
    if self.addr is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.addr->0)); }
    if r is Some { assert(final(self)@ =~= old(self)@.skip(1)); }
}

@fn IterMut::next_back
@ret r
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    *final(final(self).btree) == *final(old(self).btree),
    final(self).hi() == old(self).hi() - (if r is Some { 1int } else { 0 }),
    final(self).lo() == old(self).lo() + 0int,
    match r {
        Some(x) => old(self)@.len() > 0 && *x == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.take(old(self)@.len() - 1) && (*final(self).btree)@ == (*old(self).btree)@.update(old(self).hi() - 1, *final(x)),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@ && (*final(self).btree)@ == (*old(self).btree)@,
    },
@at entry
broadcast use group_heap;
proof { lemma_wf(self.btree.h(), self.btree.root); if self.end is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.end->0)); } }
@at exit
proof { if r is Some { assert(final(self)@ =~= old(self)@.take(old(self)@.len() - 1)); } }

@fn RawBTree::iter_mut
@ret r
@spec
requires old(self).inv(),
ensures r.inv(), r@ == old(self)@, *r.btree == *old(self), *final(r.btree) == *final(self),

@inherent &'amutRawBTree<T,S>::IntoIterator
@rename &'amutRawBTree<T,S>::IntoIterator::into_iter iter_of_mut

@fn iter_of_mut
@ret r
@spec
requires old(vself).inv(),
ensures r.inv(), r@ == old(vself)@, *r.btree == *old(vself), *final(r.btree) == *final(vself),

@inherent IntoIter::Iterator
@inherent IntoIter::DoubleEndedIterator

@fn IntoIter::new
@ret r
@spec
requires btree.inv(),
ensures r.inv(), r@ == btree@, r.btree == btree,
@at exit
proof { assert(r@ =~= btree@); }

@fn IntoIter::size_hint
@ret r
@spec
requires self.inv(),
ensures r == (self@.len() as usize, Some(self@.len() as usize)), self@.len() <= usize::MAX,

@fn IntoIter::next
@ret r
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    final(self).btree == old(self).btree,
    match r {
        Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
    },
@at entry
broadcast use group_heap;
proof { lemma_wf(self.btree.h(), self.btree.root); if self.addr is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.addr->0)); } }
@at exit
proof {
    if self.addr is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.addr->0)); }
    if r is Some { assert(final(self)@ =~= old(self)@.skip(1)); }
}

@fn IntoIter::next_back
@ret r
@spec
requires old(self).inv(),
ensures
    final(self).inv(),
    final(self).btree == old(self).btree,
    match r {
        Some(x) => old(self)@.len() > 0 && x == old(self)@[old(self)@.len() - 1] && final(self)@ == old(self)@.take(old(self)@.len() - 1),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
    },
@at entry
broadcast use group_heap;
proof { lemma_wf(self.btree.h(), self.btree.root); if self.end is Some { lemma_gp_bounds(self.btree.h(), gh(self.btree.h()), aa(self.end->0)); } }
@at exit
proof { if r is Some { assert(final(self)@ =~= old(self)@.take(old(self)@.len() - 1)); } }

@inherent RawBTree::IntoIterator

@fn RawBTree::into_iter
@ret r
@spec
requires self.inv(),
ensures r.inv(), r@ == self@, r.btree == self,
