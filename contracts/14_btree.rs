// ---------------------------------------------------------------------------------------------
// The tree as its users see it: a sequence of items.
// ---------------------------------------------------------------------------------------------
pub use crate::{RawBTree, Iter};

impl<T, S: Storage<T>> RawBTree<T, S> {
    /// the nodes of the tree
    pub open spec fn h(&self) -> Heap<S::Node, T> { ah::<T, S>(self.nodes) }
    /// the items of the tree, in order
    pub open spec fn view(&self) -> Seq<T> { tv(ah::<T, S>(self.nodes), self.root) }
    /// what every public operation preserves: the heap is exactly one B-tree under the root, or
    /// empty, and the length is the number of items
    pub open spec fn inv(&self) -> bool {
        &&& wf(ah::<T, S>(self.nodes), self.root)
        &&& self.len == self.view().len()
    }
    /// the address of item `q`
    pub open spec fn is_at(&self, a: Address<S::Node>, q: int) -> bool {
        a_item(self.h(), aa(a)) && at(self.h(), a) == q && 0 <= q < self.view().len()
    }
}
/// the outcome of a search: an equal item, or the gap between the lesser and the greater items
pub open spec fn hit<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, s: Seq<T>, q: &Q, i: int) -> bool {
    0 <= i < s.len() && cmps(f, s[i], q, Ordering::Equal)
}
pub open spec fn miss<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, s: Seq<T>, q: &Q, i: int) -> bool {
    gap_ok(f, s, q, 0, i, s.len() as int)
}
/// the items are ordered with respect to the key: the lesser ones, then the equal ones, then the greater ones
pub open spec fn always<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, t: T, q: &Q, o: Ordering) -> bool {
    forall|p: Ordering| cmps(f, t, q, p) ==> p == o
}
pub open spec fn ordered<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, s: Seq<T>, q: &Q, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= s.len()
    &&& forall|i: int| 0 <= i < a ==> always(f, #[trigger] s[i], q, Ordering::Less)
    &&& forall|i: int| a <= i < b ==> always(f, #[trigger] s[i], q, Ordering::Equal)
    &&& forall|i: int| b <= i < s.len() ==> always(f, #[trigger] s[i], q, Ordering::Greater)
}
/// in an ordered tree a search hits exactly an equal item, and misses only if there is none
pub proof fn lemma_search<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, s: Seq<T>, q: &Q, a: int, b: int)
    requires
        ordered(f, s, q, a, b),
    ensures
        forall|i: int| hit(f, s, q, i) ==> a <= i < b,
        forall|i: int| miss(f, s, q, i) ==> a == b && i == a,
{
    assert forall|i: int| hit(f, s, q, i) implies a <= i < b by {
        if i < a { assert(always(f, s[i], q, Ordering::Less)); }
        if i >= b { assert(always(f, s[i], q, Ordering::Greater)); }
    }
    assert forall|i: int| miss(f, s, q, i) implies a == b && i == a by {
        if i > 0 {
            if a <= i - 1 < b { assert(always(f, s[i - 1], q, Ordering::Equal)); }
            if i - 1 >= b { assert(always(f, s[i - 1], q, Ordering::Greater)); }
        }
        if i < s.len() {
            if i < a { assert(always(f, s[i], q, Ordering::Less)); }
            if a <= i < b { assert(always(f, s[i], q, Ordering::Equal)); }
        }
    }
}
