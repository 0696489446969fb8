// ---------------------------------------------------------------------------------------------
// The end of a tree: every node is given back to its storage exactly once.
// ---------------------------------------------------------------------------------------------
/// The dropper of a storage (stated over the identifiers; in the code it is also generic over the
/// storage).  It destroys a node, with the items the node then contains, once.
pub trait Dropper<I, T>: Sized {
    /// the nodes destroyed
    spec fn gone(&self) -> Seq<I>;
    /// the items each of them had then
    spec fn lost(&self) -> Map<I, Seq<T>>;
    /// the nodes there were at the start
    spec fn may(&self) -> Set<I>;
    /// `its`: the items in the node (the code has no such argument)
    fn drop_node(&mut self, id: I, Ghost(its): Ghost<Seq<T>>)
        requires
            old(self).may().contains(id),
            !old(self).gone().contains(id),
        ensures
            final(self).may() == old(self).may(),
            final(self).gone() == old(self).gone().push(id),
            final(self).lost() == old(self).lost().insert(id, its),
    ;
}
/// every node of the heap is destroyed, and each once
pub open spec fn all_gone<I, T>(h: Heap<I, T>, s: Seq<I>) -> bool {
    &&& s.no_duplicates()
    &&& forall|y: I| #[trigger] s.contains(y) <==> h.contains_key(y)
}
/// the tree was given back to its storage, its items destroyed with the nodes (or: left to a storage that does so)
pub open spec fn destroyed<T, S: Storage<T>>(t: RawBTree<T, S>) -> bool {
    t.nodes.drops() || t.h().dom() =~= Set::empty() || exists|d: S::Dropper| all_gone(t.h(), #[trigger] d.gone()) && forall|y: S::Node| t.h().contains_key(y) ==> #[trigger] d.lost()[y] == t.h()[y].its
}
/// the tree was given back to its storage without any item (or: left to a storage that does so)
pub open spec fn abandoned<T, S: Storage<T>>(t: RawBTree<T, S>) -> bool {
    t.nodes.drops() || t.h().dom() =~= Set::empty() || exists|d: S::Dropper| all_gone(t.h(), #[trigger] d.gone()) && forall|y: S::Node| t.h().contains_key(y) ==> (#[trigger] d.lost()[y]).len() == 0
}
/// std: `mem::take` is `replace` by the default
pub fn take<T, const N: usize>(dest: &mut Array<T, N>) -> (r: Array<T, N>)
    ensures
        r == *old(dest),
        final(dest)@ == Seq::<T>::empty(),
{
    std::mem::replace(dest, Array::default())
}
/// only node buffers are ever given up without running their destructor: an item, a node or a box never is
pub uninterp spec fn may_forget<X>(x: X) -> bool;
pub broadcast axiom fn axiom_may_forget<T, const N: usize>(a: Array<T, N>)
    ensures
        #[trigger] may_forget(a),
;
/// the value was given up without running its destructor (`mem::forget`)
pub uninterp spec fn forgotten<X>(x: X) -> bool;
pub assume_specification<X> [std::mem::forget::<X>] (x: X)
    requires
        may_forget(x),
    ensures
        forgotten(x),
;
/// the items of the node were given up without running their destructors
pub open spec fn items_forgotten<T, S: Storage<T>>(n: Node<T, S>) -> bool {
    match n {
        Node::Leaf(l) => forgotten(l.items),
        Node::Internal(i) => forgotten(i.other_children),
    }
}

pub proof fn lemma_pushed<I>(s: Seq<I>, x: I)
    ensures
        forall|y: I| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x,
{
    assert forall|y: I| #[trigger] s.push(x).contains(y) <==> s.contains(y) || y == x by {
        if s.contains(y) { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(s.push(x)[j] == y); }
        assert(s.push(x)[s.len() as int] == x);
    }
}
/// the closure of `clear`
pub struct ClearVisit<T, S: Storage<T>> {
    pub d: S::Dropper,
    pub h: Ghost<Heap<S::Node, T>>,
}
impl<T, S: Storage<T>> Visit<S::Node> for ClearVisit<T, S> {
    open spec fn trace(&self) -> Seq<S::Node> { self.d.gone() }
    open spec fn dom(&self) -> Set<S::Node> { self.d.may() }
    type K = Heap<S::Node, T>;
    open spec fn kept(&self) -> Heap<S::Node, T> { self.h@ }
    open spec fn ok(&self) -> bool { forall|y: S::Node| self.d.gone().contains(y) ==> #[trigger] self.d.lost()[y] == self.h@[y].its }
    fn visit(&mut self, id: S::Node) { crate::clear_closure::<T, S>(&mut self.d, id, Ghost(self.h@)); proof { lemma_pushed(old(self).d.gone(), id); } }
}
/// the closure of `forget`
pub struct ForgetVisit<T, S: Storage<T>> {
    pub d: Option<S::Dropper>,
    pub t: Ghost<Seq<S::Node>>,
    pub h: Ghost<Heap<S::Node, T>>,
}
impl<T, S: Storage<T>> VisitMut<T, S> for ForgetVisit<T, S> {
    open spec fn trace(&self) -> Seq<S::Node> { self.t@ }
    open spec fn dom(&self) -> Heap<S::Node, T> { self.h@ }
    open spec fn ok(&self) -> bool {
        self.d matches Some(d) ==> {
            &&& d.gone() == self.t@
            &&& d.may() == self.h@.dom()
            &&& forall|y: S::Node| d.gone().contains(y) ==> (#[trigger] d.lost()[y]).len() == 0
        }
    }
    open spec fn kept(&self) -> bool { self.d is Some }
    open spec fn left(&self) -> spec_fn(AN<S::Node, T>, AN<S::Node, T>) -> bool { |n0: AN<S::Node, T>, n1: AN<S::Node, T>| n1.its.len() == 0 }
    fn visit(&mut self, id: S::Node, node: &mut Node<T, S>) {
        crate::forget_closure::<T, S>(&mut self.d, id, node);
        proof { lemma_pushed(self.t@, id); }
        self.t = Ghost(self.t@.push(id));
    }
}
