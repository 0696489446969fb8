
/// The nodes of a storage, abstracted.
pub closed spec fn abs<T, S: Storage<T>>(h: Map<S::Node, Node<T, S>>) -> Map<S::Node, AN<S::Node, T>> {
    Map::new(h.dom(), |id: S::Node| h[id].an())
}
pub open spec fn ah<T, S: Storage<T>>(s: S) -> Map<S::Node, AN<S::Node, T>> { abs::<T, S>(s.h()) }

pub broadcast proof fn lemma_abs_dom<T, S: Storage<T>>(h: Map<S::Node, Node<T, S>>, id: S::Node)
    ensures
        #![trigger abs::<T, S>(h).contains_key(id)]
        #![trigger h.contains_key(id), abs::<T, S>(h)]
        abs::<T, S>(h).contains_key(id) == h.contains_key(id),
{}
pub broadcast proof fn lemma_abs_get<T, S: Storage<T>>(h: Map<S::Node, Node<T, S>>, id: S::Node)
    requires
        h.contains_key(id),
    ensures
        (#[trigger] abs::<T, S>(h)[id]) == h[id].an(),
{}
pub broadcast proof fn lemma_abs_insert<T, S: Storage<T>>(h: Map<S::Node, Node<T, S>>, id: S::Node, n: Node<T, S>)
    ensures
        #[trigger] abs::<T, S>(h.insert(id, n)) == abs::<T, S>(h).insert(id, n.an()),
{
    assert(abs::<T, S>(h.insert(id, n)) =~= abs::<T, S>(h).insert(id, n.an()));
}
pub broadcast proof fn lemma_abs_remove<T, S: Storage<T>>(h: Map<S::Node, Node<T, S>>, id: S::Node)
    ensures
        #[trigger] abs::<T, S>(h.remove(id)) == abs::<T, S>(h).remove(id),
{
    assert(abs::<T, S>(h.remove(id)) =~= abs::<T, S>(h).remove(id));
}
pub broadcast group group_heap {
    lemma_abs_dom,
    lemma_abs_get,
    lemma_abs_insert,
    lemma_abs_remove,
    lemma_an_ok,
}
