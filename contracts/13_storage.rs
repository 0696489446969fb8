// ---------------------------------------------------------------------------------------------
// Addresses in a tree, and the basic changes to its items.
// ---------------------------------------------------------------------------------------------
/// the items of the tree in the heap, in order
pub open spec fn items<I, T>(h: Heap<I, T>) -> Seq<T> { gh(h).s }
/// a B-tree (see `wf`) that is not empty
pub open spec fn wfh<I, T>(h: Heap<I, T>) -> bool { shaped(h) && sizes(h, gh(h).root) }
pub proof fn lemma_wf<I, T>(h: Heap<I, T>, root: Option<I>)
    requires
        wf(h, root),
    ensures
        match root {
            Some(r) => wfh(h) && gh(h).root == r && tv(h, root) == items(h) && items(h).len() > 0 && h.contains_key(r),
            None => h == Heap::<I, T>::empty() && tv(h, root) == Seq::<T>::empty(),
        },
{
    match root {
        Some(r) => {
            let g = gh(h);
            assert(node_ok(h, g, r));
            assert(size_ok(h, r, r));
            lemma_gp_bounds(h, g, (r, 0));
        }
        None => { assert(h =~= Map::empty()); }
    }
}
/// position of the first item behind an address (before the first item, on an item, or behind the last item of a node)
pub open spec fn behind<I, T>(h: Heap<I, T>, a: Address<I>) -> int {
    if 0 <= a.offset.v() < h[a.node].its.len() { at(h, a) + 1 } else { at(h, a) }
}
/// position left of child `o` of an inner node, or of item `o` of a leaf
pub open spec fn edge<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, o: int) -> int {
    if h[x].leaf { (g.st)(x) + o } else { (g.st)(h[x].kids[o]) }
}
pub open spec fn a_leaf<I, T>(h: Heap<I, T>, a: Address<I>) -> bool {
    a_ok(h, aa(a)) && a.offset.v() >= 0 && h[a.node].leaf
}
pub proof fn lemma_edge<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, o: int)
    requires
        shape(h, g),
        a_ok(h, (x, o)),
    ensures
        o == 0 ==> edge(h, g, x, o) == (g.st)(x),
        o > 0 ==> edge(h, g, x, o) == gp(h, g, x, o - 1) + 1,
        o < h[x].its.len() ==> edge(h, g, x, o + 1) == gp(h, g, x, if o == -1 { -1 } else { o }) + if o == -1 { 0int } else { 1int },
        o >= 0 && !h[x].leaf ==> edge(h, g, x, o) <= gp(h, g, x, o) && h.contains_key(h[x].kids[o])
            && (g.ht)(h[x].kids[o]) == (g.ht)(x) - 1 && h[x].kids.len() == h[x].its.len() + 1
            && gp(h, g, x, o) == (g.en)(h[x].kids[o]) && h[h[x].kids[o]].par == Some(x)
            && edge(h, g, x, o) == (g.st)(h[x].kids[o]),
        h[x].leaf ==> h[x].kids.len() == 0,
        !h[x].leaf ==> h[x].kids.len() == h[x].its.len() + 1 && (g.ht)(x) > 0,
        (g.ht)(x) >= 0,
        (g.ht)(x) <= (g.ht)(g.root),
        h[x].par is None ==> x == g.root,
        h[x].its.len() == gp_len(h, x),
{
    assert(node_ok(h, g, x));
    if !h[x].leaf {
        if o >= 0 { lemma_kid(h, g, x, o); }
        if o < h[x].its.len() { lemma_kid(h, g, x, o + 1); }
    }
}
pub open spec fn gp_len<I, T>(h: Heap<I, T>, x: I) -> int { h[x].its.len() as int }

/// the address right behind a node, in its parent
pub proof fn lemma_climb<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, i: Option<usize>)
    requires
        shape(h, g),
        h.contains_key(x),
        h[x].par is Some,
        index_res(h[h[x].par->0].kids, x, i),
    ensures
        i is Some,
        ({
            let p = h[x].par->0;
            let o = i->0 as int;
            &&& a_ok(h, (p, o))
            &&& gp(h, g, p, o) == (g.en)(x)
            &&& edge(h, g, p, o) == (g.st)(x)
            &&& (g.ht)(p) == (g.ht)(x) + 1
            &&& (g.ht)(p) <= (g.ht)(g.root)
            &&& o > 0 ==> gp(h, g, p, o - 1) == (g.st)(x) - 1
            &&& o == 0 ==> (g.st)(p) == (g.st)(x)
            &&& !h[p].leaf
        }),
{
    lemma_index(h, g, x, i);
    lemma_up(h, g, x);
    let p = h[x].par->0;
    let o = i->0 as int;
    lemma_kid(h, g, p, o);
    if o > 0 { lemma_kid(h, g, p, o - 1); }
}
/// a search that ends outside any item: everything before is less, the next item is greater
pub open spec fn gap_ok<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, s: Seq<T>, q: &Q, lo: int, i: int, hi: int) -> bool {
    &&& lo <= i <= hi
    &&& i > lo ==> cmps(f, s[i - 1], q, Ordering::Less)
    &&& i < hi ==> cmps(f, s[i], q, Ordering::Greater)
}
/// how the numbering of a tree moves when leaf `l` gets `d` items more
pub proof fn lemma_its_addr<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: I, its: Seq<T>, s: Seq<T>, d: int, b: (I, int))
    requires
        leaf_pre(h, g, l),
        a_ok(h, b),
        b.1 >= 0,
        -1 <= d <= 1,
    ensures
        b.0 != l ==> at_gp(h_its(h, l, its), g_its(h, g, l, s, d), b) == at_gp(h, g, b) + if at_gp(h, g, b) >= (g.en)(l) { d } else { 0int },
        b.0 == l ==> at_gp(h_its(h, l, its), g_its(h, g, l, s, d), b) == at_gp(h, g, b),
{
    let (x, o) = b;
    assert(node_ok(h, g, x));
    assert(node_ok(h, g, l));
    if x != l {
        if h[x].leaf { lemma_laminar(h, g, x, l); } else { lemma_kid(h, g, x, o); }
    }
}
/// a leaf insertion on the heap, seen on the tree
pub proof fn lemma_insert_here<I, T>(h: Heap<I, T>, a: (I, int), item: T, h1: Heap<I, T>)
    requires
        wfh(h),
        a_ok(h, a),
        a.1 >= 0,
        h[a.0].leaf,
        h1 =~= h_its(h, a.0, h[a.0].its.insert(a.1, item)),
    ensures
        shaped(h1),
        gh(h1).root == gh(h).root,
        sizes_but(h1, gh(h).root, a.0),
        near(h1, gh(h).root, a.0),
        items(h1) == items(h).insert(at_gp(h, gh(h), a), item),
        at_gp(h1, gh(h1), a) == at_gp(h, gh(h), a),
        a_item(h1, a),
        0 <= at_gp(h, gh(h), a) <= items(h).len(),
{
    let g = gh(h);
    let g1 = g_its(h, g, a.0, g.s.insert((g.st)(a.0) + a.1, item), 1);
    lemma_gp_bounds(h, g, a);
    lemma_leaf_insert(h, g, a.0, a.1, item);
    assert(h1 == h_its(h, a.0, h[a.0].its.insert(a.1, item)));
    lemma_tree(h1, g1);
    assert(size_ok(h, g.root, a.0));
    assert(at_gp(h1, g1, a) == at_gp(h, g, a));
    assert forall|x: I| h1.contains_key(x) && x != a.0 implies #[trigger] size_ok(h1, g.root, x) by {
        assert(size_ok(h, g.root, x));
    }
}
pub proof fn lemma_remove_here<I, T>(h: Heap<I, T>, a: (I, int), h1: Heap<I, T>)
    requires
        wfh(h),
        a_item(h, a),
        h[a.0].leaf,
        h1 =~= h_its(h, a.0, h[a.0].its.remove(a.1)),
    ensures
        shaped(h1),
        gh(h1).root == gh(h).root,
        sizes_but(h1, gh(h).root, a.0),
        near(h1, gh(h).root, a.0),
        items(h1) == items(h).remove(at_gp(h, gh(h), a)),
        at_gp(h1, gh(h1), a) == at_gp(h, gh(h), a),
        a_ok(h1, a),
        at_gp(h1, gh(h1), a) >= (gh(h1).st)(a.0),
        0 <= at_gp(h, gh(h), a) < items(h).len(),
        items(h)[at_gp(h, gh(h), a)] == h[a.0].its[a.1],
        forall|b: (I, int)| a_ok(h, b) && b.1 >= 0 && b.0 != a.0 ==> #[trigger] at_gp(h1, gh(h1), b) == at_gp(h, gh(h), b) - if at_gp(h, gh(h), b) >= (gh(h).en)(a.0) { 1int } else { 0 },
{
    let g = gh(h);
    let g1 = g_its(h, g, a.0, g.s.remove((g.st)(a.0) + a.1), -1);
    lemma_gp_bounds(h, g, a);
    lemma_leaf_remove(h, g, a.0, a.1);
    assert(h1 == h_its(h, a.0, h[a.0].its.remove(a.1)));
    lemma_tree(h1, g1);
    assert(size_ok(h, g.root, a.0));
    assert(same_at(h1, g1, gh(h1), a.0));
    assert(at_gp(h1, g1, a) == at_gp(h, g, a));
    assert forall|x: I| h1.contains_key(x) && x != a.0 implies #[trigger] size_ok(h1, g.root, x) by {
        assert(size_ok(h, g.root, x));
    }
    assert forall|b: (I, int)| a_ok(h, b) && b.1 >= 0 && b.0 != a.0 implies #[trigger] at_gp(h1, gh(h1), b) == at_gp(h, gh(h), b) - if at_gp(h, gh(h), b) >= (gh(h).en)(a.0) { 1int } else { 0 } by {
        lemma_its_addr(h, g, a.0, h[a.0].its.remove(a.1), g.s.remove((g.st)(a.0) + a.1), -1, b);
        assert(a_ok(h1, b));
        assert(at_gp(h1, g1, b) == at_gp(h1, gh(h1), b));
    }
}
pub proof fn lemma_update_here<I, T>(h: Heap<I, T>, a: (I, int), item: T, h1: Heap<I, T>)
    requires
        shaped(h),
        a_item(h, a),
        h1 =~= h_its(h, a.0, h[a.0].its.update(a.1, item)),
    ensures
        shaped(h1),
        gh(h1).root == gh(h).root,
        items(h1) == items(h).update(at_gp(h, gh(h), a), item),
        0 <= at_gp(h, gh(h), a) < items(h).len(),
        items(h)[at_gp(h, gh(h), a)] == h[a.0].its[a.1],
        forall|b: (I, int)| a_ok(h, b) ==> #[trigger] at_gp(h1, gh(h1), b) == at_gp(h, gh(h), b),
        forall|x: I| h.contains_key(x) ==> #[trigger] (gh(h1).st)(x) == (gh(h).st)(x),
        forall|r: I| sizes(h, r) ==> sizes(h1, r),
        forall|r: I, e: I| sizes_but(h, r, e) ==> sizes_but(h1, r, e),
{
    let g = gh(h);
    let g1 = Gh { s: g.s.update(at_gp(h, g, a), item), ..g };
    lemma_gp_bounds(h, g, a);
    lemma_update(h, g, a, item);
    assert(h1 == h_its(h, a.0, h[a.0].its.update(a.1, item)));
    lemma_tree(h1, g1);
    assert forall|b: (I, int)| a_ok(h, b) implies #[trigger] at_gp(h1, gh(h1), b) == at_gp(h, gh(h), b) by {
        assert(a_ok(h1, b));
        assert(at_gp(h1, g1, b) == at_gp(h1, gh(h1), b));
        assert(h1[b.0].kids == h[b.0].kids);
        assert(at_gp(h1, g1, b) == at_gp(h, g, b));
    }
    assert forall|x: I| h.contains_key(x) implies #[trigger] (gh(h1).st)(x) == (gh(h).st)(x) by {
        assert(same_at(h1, g1, gh(h1), x));
    }
    assert forall|r: I, e: I| sizes_but(h, r, e) implies sizes_but(h1, r, e) by {
        assert forall|x: I| h1.contains_key(x) && x != e implies #[trigger] size_ok(h1, r, x) by { assert(size_ok(h, r, x)); }
    }
    assert forall|r: I| sizes(h, r) implies sizes(h1, r) by {
        assert forall|x: I| h1.contains_key(x) implies #[trigger] size_ok(h1, r, x) by { assert(size_ok(h, r, x)); }
    }
}
/// no node of a B-tree is empty
pub proof fn lemma_not_empty<I, T>(h: Heap<I, T>, x: I)
    requires
        wfh(h),
        h.contains_key(x),
    ensures
        h[x].its.len() >= 1,
        (gh(h).st)(x) < (gh(h).en)(x),
{
    let g = gh(h);
    assert(size_ok(h, g.root, x));
    lemma_gp_bounds(h, g, (x, 0));
}
pub open spec fn ins_post<I, T>(h: Heap<I, T>, root: Option<I>, addr: Option<Address<I>>, s: Seq<T>, q: int, item: T) -> bool {
    &&& wf(h, root)
    &&& root is Some
    &&& tv(h, root) == s.insert(q, item)
    &&& addr is Some
    &&& a_item(h, aa(addr->0))
    &&& at(h, addr->0) == q
}
/// another item at `a`, everything else as before
pub open spec fn upd_post<I, T>(h: Heap<I, T>, h1: Heap<I, T>, a: (I, int), item: T) -> bool {
    &&& h1 =~= h_its(h, a.0, h[a.0].its.update(a.1, item))
    &&& shaped(h1)
    &&& gh(h1).root == gh(h).root
    &&& items(h1) == items(h).update(at_gp(h, gh(h), a), item)
    &&& forall|b: (I, int)| a_ok(h, b) ==> #[trigger] at_gp(h1, gh(h1), b) == at_gp(h, gh(h), b)
    &&& forall|r: I| sizes(h, r) ==> sizes(h1, r)
}
/// a tree of one item
pub proof fn lemma_one<I, T>(h: Heap<I, T>, id: I, item: T)
    requires
        h =~= Map::empty().insert(id, AN { leaf: true, its: seq![item], kids: Seq::empty(), par: None }),
    ensures
        wf(h, Some(id)),
        tv(h, Some(id)) == seq![item],
        tv(h, Some(id)) == Seq::<T>::empty().insert(0, item),
        at_gp(h, gh(h), (id, 0)) == 0,
        a_item(h, (id, 0)),
{
    let g = Gh::<I, T> { root: id, ht: |x: I| 0, st: |x: I| 0, en: |x: I| 1, ix: |x: I| 0, s: seq![item] };
    assert(shape(h, g)) by {
        assert forall|x: I| h.contains_key(x) implies #[trigger] node_ok(h, g, x) by { assert(x == id); }
    }
    lemma_tree(h, g);
    assert(a_ok(h, (id, 0)));
    assert(at_gp(h, g, (id, 0)) == 0);
    assert forall|x: I| h.contains_key(x) implies #[trigger] size_ok(h, id, x) by { assert(x == id); }
    assert(Seq::<T>::empty().insert(0, item) =~= seq![item]);
}
/// the address directly behind, in the walk over gaps and items
pub open spec fn back_res<I, T>(h: Heap<I, T>, addr: Address<I>, r: Option<Address<I>>) -> bool {
    if addr.offset.v() < h[addr.node].its.len() {
        &&& r is Some && a_leaf(h, r->0) && at(h, r->0) == behind(h, addr)
        &&& h[addr.node].leaf ==> aa(r->0) == (addr.node, addr.offset.v() + 1)
        &&& !h[addr.node].leaf ==> r->0.offset.v() == 0
    } else {
        match r {
            Some(b) => h[addr.node].par == Some(b.node) && a_ok(h, aa(b)) && h[b.node].kids[b.offset.v()] == addr.node && at(h, b) == at(h, addr),
            None => h[addr.node].par is None,
        }
    }
}
/// the address directly in front, in the walk over items and gaps
pub open spec fn front_res<I, T>(h: Heap<I, T>, addr: Address<I>, r: Option<Address<I>>) -> bool {
    if addr.offset.v() >= 0 {
        &&& r is Some && a_ok(h, aa(r->0)) && h[r->0.node].leaf && r->0.offset.v() < h[r->0.node].its.len()
        &&& behind(h, r->0) == at(h, addr)
        &&& h[addr.node].leaf ==> aa(r->0) == (addr.node, addr.offset.v() - 1)
        &&& !h[addr.node].leaf ==> r->0.offset.v() == h[r->0.node].its.len() - 1
    } else {
        match r {
            Some(b) => h[addr.node].par == Some(b.node) && a_ok(h, aa(b)) && b.offset.v() < h[b.node].its.len() && h[b.node].kids[b.offset.v() + 1] == addr.node
                && behind(h, b) == at(h, addr),
            None => h[addr.node].par is None,
        }
    }
}
