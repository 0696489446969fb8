// ---------------------------------------------------------------------------------------------
// Rebalancing: the heaps the code builds are the primitive steps of 10_tree.
// ---------------------------------------------------------------------------------------------
pub proof fn lemma_index<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, i: Option<usize>)
    requires
        shape(h, g),
        h.contains_key(x),
        h[x].par is Some,
        index_res(h[h[x].par->0].kids, x, i),
    ensures
        i is Some,
        i->0 == (g.ix)(x),
{
    lemma_up(h, g, x);
    if i is Some { lemma_kid(h, g, h[x].par->0, i->0 as int); }
}
pub open spec fn h_split_code<I, T>(h: Heap<I, T>, id: I, p: I, k: int, l: AN<I, T>, md: T, rn: AN<I, T>, r: I) -> Heap<I, T> {
    let h2 = h_adopt(h.insert(id, l), rn.kids, r).insert(r, rn);
    h2.insert(p, AN { its: h2[p].its.insert(k, md), kids: h2[p].kids.insert(k + 1, r), ..h2[p] })
}
pub proof fn lemma_split_parts<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, l: AN<I, T>, md: T, rn: AN<I, T>)
    requires
        shape(h, g),
        h.contains_key(id),
        split_ok(h[id], l, md, rn, l.its.len() as int),
        an_ok(l),
        an_ok(rn),
    ensures
        ({
            let m = l.its.len() as int;
            &&& 0 <= m < h[id].its.len()
            &&& md == h[id].its[m]
            &&& l.its == h[id].its.subrange(0, m)
            &&& rn.its == h[id].its.subrange(m + 1, h[id].its.len() as int)
            &&& h[id].leaf ==> l.kids == Seq::<I>::empty() && rn.kids == Seq::<I>::empty()
            &&& !h[id].leaf ==> l.kids == h[id].kids.subrange(0, m + 1) && rn.kids == h[id].kids.subrange(m + 1, h[id].kids.len() as int)
            &&& forall|c: I| #[trigger] rn.kids.contains(c) ==> h.contains_key(c) && h[c].par == Some(id) && c != id && h[id].par != Some(c)
        }),
{
    let m = l.its.len() as int;
    assert(node_ok(h, g, id));
    assert(l.its =~= h[id].its.subrange(0, m));
    assert(rn.its =~= h[id].its.subrange(m + 1, h[id].its.len() as int));
    assert(h[id].its[m] == md);
    if h[id].leaf {
        assert(l.kids =~= Seq::empty());
        assert(rn.kids =~= Seq::empty());
    } else {
        assert(l.kids =~= h[id].kids.subrange(0, m + 1));
        assert(rn.kids =~= h[id].kids.subrange(m + 1, h[id].kids.len() as int));
    }
    assert forall|c: I| #[trigger] rn.kids.contains(c) implies h.contains_key(c) && h[c].par == Some(id) && c != id && h[id].par != Some(c) by {
        let j = choose|j: int| 0 <= j < rn.kids.len() && rn.kids[j] == c;
        lemma_kid(h, g, id, m + 1 + j);
        if h[id].par == Some(c) { lemma_up(h, g, id); }
    }
}
pub proof fn lemma_split_code<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, p: I, k: int, l: AN<I, T>, md: T, rn: AN<I, T>, r: I)
    requires
        shape(h, g),
        h.contains_key(id),
        h[id].par == Some(p),
        k == (g.ix)(id),
        !h.contains_key(r),
        split_ok(h[id], l, md, rn, l.its.len() as int),
        an_ok(l),
        an_ok(rn),
    ensures
        h_split_code(h, id, p, k, l, md, rn, r) =~= h_split(h, id, l.its.len() as int, p, k, r),
        split_pre(h, g, id, l.its.len() as int, p, k, r),
{
    lemma_split_parts(h, g, id, l, md, rn);
    lemma_up(h, g, id);
    let a = h_split_code(h, id, p, k, l, md, rn, r);
    let b = h_split(h, id, l.its.len() as int, p, k, r);
    assert(!rn.kids.contains(p));
    assert(!rn.kids.contains(id));
    assert(node_ok(h, g, id));
    assert forall|x: I| a.contains_key(x) implies a[x] == #[trigger] b[x] by {
        assert(a[x].its =~= b[x].its);
        assert(a[x].kids =~= b[x].kids);
    }
    assert(a =~= b);
}
pub open spec fn h_split_root_code<I, T>(h: Heap<I, T>, id: I, l: AN<I, T>, md: T, rn: AN<I, T>, r: I, nr: I) -> Heap<I, T> {
    let h2 = h_adopt(h.insert(id, l), rn.kids, r).insert(r, rn);
    h_adopt(h2, seq![id, r], nr).insert(nr, AN { leaf: false, its: seq![md], kids: seq![id, r], par: None })
}
pub proof fn lemma_split_root_code<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: AN<I, T>, md: T, rn: AN<I, T>, r: I, nr: I)
    requires
        shape(h, g),
        !h.contains_key(r),
        !h.contains_key(nr),
        nr != r,
        split_ok(h[g.root], l, md, rn, l.its.len() as int),
        an_ok(l),
        an_ok(rn),
    ensures
        h_split_root_code(h, g.root, l, md, rn, r, nr) =~= h_split(h_grow(h, g.root, nr), g.root, l.its.len() as int, nr, 0, r),
        split_pre(h_grow(h, g.root, nr), g_grow(h, g, nr), g.root, l.its.len() as int, nr, 0, r),
{
    let id = g.root;
    assert(node_ok(h, g, id));
    lemma_split_parts(h, g, id, l, md, rn);
    lemma_grow(h, g, nr);
    let a = h_split_root_code(h, g.root, l, md, rn, r, nr);
    let b = h_split(h_grow(h, g.root, nr), g.root, l.its.len() as int, nr, 0, r);
    assert(!rn.kids.contains(id));
    assert(seq![id, r].contains(id)) by { assert(seq![id, r][0] == id); }
    assert(seq![id, r].contains(r)) by { assert(seq![id, r][1] == r); }
    assert forall|x: I| a.contains_key(x) implies a[x] == #[trigger] b[x] by {
        assert(a[x].its =~= b[x].its);
        assert(a[x].kids =~= b[x].kids);
    }
    assert(a =~= b);
}
pub proof fn lemma_single<I, T>(h: Heap<I, T>, g: Gh<I, T>)
    requires
        shape(h, g),
        h[g.root].leaf,
    ensures
        forall|x: I| h.contains_key(x) ==> x == g.root,
        g.s.len() == h[g.root].its.len(),
{
    assert(node_ok(h, g, g.root));
    assert forall|x: I| h.contains_key(x) implies x == g.root by {
        assert(node_ok(h, g, x));
        if h[x].par is Some { lemma_up(h, g, x); }
    }
}

/// the node being rebalanced is at most one item too big or too small
pub open spec fn near<I, T>(h: Heap<I, T>, root: I, x: I) -> bool {
    &&& h.contains_key(x)
    &&& h[x].its.len() <= max_items(h[x].leaf) + 1
    &&& x == root || h[x].its.len() >= min_items(h[x].leaf) - 1
}
/// state of a rebalancing: the numbering `g` of the current heap keeps the items and the address
pub open spec fn rebal_inv<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, id: I, addr: Address<I>, s: Seq<T>, q: int, item: bool) -> bool {
    &&& root == Some(g.root)
    &&& shape(h, g)
    &&& g.s == s
    &&& near(h, g.root, id)
    &&& sizes_but(h, g.root, id)
    &&& addr_inv(h, g, addr, q, item)
    &&& item || q >= (g.st)(id)
}
pub open spec fn addr_inv<I, T>(h: Heap<I, T>, g: Gh<I, T>, addr: Address<I>, q: int, item: bool) -> bool {
    &&& a_ok(h, aa(addr))
    &&& addr.offset.v() >= 0
    &&& at_gp(h, g, aa(addr)) == q
    &&& item ==> a_item(h, aa(addr))
}
pub open spec fn rebal_post<I, T>(h: Heap<I, T>, root: Option<I>, addr: Option<Address<I>>, s: Seq<T>, q: int, item: bool) -> bool {
    &&& wf(h, root)
    &&& tv(h, root) == s
    &&& match root {
        Some(r) => addr is Some && addr->0.offset.v() >= 0 && a_ok(h, aa(addr->0)) && at(h, addr->0) == q && (item ==> a_item(h, aa(addr->0))),
        None => addr is None,
    }
}
pub proof fn lemma_rebal_done<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, addr: Address<I>, s: Seq<T>, q: int, item: bool)
    requires
        root == Some(g.root),
        shape(h, g),
        g.s == s,
        sizes(h, g.root),
        addr_inv(h, g, addr, q, item),
    ensures
        rebal_post(h, root, Some(addr), s, q, item),
{
    lemma_tree(h, g);
}
pub proof fn lemma_rebal_balanced<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, id: I, addr: Address<I>, s: Seq<T>, q: int, item: bool)
    requires
        rebal_inv(h, g, root, id, addr, s, q, item),
        !over(h[id]),
        !under(h[id]) || (id == g.root && h[id].its.len() > 0),
    ensures
        rebal_post(h, root, Some(addr), s, q, item),
{
    assert(node_ok(h, g, id));
    assert(size_ok(h, g.root, id));
    lemma_rebal_done(h, g, root, addr, s, q, item);
}
pub proof fn lemma_rebal_split<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, id: I, addr: Address<I>, s: Seq<T>, q: int, item: bool,
    p: I, k: int, l: AN<I, T>, md: T, rn: AN<I, T>, r: I, addr2: Address<I>)
    requires
        rebal_inv(h, g, root, id, addr, s, q, item),
        h[id].par == Some(p),
        k == (g.ix)(id),
        !h.contains_key(r),
        split_ok(h[id], l, md, rn, l.its.len() as int),
        an_ok(l),
        an_ok(rn),
        aa(addr2) == a_split(h, id, l.its.len() as int, p, k, r, aa(addr)),
    ensures
        ({
            let m = l.its.len() as int;
            let g2 = g_split(h, g, id, m, p, k, r);
            &&& h_split_code(h, id, p, k, l, md, rn, r) =~= h_split(h, id, m, p, k, r)
            &&& rebal_inv(h_split(h, id, m, p, k, r), g2, root, p, addr2, s, q, item)
            &&& (g2.ht)(p) == (g.ht)(id) + 1
            &&& (g2.ht)(g2.root) == (g.ht)(g.root)
        }),
{
    let m = l.its.len() as int;
    let g2 = g_split(h, g, id, m, p, k, r);
    let h2 = h_split(h, id, m, p, k, r);
    lemma_split_parts(h, g, id, l, md, rn);
    lemma_split_code(h, g, id, p, k, l, md, rn, r);
    lemma_split(h, g, id, m, p, k, r);
    lemma_split_addr(h, g, id, m, p, k, r, aa(addr));
    lemma_up(h, g, id);
    assert(size_ok(h, g.root, p));
    assert(node_ok(h, g, id));
    assert forall|x: I| h2.contains_key(x) && x != p implies #[trigger] size_ok(h2, g.root, x) by {
        if x != r { assert(size_ok(h, g.root, x) || x == id); }
    }
}
pub proof fn lemma_rebal_root<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, id: I, addr: Address<I>, s: Seq<T>, q: int, item: bool,
    l: AN<I, T>, md: T, rn: AN<I, T>, r: I, nr: I, addr2: Address<I>)
    requires
        rebal_inv(h, g, root, id, addr, s, q, item),
        h[id].par == None::<I>,
        !h.contains_key(r),
        !h.contains_key(nr),
        nr != r,
        split_ok(h[id], l, md, rn, l.its.len() as int),
        an_ok(l),
        an_ok(rn),
        aa(addr2) == a_split(h, id, l.its.len() as int, nr, 0, r, aa(addr)),
    ensures
        rebal_post(h_split_root_code(h, id, l, md, rn, r, nr), Some(nr), Some(addr2), s, q, item),
{
    let m = l.its.len() as int;
    assert(node_ok(h, g, id));
    lemma_split_parts(h, g, id, l, md, rn);
    lemma_split_root_code(h, g, l, md, rn, r, nr);
    lemma_grow(h, g, nr);
    let h1 = h_grow(h, id, nr);
    let g1 = g_grow(h, g, nr);
    let h2 = h_split(h1, id, m, nr, 0, r);
    let g2 = g_split(h1, g1, id, m, nr, 0, r);
    lemma_split(h1, g1, id, m, nr, 0, r);
    assert(a_kept(h, g, a_here(aa(addr)), h1, g1, a_here(aa(addr))));
    lemma_split_addr(h1, g1, id, m, nr, 0, r, aa(addr));
    assert forall|x: I| h2.contains_key(x) implies #[trigger] size_ok(h2, nr, x) by {
        if x != r && x != nr { assert(size_ok(h, g.root, x) || x == id); }
    }
    lemma_rebal_done(h2, g2, Some(nr), addr2, s, q, item);
}
pub proof fn lemma_rebal_rotate<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, id: I, addr: Address<I>, s: Seq<T>, q: int, item: bool,
    p: I, k: int, left: bool, addr2: Address<I>)
    requires
        rebal_inv(h, g, root, id, addr, s, q, item),
        h[id].par == Some(p),
        k == (g.ix)(id),
        under(h[id]),
        left ==> k + 1 < h[p].kids.len() && h[h[p].kids[k + 1]].its.len() > min_items(true) && aa(addr2) == a_rot_left(h, p, k, aa(addr)),
        !left ==> k > 0 && h[h[p].kids[k - 1]].its.len() > min_items(true) && aa(addr2) == a_rot_right(h, p, k - 1, aa(addr)),
    ensures
        rebal_post(if left { h_rot_left(h, p, k) } else { h_rot_right(h, p, k - 1) }, root, Some(addr2), s, q, item),
{
    lemma_up(h, g, id);
    let j = if left { k } else { k - 1 };
    let l = h[p].kids[j];
    let r = h[p].kids[j + 1];
    lemma_merge_pre(h, g, p, j);
    let h1 = h_merge(h, p, j);
    let g1 = g_merge(h, g, p, j);
    lemma_merge(h, g, p, j);
    lemma_merge_addr(h, g, p, j, aa(addr));
    let m = if left { h[l].its.len() as int + 1 } else { h[l].its.len() as int - 1 };
    let h2 = h_split(h1, l, m, p, j, r);
    let g2 = g_split(h1, g1, l, m, p, j, r);
    assert(split_pre(h1, g1, l, m, p, j, r));
    lemma_split(h1, g1, l, m, p, j, r);
    lemma_split_addr(h1, g1, l, m, p, j, r, a_merge(h, p, j, aa(addr)));
    assert(size_ok(h, g.root, p));
    assert(size_ok(h, g.root, l) || l == id);
    assert(size_ok(h, g.root, r) || r == id);
    assert forall|x: I| h2.contains_key(x) implies #[trigger] size_ok(h2, g.root, x) by {
        if x != l && x != r && x != p { assert(size_ok(h, g.root, x)); }
    }
    lemma_rebal_done(h2, g2, root, addr2, s, q, item);
}
pub proof fn lemma_rebal_merge<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, id: I, addr: Address<I>, s: Seq<T>, q: int, item: bool,
    p: I, k: int, addr2: Address<I>)
    requires
        rebal_inv(h, g, root, id, addr, s, q, item),
        h[id].par == Some(p),
        k == (g.ix)(id),
        under(h[id]),
        k + 1 < h[p].kids.len() ==> no_spare(h[h[p].kids[k + 1]]),
        k > 0 ==> no_spare(h[h[p].kids[k - 1]]),
        aa(addr2) == a_merge(h, p, if k > 0 { k - 1 } else { 0 }, aa(addr)),
    ensures
        ({
            let j = if k > 0 { k - 1 } else { 0 };
            let g2 = g_merge(h, g, p, j);
            &&& rebal_inv(h_merge(h, p, j), g2, root, p, addr2, s, q, item)
            &&& (g2.ht)(p) == (g.ht)(id) + 1
            &&& (g2.ht)(g2.root) == (g.ht)(g.root)
        }),
{
    lemma_up(h, g, id);
    assert(size_ok(h, g.root, p));
    let j = if k > 0 { k - 1 } else { 0 };
    let l = h[p].kids[j];
    let r = h[p].kids[j + 1];
    lemma_merge_pre(h, g, p, j);
    let h1 = h_merge(h, p, j);
    let g1 = g_merge(h, g, p, j);
    lemma_merge(h, g, p, j);
    lemma_merge_addr(h, g, p, j, aa(addr));
    assert(size_ok(h, g.root, l) || l == id);
    assert(size_ok(h, g.root, r) || r == id);
    assert forall|x: I| h1.contains_key(x) && x != p implies #[trigger] size_ok(h1, g.root, x) by {
        if x != l { assert(size_ok(h, g.root, x)); }
    }
}
pub proof fn lemma_rebal_collapse<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, id: I, addr: Address<I>, s: Seq<T>, q: int, item: bool, addr2: Address<I>)
    requires
        rebal_inv(h, g, root, id, addr, s, q, item),
        h[id].par == None::<I>,
        h[id].its.len() == 0,
        !h[id].leaf,
        aa(addr2) == a_collapse(h, id, aa(addr)),
    ensures
        rebal_post(h_collapse(h, id), Some(h[id].kids[0]), Some(addr2), s, q, item),
{
    assert(node_ok(h, g, id));
    lemma_kid(h, g, id, 0);
    lemma_collapse(h, g);
    let h1 = h_collapse(h, id);
    let g1 = g_collapse(h, g);
    assert(a_kept(h, g, aa(addr), h1, g1, a_collapse(h, g.root, aa(addr))));
    let c = h[id].kids[0];
    assert forall|x: I| h1.contains_key(x) implies #[trigger] size_ok(h1, c, x) by {
        assert(size_ok(h, g.root, x));
    }
    lemma_rebal_done(h1, g1, Some(c), addr2, s, q, item);
}
pub proof fn lemma_rebal_empty<I, T>(h: Heap<I, T>, g: Gh<I, T>, root: Option<I>, id: I, addr: Address<I>, s: Seq<T>, q: int, item: bool)
    requires
        rebal_inv(h, g, root, id, addr, s, q, item),
        h[id].par == None::<I>,
        h[id].its.len() == 0,
        h[id].leaf,
    ensures
        rebal_post(h.remove(id), None, None, s, q, item),
{
    assert(node_ok(h, g, id));
    lemma_single(h, g);
    assert(s =~= Seq::empty());
    assert(h.remove(id).dom() =~= Set::empty());
}
