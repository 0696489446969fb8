// ---------------------------------------------------------------------------------------------
// Trees.  The heap maps identifiers to nodes.  A numbering `g` assigns to every node its height and
// the interval [st, en) of positions its subtree covers in the sequence `s` of all items, and to
// every node its index among its siblings.  A heap is a tree when a numbering exists that every
// node agrees with locally.
// ---------------------------------------------------------------------------------------------
#[verifier::reject_recursive_types(I)]
pub ghost struct Gh<I, T> {
    pub root: I,
    pub ht: spec_fn(I) -> int,
    pub st: spec_fn(I) -> int,
    pub en: spec_fn(I) -> int,
    pub ix: spec_fn(I) -> int,
    pub s: Seq<T>,
}
pub type Heap<I, T> = Map<I, AN<I, T>>;

/// Position of the item at offset `o` of `id`, or of the gap when `o` is the number of items.
pub open spec fn gp<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, o: int) -> int {
    if o == -1 { (g.st)(id) } else if h[id].leaf { (g.st)(id) + o } else { (g.en)(h[id].kids[o]) }
}
pub open spec fn kid_ok<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, i: int) -> bool {
    let k = h[id].kids[i];
    &&& h.contains_key(k)
    &&& h[k].par == Some(id)
    &&& (g.ix)(k) == i
    &&& (g.ht)(k) == (g.ht)(id) - 1
    &&& (g.st)(id) <= (g.st)(k) <= (g.en)(k) <= (g.en)(id)
}
pub open spec fn sep_ok<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, i: int) -> bool {
    &&& (g.st)(h[id].kids[i + 1]) == (g.en)(h[id].kids[i]) + 1
    &&& (g.en)(h[id].kids[i]) < (g.en)(id)
    &&& g.s[(g.en)(h[id].kids[i])] == h[id].its[i]
}
pub open spec fn leaf_ok<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I) -> bool {
    &&& h[id].kids.len() == 0
    &&& (g.ht)(id) == 0
    &&& (g.en)(id) == (g.st)(id) + h[id].its.len()
    &&& forall|o: int| 0 <= o < h[id].its.len() ==> g.s[(g.st)(id) + o] == #[trigger] h[id].its[o]
}
pub open spec fn inner_ok<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I) -> bool {
    &&& h[id].kids.len() == h[id].its.len() + 1
    &&& (g.ht)(id) > 0
    &&& (g.st)(h[id].kids[0]) == (g.st)(id)
    &&& (g.en)(h[id].kids[h[id].its.len() as int]) == (g.en)(id)
    &&& forall|i: int| 0 <= i < h[id].kids.len() ==> #[trigger] kid_ok(h, g, id, i)
    &&& forall|i: int| 0 <= i < h[id].its.len() ==> #[trigger] sep_ok(h, g, id, i)
}
pub open spec fn up_ok<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I) -> bool {
    match h[id].par {
        None => id == g.root,
        Some(p) => {
            &&& id != g.root
            &&& h.contains_key(p)
            &&& !h[p].leaf
            &&& 0 <= (g.ix)(id) < h[p].kids.len()
            &&& h[p].kids[(g.ix)(id)] == id
        }
    }
}
pub open spec fn node_ok<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I) -> bool {
    &&& 0 <= (g.st)(id) <= (g.en)(id) <= g.s.len()
    &&& (g.ht)(id) <= (g.ht)(g.root)
    &&& if h[id].leaf { leaf_ok(h, g, id) } else { inner_ok(h, g, id) }
    &&& up_ok(h, g, id)
}
pub open spec fn shape<I, T>(h: Heap<I, T>, g: Gh<I, T>) -> bool {
    &&& h.contains_key(g.root)
    &&& (g.st)(g.root) == 0
    &&& (g.en)(g.root) == g.s.len()
    &&& forall|id: I| h.contains_key(id) ==> #[trigger] node_ok(h, g, id)
}

// ---- split -----------------------------------------------------------------------------------
/// heap after node `id` (child `k` of `p`) was split at item `m`, the right part being `r`
pub open spec fn h_split<I, T>(h: Heap<I, T>, id: I, m: int, p: I, k: int, r: I) -> Heap<I, T> {
    let n = h[id];
    let moved = if n.leaf { Seq::empty() } else { n.kids.subrange(m + 1, n.kids.len() as int) };
    Map::new(
        h.dom().insert(r),
        |x: I|
            if x == id {
                AN { its: n.its.subrange(0, m), kids: if n.leaf { n.kids } else { n.kids.subrange(0, m + 1) }, ..n }
            } else if x == r {
                AN { its: n.its.subrange(m + 1, n.its.len() as int), kids: moved, leaf: n.leaf, par: Some(p) }
            } else if x == p {
                AN { its: h[p].its.insert(k, n.its[m]), kids: h[p].kids.insert(k + 1, r), ..h[p] }
            } else if moved.contains(x) {
                AN { par: Some(r), ..h[x] }
            } else {
                h[x]
            },
    )
}
pub open spec fn g_split<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I) -> Gh<I, T> {
    let q = gp(h, g, id, m);
    Gh {
        root: g.root,
        s: g.s,
        ht: |x: I| if x == r { (g.ht)(id) } else { (g.ht)(x) },
        st: |x: I| if x == r { q + 1 } else { (g.st)(x) },
        en: |x: I| if x == r { (g.en)(id) } else if x == id { q } else { (g.en)(x) },
        ix: |x: I|
            if x == r { k + 1 }
            else if h[x].par == Some(id) && (g.ix)(x) > m { (g.ix)(x) - m - 1 }
            else if h[x].par == Some(p) && (g.ix)(x) > k { (g.ix)(x) + 1 }
            else { (g.ix)(x) },
    }
}

pub open spec fn a_split<I, T>(h: Heap<I, T>, id: I, m: int, p: I, k: int, r: I, a: (I, int)) -> (I, int) {
    if a.0 == id && a.1 == m { (p, k) }
    else if a.0 == id && a.1 > m { (r, a.1 - m - 1) }
    else if a.0 == p && a.1 >= k { (p, a.1 + 1) }
    else { a }
}
pub open spec fn split_pre<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I) -> bool {
    &&& shape(h, g)
    &&& h.contains_key(id)
    &&& 0 <= m < h[id].its.len()
    &&& h[id].par == Some(p)
    &&& k == (g.ix)(id)
    &&& !h.contains_key(r)
}
pub proof fn lemma_kid<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, i: int)
    requires
        shape(h, g),
        h.contains_key(p),
        !h[p].leaf,
        0 <= i < h[p].kids.len(),
    ensures
        kid_ok(h, g, p, i),
        node_ok(h, g, h[p].kids[i]),
        node_ok(h, g, p),
        i < h[p].its.len() ==> sep_ok(h, g, p, i),
        i > 0 ==> sep_ok(h, g, p, i - 1),
{
    assert(node_ok(h, g, p));
    assert(kid_ok(h, g, p, i));
    assert(node_ok(h, g, h[p].kids[i]));
    if i < h[p].its.len() { assert(sep_ok(h, g, p, i)); }
    if i > 0 { assert(sep_ok(h, g, p, i - 1)); }
}
/// siblings cover disjoint intervals, in order
pub proof fn lemma_mono<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, i: int, j: int)
    requires
        shape(h, g),
        h.contains_key(p),
        !h[p].leaf,
        0 <= i < j < h[p].kids.len(),
    ensures
        (g.en)(h[p].kids[i]) < (g.st)(h[p].kids[j]),
    decreases j - i,
{
    lemma_kid(h, g, p, i);
    lemma_kid(h, g, p, i + 1);
    if i + 1 < j {
        lemma_mono(h, g, p, i + 1, j);
    }
}
pub proof fn lemma_up<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I)
    requires
        shape(h, g),
        h.contains_key(x),
        h[x].par is Some,
    ensures
        node_ok(h, g, x),
        h.contains_key(h[x].par->0),
        h[x].par->0 != x,
        0 <= (g.ix)(x) < h[h[x].par->0].kids.len(),
        h[h[x].par->0].kids[(g.ix)(x)] == x,
        !h[h[x].par->0].leaf,
        kid_ok(h, g, h[x].par->0, (g.ix)(x)),
        node_ok(h, g, h[x].par->0),
        (g.ix)(x) < h[h[x].par->0].its.len() ==> sep_ok(h, g, h[x].par->0, (g.ix)(x)),
        (g.ix)(x) > 0 ==> sep_ok(h, g, h[x].par->0, (g.ix)(x) - 1),
{
    assert(node_ok(h, g, x));
    lemma_kid(h, g, h[x].par->0, (g.ix)(x));
}
pub proof fn lemma_moved<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, x: I)
    requires
        shape(h, g),
        h.contains_key(id),
        0 <= m < h[id].its.len(),
        h.contains_key(x),
        !h[id].leaf,
    ensures
        h[id].kids.subrange(m + 1, h[id].kids.len() as int).contains(x) <==> (h[x].par == Some(id) && (g.ix)(x) > m),
{
    let mv = h[id].kids.subrange(m + 1, h[id].kids.len() as int);
    assert(node_ok(h, g, id));
    if mv.contains(x) {
        let j = choose|j: int| 0 <= j < mv.len() && mv[j] == x;
        assert(h[id].kids[m + 1 + j] == x);
        lemma_kid(h, g, id, m + 1 + j);
    }
    if h[x].par == Some(id) && (g.ix)(x) > m {
        lemma_up(h, g, x);
        assert(mv[(g.ix)(x) - m - 1] == x);
    }
}
pub open spec fn split_src<I>(id: I, m: int, p: I, k: int, r: I, x: I, i: int) -> (I, int) {
    if x == r { (id, i + m + 1) } else if x == p && i >= k + 1 { (p, i - 1) } else { (x, i) }
}
proof fn lemma_split_kid<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I, x: I, i: int)
    requires
        split_pre(h, g, id, m, p, k, r),
        h_split(h, id, m, p, k, r).contains_key(x),
        !h_split(h, id, m, p, k, r)[x].leaf,
        0 <= i < h_split(h, id, m, p, k, r)[x].kids.len(),
    ensures
        kid_ok(h_split(h, id, m, p, k, r), g_split(h, g, id, m, p, k, r), x, i),
{
    let h2 = h_split(h, id, m, p, k, r);
    let g2 = g_split(h, g, id, m, p, k, r);
    let n = h[id];
    lemma_up(h, g, id);
    if !n.leaf {
        lemma_kid(h, g, id, m);
    }
    if x == p && i == k + 1 {
    } else {
        let (y, j) = split_src(id, m, p, k, r, x, i);
        assert(node_ok(h, g, y));
        lemma_kid(h, g, y, j);
        let c = h[y].kids[j];
        assert(h2[x].kids[i] == c);
        if !n.leaf {
            lemma_moved(h, g, id, m, c);
            if y == id && j < m { lemma_mono(h, g, id, j, m); }
            if y == id && j > m { lemma_mono(h, g, id, m, j); }
        }
        assert(h2[c].par == Some(x));
        assert((g2.ix)(c) == i);
    }
}
#[verifier::rlimit(40)]
proof fn lemma_split_sep<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I, x: I, i: int)
    requires
        split_pre(h, g, id, m, p, k, r),
        h_split(h, id, m, p, k, r).contains_key(x),
        !h_split(h, id, m, p, k, r)[x].leaf,
        0 <= i < h_split(h, id, m, p, k, r)[x].its.len(),
    ensures
        sep_ok(h_split(h, id, m, p, k, r), g_split(h, g, id, m, p, k, r), x, i),
{
    let h2 = h_split(h, id, m, p, k, r);
    let g2 = g_split(h, g, id, m, p, k, r);
    let n = h[id];
    lemma_up(h, g, id);
    if !n.leaf {
        lemma_kid(h, g, id, m);
        lemma_kid(h, g, id, m + 1);
    }
    if x == p && i == k {
        assert(h2[p].kids[k] == id);
        assert(h2[p].kids[k + 1] == r);
    } else if x == p && i == k + 1 {
        lemma_kid(h, g, p, k + 1);
        assert(h2[p].kids[k + 1] == r);
        assert(h2[p].kids[k + 2] == h[p].kids[k + 1]);
    } else {
        let (y, j) = split_src(id, m, p, k, r, x, i);
        assert(node_ok(h, g, y));
        lemma_kid(h, g, y, j);
        lemma_kid(h, g, y, j + 1);
        let c = h[y].kids[j];
        let d = h[y].kids[j + 1];
        assert(h2[x].kids[i] == c);
        assert(h2[x].kids[i + 1] == d);
        assert(h2[x].its[i] == h[y].its[j]);
        assert(c != id || x == p && i == k);
        if y == id && j < m {
            if j + 1 < m { lemma_mono(h, g, id, j + 1, m); }
        }
    }
}
proof fn lemma_split_inner<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I, x: I)
    requires
        split_pre(h, g, id, m, p, k, r),
        h_split(h, id, m, p, k, r).contains_key(x),
        !h_split(h, id, m, p, k, r)[x].leaf,
    ensures
        inner_ok(h_split(h, id, m, p, k, r), g_split(h, g, id, m, p, k, r), x),
        x != r ==> (g_split(h, g, id, m, p, k, r).st)(x) <= (g_split(h, g, id, m, p, k, r).en)(x) <= (g.en)(x),
{
    let h2 = h_split(h, id, m, p, k, r);
    let g2 = g_split(h, g, id, m, p, k, r);
    let n = h[id];
    lemma_up(h, g, id);
    if !n.leaf {
        lemma_kid(h, g, id, m);
        lemma_kid(h, g, id, m + 1);
    }
    if x != r { assert(node_ok(h, g, x)); }
    let z = h2[x].its.len() as int;
    assert forall|i: int| 0 <= i < h2[x].kids.len() implies #[trigger] kid_ok(h2, g2, x, i) by {
        lemma_split_kid(h, g, id, m, p, k, r, x, i);
    }
    assert forall|i: int| 0 <= i < h2[x].its.len() implies #[trigger] sep_ok(h2, g2, x, i) by {
        lemma_split_sep(h, g, id, m, p, k, r, x, i);
    }
    assert((g2.st)(h2[x].kids[0]) == (g2.st)(x)) by {
        let (y, j) = split_src(id, m, p, k, r, x, 0);
        lemma_kid(h, g, y, j);
        assert(h2[x].kids[0] == h[y].kids[j]);
    }
    assert((g2.en)(h2[x].kids[z]) == (g2.en)(x)) by {
        if !(x == p && z == k + 1) {
            let (y, j) = split_src(id, m, p, k, r, x, z);
            lemma_kid(h, g, y, j);
            assert(h2[x].kids[z] == h[y].kids[j]);
        }
    }
}
proof fn lemma_split_leaf<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I, x: I)
    requires
        split_pre(h, g, id, m, p, k, r),
        h_split(h, id, m, p, k, r).contains_key(x),
        h_split(h, id, m, p, k, r)[x].leaf,
    ensures
        leaf_ok(h_split(h, id, m, p, k, r), g_split(h, g, id, m, p, k, r), x),
{
    lemma_up(h, g, id);
    if x != r { assert(node_ok(h, g, x)); }
}
proof fn lemma_split_up<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I, x: I)
    requires
        split_pre(h, g, id, m, p, k, r),
        h_split(h, id, m, p, k, r).contains_key(x),
    ensures
        up_ok(h_split(h, id, m, p, k, r), g_split(h, g, id, m, p, k, r), x),
{
    let h2 = h_split(h, id, m, p, k, r);
    let g2 = g_split(h, g, id, m, p, k, r);
    lemma_up(h, g, id);
    assert(node_ok(h, g, id));
    if x == r {
        assert(h2[p].kids[k + 1] == r);
    } else {
        assert(node_ok(h, g, x));
        assert((g2.ix)(x) == if h[x].par == Some(id) && (g.ix)(x) > m { (g.ix)(x) - m - 1 }
            else if h[x].par == Some(p) && (g.ix)(x) > k { (g.ix)(x) + 1 } else { (g.ix)(x) });
        if !h[id].leaf { lemma_moved(h, g, id, m, x); }
        if h[x].par is Some {
            lemma_up(h, g, x);
            let q = h[x].par->0;
            let i = (g.ix)(x);
            if q == id {
                assert(!h[id].leaf);
                if i > m {
                    assert(h2[x].par == Some(r));
                    assert(h2[r].kids[i - m - 1] == x);
                } else {
                    assert(h2[id].kids[i] == x);
                    assert(h2[x].par == Some(id));
                }
            } else if q == p {
                if i > k { assert(h2[p].kids[i + 1] == x); } else { assert(h2[p].kids[i] == x); }
                assert(h2[x].par == Some(p));
            } else {
                assert(h2[q] == AN { par: h2[q].par, ..h[q] });
                assert(h2[x].par == Some(q));
            }
        }
    }
}
pub proof fn lemma_split<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I)
    requires
        split_pre(h, g, id, m, p, k, r),
    ensures
        shape(h_split(h, id, m, p, k, r), g_split(h, g, id, m, p, k, r)),
{
    let h2 = h_split(h, id, m, p, k, r);
    let g2 = g_split(h, g, id, m, p, k, r);
    lemma_up(h, g, id);
    assert(node_ok(h, g, g.root));
    lemma_gp_bounds(h, g, (id, m));
    assert forall|x: I| h2.contains_key(x) implies #[trigger] node_ok(h2, g2, x) by {
        if x != r { assert(node_ok(h, g, x)); }
        lemma_split_up(h, g, id, m, p, k, r, x);
        if h2[x].leaf {
            lemma_split_leaf(h, g, id, m, p, k, r, x);
        } else {
            lemma_split_inner(h, g, id, m, p, k, r, x);
        }
    }
}
// ---- addresses -------------------------------------------------------------------------------
/// the address is one of a node of the tree, with an offset in or directly around its items
pub open spec fn a_ok<I, T>(h: Heap<I, T>, a: (I, int)) -> bool {
    h.contains_key(a.0) && -1 <= a.1 <= h[a.0].its.len()
}
/// the address of an item
pub open spec fn a_item<I, T>(h: Heap<I, T>, a: (I, int)) -> bool {
    h.contains_key(a.0) && 0 <= a.1 < h[a.0].its.len()
}
pub open spec fn at_gp<I, T>(h: Heap<I, T>, g: Gh<I, T>, a: (I, int)) -> int {
    gp(h, g, a.0, a.1)
}
/// `a2` is in `h2` where `a` was in `h`
pub open spec fn a_kept<I, T>(h: Heap<I, T>, g: Gh<I, T>, a: (I, int), h2: Heap<I, T>, g2: Gh<I, T>, a2: (I, int)) -> bool {
    &&& a_ok(h2, a2)
    &&& at_gp(h2, g2, a2) == at_gp(h, g, a)
    &&& a_item(h, a) ==> a_item(h2, a2)
}
pub proof fn lemma_gp_bounds<I, T>(h: Heap<I, T>, g: Gh<I, T>, a: (I, int))
    requires
        shape(h, g),
        a_ok(h, a),
    ensures
        0 <= (g.st)(a.0) <= at_gp(h, g, a) <= (g.en)(a.0) <= g.s.len(),
        a.1 == h[a.0].its.len() ==> at_gp(h, g, a) == (g.en)(a.0),
        a_item(h, a) ==> at_gp(h, g, a) < (g.en)(a.0) && g.s[at_gp(h, g, a)] == h[a.0].its[a.1],
{
    assert(node_ok(h, g, a.0));
    if !h[a.0].leaf && a.1 >= 0 {
        lemma_kid(h, g, a.0, a.1);
    } else if h[a.0].leaf && a_item(h, a) {
        assert(g.s[(g.st)(a.0) + a.1] == h[a.0].its[a.1]);
    }
}
pub proof fn lemma_split_addr<I, T>(h: Heap<I, T>, g: Gh<I, T>, id: I, m: int, p: I, k: int, r: I, a: (I, int))
    requires
        split_pre(h, g, id, m, p, k, r),
        a_ok(h, a),
    ensures
        a_kept(h, g, a, h_split(h, id, m, p, k, r), g_split(h, g, id, m, p, k, r), a_split(h, id, m, p, k, r, a)),
{
    let h2 = h_split(h, id, m, p, k, r);
    let g2 = g_split(h, g, id, m, p, k, r);
    let a2 = a_split(h, id, m, p, k, r, a);
    lemma_up(h, g, id);
    lemma_kid(h, g, p, k);
    assert(h2[p].kids =~= h[p].kids.insert(k + 1, r));
    assert(node_ok(h, g, a.0));
    if a.1 >= 0 && !h[a.0].leaf {
        lemma_kid(h, g, a.0, a.1);
    }
    if !h[id].leaf {
        lemma_kid(h, g, id, m);
    }
}

// ---- merge -----------------------------------------------------------------------------------
/// heap after the children `k` and `k + 1` of `p` and the item between them were joined
pub open spec fn h_merge<I, T>(h: Heap<I, T>, p: I, k: int) -> Heap<I, T> {
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    Map::new(
        h.dom().remove(r),
        |x: I|
            if x == l {
                AN { its: h[l].its.push(h[p].its[k]) + h[r].its, kids: h[l].kids + h[r].kids, ..h[l] }
            } else if x == p {
                AN { its: h[p].its.remove(k), kids: h[p].kids.remove(k + 1), ..h[p] }
            } else if h[r].kids.contains(x) {
                AN { par: Some(l), ..h[x] }
            } else {
                h[x]
            },
    )
}
pub open spec fn g_merge<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int) -> Gh<I, T> {
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    Gh {
        root: g.root,
        s: g.s,
        ht: g.ht,
        st: g.st,
        en: |x: I| if x == l { (g.en)(r) } else { (g.en)(x) },
        ix: |x: I|
            if h[x].par == Some(r) { (g.ix)(x) + h[l].its.len() + 1 }
            else if h[x].par == Some(p) && (g.ix)(x) > k + 1 { (g.ix)(x) - 1 }
            else { (g.ix)(x) },
    }
}
pub open spec fn a_merge<I, T>(h: Heap<I, T>, p: I, k: int, a: (I, int)) -> (I, int) {
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    let n = h[l].its.len() as int;
    if a.0 == p && a.1 == k { (l, n) }
    else if a.0 == p && a.1 > k { (p, a.1 - 1) }
    else if a.0 == r && a.1 >= 0 { (l, a.1 + n + 1) }
    else { a }
}
pub open spec fn merge_pre<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int) -> bool {
    &&& shape(h, g)
    &&& h.contains_key(p)
    &&& !h[p].leaf
    &&& 0 <= k < h[p].its.len()
}
proof fn lemma_merge_pre<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int)
    requires
        merge_pre(h, g, p, k),
    ensures
        kid_ok(h, g, p, k),
        kid_ok(h, g, p, k + 1),
        sep_ok(h, g, p, k),
        node_ok(h, g, p),
        ({
            let l = h[p].kids[k];
            let r = h[p].kids[k + 1];
            &&& l != r && l != p && r != p
            &&& h[l].leaf == h[r].leaf
            &&& node_ok(h, g, l)
            &&& node_ok(h, g, r)
        }),
{
    assert(node_ok(h, g, p));
    lemma_kid(h, g, p, k);
    lemma_kid(h, g, p, k + 1);
}
proof fn lemma_kids_of<I, T>(h: Heap<I, T>, g: Gh<I, T>, r: I, x: I)
    requires
        shape(h, g),
        h.contains_key(r),
        h.contains_key(x),
    ensures
        h[r].kids.contains(x) <==> h[x].par == Some(r),
{
    assert(node_ok(h, g, r));
    if h[r].kids.contains(x) {
        let j = choose|j: int| 0 <= j < h[r].kids.len() && h[r].kids[j] == x;
        lemma_kid(h, g, r, j);
    }
    if h[x].par == Some(r) {
        lemma_up(h, g, x);
        assert(h[r].kids[(g.ix)(x)] == x);
    }
}
pub open spec fn merge_src<I, T>(h: Heap<I, T>, p: I, k: int, x: I, i: int) -> (I, int) {
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    let n = h[l].its.len() as int;
    if x == l && i > n { (r, i - n - 1) } else if x == p && i > k { (p, i + 1) } else { (x, i) }
}
proof fn lemma_merge_kid<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int, x: I, i: int)
    requires
        merge_pre(h, g, p, k),
        h_merge(h, p, k).contains_key(x),
        !h_merge(h, p, k)[x].leaf,
        0 <= i < h_merge(h, p, k)[x].kids.len(),
    ensures
        kid_ok(h_merge(h, p, k), g_merge(h, g, p, k), x, i),
        ({
            let (y, j) = merge_src(h, p, k, x, i);
            h_merge(h, p, k)[x].kids[i] == h[y].kids[j]
        }),
{
    lemma_merge_pre(h, g, p, k);
    let h2 = h_merge(h, p, k);
    let g2 = g_merge(h, g, p, k);
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    let (y, j) = merge_src(h, p, k, x, i);
    assert(node_ok(h, g, y));
    lemma_kid(h, g, y, j);
    let c = h[y].kids[j];
    assert(h2[x].kids[i] == c);
    lemma_kids_of(h, g, r, c);
    assert(c != r);
    assert(h2[c].par == Some(x));
    assert((g2.ix)(c) == i);
}
proof fn lemma_merge_sep<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int, x: I, i: int)
    requires
        merge_pre(h, g, p, k),
        h_merge(h, p, k).contains_key(x),
        !h_merge(h, p, k)[x].leaf,
        0 <= i < h_merge(h, p, k)[x].its.len(),
    ensures
        sep_ok(h_merge(h, p, k), g_merge(h, g, p, k), x, i),
{
    lemma_merge_pre(h, g, p, k);
    let h2 = h_merge(h, p, k);
    let g2 = g_merge(h, g, p, k);
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    assert(node_ok(h, g, x));
    lemma_merge_kid(h, g, p, k, x, i);
    lemma_merge_kid(h, g, p, k, x, i + 1);
    let n = h[l].its.len() as int;
    if x == l && i == n {
        lemma_kid(h, g, l, n);
        lemma_kid(h, g, r, 0);
    } else if x == p && i == k {
        lemma_kid(h, g, p, k + 1);
        lemma_kid(h, g, p, k + 2);
    } else {
        let (y, j) = merge_src(h, p, k, x, i);
        lemma_kid(h, g, y, j);
        lemma_kid(h, g, y, j + 1);
        assert(h2[x].its[i] == h[y].its[j]);
        assert(h2[x].kids[i + 1] == h[y].kids[j + 1]);
    }
}
pub proof fn lemma_merge<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int)
    requires
        merge_pre(h, g, p, k),
    ensures
        shape(h_merge(h, p, k), g_merge(h, g, p, k)),
{
    lemma_merge_pre(h, g, p, k);
    let h2 = h_merge(h, p, k);
    let g2 = g_merge(h, g, p, k);
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    assert(node_ok(h, g, g.root));
    assert forall|x: I| h2.contains_key(x) implies #[trigger] node_ok(h2, g2, x) by {
        assert(node_ok(h, g, x));
        lemma_kids_of(h, g, r, x);
        if h[x].par is Some { lemma_up(h, g, x); }
        assert(up_ok(h2, g2, x));
        if h2[x].leaf {
            assert(leaf_ok(h2, g2, x));
        } else {
            assert forall|i: int| 0 <= i < h2[x].kids.len() implies #[trigger] kid_ok(h2, g2, x, i) by {
                lemma_merge_kid(h, g, p, k, x, i);
            }
            assert forall|i: int| 0 <= i < h2[x].its.len() implies #[trigger] sep_ok(h2, g2, x, i) by {
                lemma_merge_sep(h, g, p, k, x, i);
            }
            lemma_merge_kid(h, g, p, k, x, 0);
            let z = h2[x].its.len() as int;
            lemma_merge_kid(h, g, p, k, x, z);
            assert((g2.st)(h2[x].kids[0]) == (g2.st)(x));
            assert((g2.en)(h2[x].kids[h2[x].its.len() as int]) == (g2.en)(x));
            assert(inner_ok(h2, g2, x));
        }
    }
}
pub proof fn lemma_merge_addr<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int, a: (I, int))
    requires
        merge_pre(h, g, p, k),
        a_ok(h, a),
        a.0 == h[p].kids[k + 1] ==> a.1 >= 0,
    ensures
        a_kept(h, g, a, h_merge(h, p, k), g_merge(h, g, p, k), a_merge(h, p, k, a)),
{
    lemma_merge_pre(h, g, p, k);
    let h2 = h_merge(h, p, k);
    let g2 = g_merge(h, g, p, k);
    assert(node_ok(h, g, a.0));
    if a.1 >= 0 && !h[a.0].leaf {
        lemma_kid(h, g, a.0, a.1);
        let a2 = a_merge(h, p, k, a);
        if !h2[a2.0].leaf {
        lemma_merge_kid(h, g, p, k, a2.0, a2.1);
        }
    }
}

// ---- a new root, and the removal of a root without items ---------------------------------------
pub open spec fn h_grow<I, T>(h: Heap<I, T>, root: I, r: I) -> Heap<I, T> {
    h.insert(root, AN { par: Some(r), ..h[root] }).insert(r, AN { leaf: false, its: Seq::empty(), kids: seq![root], par: None })
}
pub open spec fn g_grow<I, T>(h: Heap<I, T>, g: Gh<I, T>, r: I) -> Gh<I, T> {
    Gh {
        root: r,
        s: g.s,
        ht: |x: I| if x == r { (g.ht)(g.root) + 1 } else { (g.ht)(x) },
        st: |x: I| if x == r { 0 } else { (g.st)(x) },
        en: |x: I| if x == r { g.s.len() as int } else { (g.en)(x) },
        ix: |x: I| if x == g.root { 0 } else { (g.ix)(x) },
    }
}
pub proof fn lemma_grow<I, T>(h: Heap<I, T>, g: Gh<I, T>, r: I)
    requires
        shape(h, g),
        !h.contains_key(r),
    ensures
        shape(h_grow(h, g.root, r), g_grow(h, g, r)),
        forall|a: (I, int)| a_ok(h, a) ==> a_kept(h, g, a, h_grow(h, g.root, r), #[trigger] g_grow(h, g, r), #[trigger] a_here(a)),
{
    let h2 = h_grow(h, g.root, r);
    let g2 = g_grow(h, g, r);
    assert(node_ok(h, g, g.root));
    assert forall|x: I| h2.contains_key(x) implies #[trigger] node_ok(h2, g2, x) by {
        if x != r {
            assert(node_ok(h, g, x));
            if h[x].par is Some { lemma_up(h, g, x); }
            assert(up_ok(h2, g2, x));
        }
        if h2[x].leaf {
            assert(leaf_ok(h2, g2, x));
        } else {
            assert forall|i: int| 0 <= i < h2[x].kids.len() implies #[trigger] kid_ok(h2, g2, x, i) by {
                if x != r { lemma_kid(h, g, x, i); }
            }
            assert forall|i: int| 0 <= i < h2[x].its.len() implies #[trigger] sep_ok(h2, g2, x, i) by {
                if x != r { lemma_kid(h, g, x, i); lemma_kid(h, g, x, i + 1); }
            }
            if x != r {
                lemma_kid(h, g, x, 0);
                lemma_kid(h, g, x, h[x].its.len() as int);
            }
        }
    }
    assert forall|a: (I, int)| a_ok(h, a) implies a_kept(h, g, a, h2, #[trigger] g_grow(h, g, r), #[trigger] a_here(a)) by {
        assert(node_ok(h, g, a.0));
        if a.1 >= 0 && !h[a.0].leaf { lemma_kid(h, g, a.0, a.1); }
    }
}
pub open spec fn a_here<I>(a: (I, int)) -> (I, int) { a }

pub open spec fn h_collapse<I, T>(h: Heap<I, T>, root: I) -> Heap<I, T> {
    let c = h[root].kids[0];
    h.insert(c, AN { par: None, ..h[c] }).remove(root)
}
pub open spec fn g_collapse<I, T>(h: Heap<I, T>, g: Gh<I, T>) -> Gh<I, T> {
    Gh { root: h[g.root].kids[0], ..g }
}
pub open spec fn a_collapse<I, T>(h: Heap<I, T>, root: I, a: (I, int)) -> (I, int) {
    let c = h[root].kids[0];
    if a.0 == root { (c, h[c].its.len() as int) } else { a }
}
pub proof fn lemma_collapse<I, T>(h: Heap<I, T>, g: Gh<I, T>)
    requires
        shape(h, g),
        !h[g.root].leaf,
        h[g.root].its.len() == 0,
    ensures
        shape(h_collapse(h, g.root), g_collapse(h, g)),
        forall|a: (I, int)| a_ok(h, a) && a.1 >= 0 ==> a_kept(h, g, a, h_collapse(h, g.root), g_collapse(h, g), #[trigger] a_collapse(h, g.root, a)),
{
    let h2 = h_collapse(h, g.root);
    let g2 = g_collapse(h, g);
    let c = g2.root;
    assert(node_ok(h, g, g.root));
    lemma_kid(h, g, g.root, 0);
    assert forall|x: I| h2.contains_key(x) implies #[trigger] node_ok(h2, g2, x) by {
        assert(node_ok(h, g, x));
        if h[x].par is Some { lemma_up(h, g, x); }
        assert(up_ok(h2, g2, x));
        if h2[x].leaf {
            assert(leaf_ok(h2, g2, x));
        } else {
            assert forall|i: int| 0 <= i < h2[x].kids.len() implies #[trigger] kid_ok(h2, g2, x, i) by {
                lemma_kid(h, g, x, i);
            }
            assert forall|i: int| 0 <= i < h2[x].its.len() implies #[trigger] sep_ok(h2, g2, x, i) by {
                lemma_kid(h, g, x, i); lemma_kid(h, g, x, i + 1);
            }
            lemma_kid(h, g, x, 0);
            lemma_kid(h, g, x, h[x].its.len() as int);
        }
    }
    assert forall|a: (I, int)| a_ok(h, a) && a.1 >= 0 implies a_kept(h, g, a, h2, g2, #[trigger] a_collapse(h, g.root, a)) by {
        assert(node_ok(h, g, a.0));
        if a.1 >= 0 && !h[a.0].leaf { lemma_kid(h, g, a.0, a.1); }
        lemma_gp_bounds(h2, g2, a_collapse(h, g.root, a));
    }
}

// ---- which nodes cover which positions ---------------------------------------------------------
pub open spec fn apart<I, T>(g: Gh<I, T>, x: I, y: I) -> bool {
    (g.en)(x) < (g.st)(y) || (g.en)(y) < (g.st)(x)
}
pub open spec fn inside<I, T>(g: Gh<I, T>, x: I, y: I) -> bool {
    (g.st)(x) <= (g.st)(y) && (g.en)(y) <= (g.en)(x)
}
pub proof fn lemma_level<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, y: I)
    requires
        shape(h, g),
        h.contains_key(x),
        h.contains_key(y),
        (g.ht)(x) == (g.ht)(y),
        x != y,
    ensures
        apart(g, x, y),
    decreases (g.ht)(g.root) - (g.ht)(x),
{
    assert(node_ok(h, g, x));
    assert(node_ok(h, g, y));
    assert(node_ok(h, g, g.root));
    if h[x].par is Some { lemma_up(h, g, x); }
    if h[y].par is Some { lemma_up(h, g, y); }
    if h[x].par is None || h[y].par is None {
        assert(false);
    }
    let p = h[x].par->0;
    let q = h[y].par->0;
    if p == q {
        let i = (g.ix)(x);
        let j = (g.ix)(y);
        if i < j { lemma_mono(h, g, p, i, j); } else { lemma_mono(h, g, p, j, i); }
    } else {
        lemma_level(h, g, p, q);
    }
}
/// two nodes cover disjoint intervals, or the higher one covers the lower one
pub proof fn lemma_laminar<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, y: I)
    requires
        shape(h, g),
        h.contains_key(x),
        h.contains_key(y),
        (g.ht)(x) >= (g.ht)(y),
        x != y,
    ensures
        apart(g, x, y) || ((g.ht)(x) > (g.ht)(y) && inside(g, x, y)),
    decreases (g.ht)(x) - (g.ht)(y),
{
    assert(node_ok(h, g, x));
    assert(node_ok(h, g, y));
    if (g.ht)(x) == (g.ht)(y) {
        lemma_level(h, g, x, y);
    } else {
        assert(h[y].par is Some);
        lemma_up(h, g, y);
        let p = h[y].par->0;
        if p != x { lemma_laminar(h, g, x, p); }
    }
}
proof fn lemma_inj_hi<I, T>(h: Heap<I, T>, g: Gh<I, T>, a: (I, int), b: (I, int))
    requires
        shape(h, g),
        a_item(h, a),
        (g.ht)(a.0) >= (g.ht)(b.0),
        a_item(h, b),
        at_gp(h, g, a) == at_gp(h, g, b),
    ensures
        a == b,
{
    let (x, i) = a;
    let (y, j) = b;
    assert(node_ok(h, g, x));
    assert(node_ok(h, g, y));
    if x == y {
        if !h[x].leaf {
            if i < j { lemma_mono(h, g, x, i, j); lemma_kid(h, g, x, i); lemma_kid(h, g, x, j); }
            if j < i { lemma_mono(h, g, x, j, i); lemma_kid(h, g, x, i); lemma_kid(h, g, x, j); }
        }
    } else {
        lemma_gp_bounds(h, g, a);
        lemma_gp_bounds(h, g, b);
        lemma_laminar(h, g, x, y);
        if inside(g, x, y) && (g.ht)(x) > (g.ht)(y) {
            // y is below child i of x, or beside it
            lemma_kid(h, g, x, i);
            let c = h[x].kids[i];
            if c != y { lemma_laminar(h, g, c, y); }
        }
    }
}
/// two items have different positions
pub proof fn lemma_inj<I, T>(h: Heap<I, T>, g: Gh<I, T>, a: (I, int), b: (I, int))
    requires
        shape(h, g),
        a_item(h, a),
        a_item(h, b),
        at_gp(h, g, a) == at_gp(h, g, b),
    ensures
        a == b,
{
    if (g.ht)(a.0) < (g.ht)(b.0) {
        lemma_inj_hi(h, g, b, a);
    } else {
        lemma_inj_hi(h, g, a, b);
    }
}

/// every position holds an item of the subtree that covers it
pub proof fn lemma_find<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, q: int) -> (a: (I, int))
    requires
        shape(h, g),
        h.contains_key(x),
        (g.st)(x) <= q < (g.en)(x),
    ensures
        a_item(h, a),
        at_gp(h, g, a) == q,
    decreases (g.ht)(x),
{
    assert(node_ok(h, g, x));
    if h[x].leaf {
        (x, q - (g.st)(x))
    } else {
        lemma_find_kid(h, g, x, q, 0)
    }
}
proof fn lemma_find_kid<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, q: int, i: int) -> (a: (I, int))
    requires
        shape(h, g),
        h.contains_key(x),
        !h[x].leaf,
        0 <= i < h[x].kids.len(),
        (g.st)(h[x].kids[i]) <= q < (g.en)(x),
    ensures
        a_item(h, a),
        at_gp(h, g, a) == q,
    decreases (g.ht)(x), h[x].kids.len() - i,
{
    lemma_kid(h, g, x, i);
    let c = h[x].kids[i];
    if q < (g.en)(c) {
        lemma_find(h, g, c, q)
    } else {
        lemma_kid(h, g, x, i + 1);
        if q == (g.en)(c) { (x, i) } else { lemma_find_kid(h, g, x, q, i + 1) }
    }
}

// ---- an item more or less in a leaf ------------------------------------------------------------
pub open spec fn h_its<I, T>(h: Heap<I, T>, id: I, its: Seq<T>) -> Heap<I, T> {
    h.insert(id, AN { its, ..h[id] })
}
pub open spec fn g_its<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: I, s: Seq<T>, d: int) -> Gh<I, T> {
    Gh {
        st: |x: I| if (g.st)(x) > (g.en)(l) { (g.st)(x) + d } else { (g.st)(x) },
        en: |x: I| if (g.en)(x) >= (g.en)(l) { (g.en)(x) + d } else { (g.en)(x) },
        s,
        ..g
    }
}
pub open spec fn leaf_pre<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: I) -> bool {
    shape(h, g) && h.contains_key(l) && h[l].leaf
}
proof fn lemma_its_inner<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: I, its: Seq<T>, s: Seq<T>, d: int, x: I)
    requires
        leaf_pre(h, g, l),
        its.len() == h[l].its.len() + d,
        s.len() == g.s.len() + d,
        forall|q: int| 0 <= q < (g.st)(l) ==> #[trigger] s[q] == g.s[q],
        forall|q: int| (g.en)(l) <= q < g.s.len() ==> s[q + d] == #[trigger] g.s[q],
        h.contains_key(x),
        !h[x].leaf,
        -1 <= d <= 1,
    ensures
        inner_ok(h_its(h, l, its), g_its(h, g, l, s, d), x),
        0 <= (g_its(h, g, l, s, d).st)(x) <= (g_its(h, g, l, s, d).en)(x) <= s.len(),
{
    let h2 = h_its(h, l, its);
    let g2 = g_its(h, g, l, s, d);
    assert(node_ok(h, g, x));
    assert(node_ok(h, g, l));
    lemma_laminar(h, g, x, l);
    assert forall|i: int| 0 <= i < h2[x].kids.len() implies #[trigger] kid_ok(h2, g2, x, i) by {
        lemma_kid(h, g, x, i);
        let c = h[x].kids[i];
        if c != l { lemma_laminar(h, g, c, l); }
    }
    assert forall|i: int| 0 <= i < h2[x].its.len() implies #[trigger] sep_ok(h2, g2, x, i) by {
        lemma_kid(h, g, x, i);
        lemma_kid(h, g, x, i + 1);
        let c = h[x].kids[i];
        let e = h[x].kids[i + 1];
        if c != l { lemma_laminar(h, g, c, l); }
        if e != l { lemma_laminar(h, g, e, l); }
    }
    lemma_kid(h, g, x, 0);
    lemma_kid(h, g, x, h[x].its.len() as int);
    let c = h[x].kids[0];
    if c != l { lemma_laminar(h, g, c, l); }
}
proof fn lemma_its_leaf<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: I, its: Seq<T>, s: Seq<T>, d: int, x: I)
    requires
        leaf_pre(h, g, l),
        its.len() == h[l].its.len() + d,
        s.len() == g.s.len() + d,
        forall|q: int| 0 <= q < (g.st)(l) ==> #[trigger] s[q] == g.s[q],
        forall|q: int| (g.en)(l) <= q < g.s.len() ==> s[q + d] == #[trigger] g.s[q],
        forall|q: int| 0 <= q < its.len() ==> #[trigger] its[q] == s[(g.st)(l) + q],
        h.contains_key(x),
        h[x].leaf,
        -1 <= d <= 1,
    ensures
        leaf_ok(h_its(h, l, its), g_its(h, g, l, s, d), x),
        0 <= (g_its(h, g, l, s, d).st)(x) <= (g_its(h, g, l, s, d).en)(x) <= s.len(),
{
    let h2 = h_its(h, l, its);
    let g2 = g_its(h, g, l, s, d);
    assert(node_ok(h, g, x));
    assert(node_ok(h, g, l));
    if x != l {
        lemma_laminar(h, g, x, l);
        assert forall|o: int| 0 <= o < h2[x].its.len() implies g2.s[(g2.st)(x) + o] == #[trigger] h2[x].its[o] by {
            assert(g.s[(g.st)(x) + o] == h[x].its[o]);
        }
    }
}
/// the items of leaf `l` become `its`, one more, one less or as many as before
pub proof fn lemma_its<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: I, its: Seq<T>, s: Seq<T>, d: int)
    requires
        leaf_pre(h, g, l),
        its.len() == h[l].its.len() + d,
        s.len() == g.s.len() + d,
        forall|q: int| 0 <= q < (g.st)(l) ==> #[trigger] s[q] == g.s[q],
        forall|q: int| (g.en)(l) <= q < g.s.len() ==> s[q + d] == #[trigger] g.s[q],
        forall|q: int| 0 <= q < its.len() ==> #[trigger] its[q] == s[(g.st)(l) + q],
        -1 <= d <= 1,
    ensures
        shape(h_its(h, l, its), g_its(h, g, l, s, d)),
{
    let h2 = h_its(h, l, its);
    let g2 = g_its(h, g, l, s, d);
    assert(node_ok(h, g, g.root));
    assert(node_ok(h, g, l));
    if g.root != l { lemma_laminar(h, g, g.root, l); }
    assert forall|x: I| h2.contains_key(x) implies #[trigger] node_ok(h2, g2, x) by {
        assert(node_ok(h, g, x));
        if h[x].par is Some { lemma_up(h, g, x); }
        if h[x].leaf {
            lemma_its_leaf(h, g, l, its, s, d, x);
        } else {
            lemma_its_inner(h, g, l, its, s, d, x);
        }
    }
    assert(node_ok(h, g, l));
}
pub proof fn lemma_leaf_insert<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: I, o: int, item: T)
    requires
        leaf_pre(h, g, l),
        0 <= o <= h[l].its.len(),
    ensures
        shape(h_its(h, l, h[l].its.insert(o, item)), g_its(h, g, l, g.s.insert((g.st)(l) + o, item), 1)),
        (g_its(h, g, l, g.s.insert((g.st)(l) + o, item), 1).st)(l) == (g.st)(l),
{
    assert(node_ok(h, g, l));
    assert forall|q: int| 0 <= q < h[l].its.insert(o, item).len() implies #[trigger] h[l].its.insert(o, item)[q] == g.s.insert((g.st)(l) + o, item)[(g.st)(l) + q] by {
        if q < o { assert(g.s[(g.st)(l) + q] == h[l].its[q]); }
        if q > o { assert(g.s[(g.st)(l) + (q - 1)] == h[l].its[q - 1]); }
    }
    lemma_its(h, g, l, h[l].its.insert(o, item), g.s.insert((g.st)(l) + o, item), 1);
}
pub proof fn lemma_leaf_remove<I, T>(h: Heap<I, T>, g: Gh<I, T>, l: I, o: int)
    requires
        leaf_pre(h, g, l),
        0 <= o < h[l].its.len(),
    ensures
        shape(h_its(h, l, h[l].its.remove(o)), g_its(h, g, l, g.s.remove((g.st)(l) + o), -1)),
        (g_its(h, g, l, g.s.remove((g.st)(l) + o), -1).st)(l) == (g.st)(l),
{
    assert(node_ok(h, g, l));
    assert forall|q: int| 0 <= q < h[l].its.remove(o).len() implies #[trigger] h[l].its.remove(o)[q] == g.s.remove((g.st)(l) + o)[(g.st)(l) + q] by {
        if q < o { assert(g.s[(g.st)(l) + q] == h[l].its[q]); }
        if q >= o { assert(g.s[(g.st)(l) + (q + 1)] == h[l].its[q + 1]); }
    }
    lemma_its(h, g, l, h[l].its.remove(o), g.s.remove((g.st)(l) + o), -1);
}
/// another item in the same place
pub proof fn lemma_update<I, T>(h: Heap<I, T>, g: Gh<I, T>, a: (I, int), item: T)
    requires
        shape(h, g),
        a_item(h, a),
    ensures
        shape(h_its(h, a.0, h[a.0].its.update(a.1, item)), Gh { s: g.s.update(at_gp(h, g, a), item), ..g }),
{
    let h2 = h_its(h, a.0, h[a.0].its.update(a.1, item));
    let q = at_gp(h, g, a);
    let g2 = Gh { s: g.s.update(q, item), ..g };
    lemma_gp_bounds(h, g, a);
    assert forall|x: I| h2.contains_key(x) implies #[trigger] node_ok(h2, g2, x) by {
        assert(node_ok(h, g, x));
        if h[x].par is Some { lemma_up(h, g, x); }
        assert(up_ok(h2, g2, x));
        if h2[x].leaf {
            assert forall|o: int| 0 <= o < h2[x].its.len() implies g2.s[(g2.st)(x) + o] == #[trigger] h2[x].its[o] by {
                assert(g.s[(g.st)(x) + o] == h[x].its[o]);
                if at_gp(h, g, (x, o)) == q { lemma_inj(h, g, a, (x, o)); }
            }
            assert(leaf_ok(h2, g2, x));
        } else {
            assert forall|i: int| 0 <= i < h2[x].kids.len() implies #[trigger] kid_ok(h2, g2, x, i) by {
                lemma_kid(h, g, x, i);
            }
            assert forall|i: int| 0 <= i < h2[x].its.len() implies #[trigger] sep_ok(h2, g2, x, i) by {
                lemma_kid(h, g, x, i); lemma_kid(h, g, x, i + 1);
                if at_gp(h, g, (x, i)) == q { lemma_inj(h, g, a, (x, i)); }
            }
            lemma_kid(h, g, x, 0);
            lemma_kid(h, g, x, h[x].its.len() as int);
            assert(inner_ok(h2, g2, x));
        }
    }
}

// ---- the numbering is unique -------------------------------------------------------------------
proof fn lemma_same_size<I, T>(h: Heap<I, T>, g: Gh<I, T>, f: Gh<I, T>, x: I)
    requires
        shape(h, g),
        shape(h, f),
        h.contains_key(x),
    ensures
        (g.ht)(x) == (f.ht)(x),
        (g.en)(x) - (g.st)(x) == (f.en)(x) - (f.st)(x),
    decreases (g.ht)(x),
{
    assert(node_ok(h, g, x));
    assert(node_ok(h, f, x));
    if !h[x].leaf {
        lemma_same_kid(h, g, f, x, h[x].its.len() as int);
    }
}
proof fn lemma_same_kid<I, T>(h: Heap<I, T>, g: Gh<I, T>, f: Gh<I, T>, x: I, i: int)
    requires
        shape(h, g),
        shape(h, f),
        h.contains_key(x),
        !h[x].leaf,
        0 <= i < h[x].kids.len(),
    ensures
        (g.ht)(x) == (f.ht)(x),
        (g.st)(h[x].kids[i]) - (g.st)(x) == (f.st)(h[x].kids[i]) - (f.st)(x),
        (g.en)(h[x].kids[i]) - (g.st)(x) == (f.en)(h[x].kids[i]) - (f.st)(x),
    decreases (g.ht)(x), i + 1,
{
    assert(node_ok(h, g, x));
    assert(node_ok(h, f, x));
    lemma_kid(h, g, x, i);
    lemma_kid(h, f, x, i);
    lemma_same_size(h, g, f, h[x].kids[i]);
    if i > 0 {
        lemma_same_kid(h, g, f, x, i - 1);
        lemma_kid(h, g, x, i - 1);
        lemma_kid(h, f, x, i - 1);
    }
}
proof fn lemma_same_at<I, T>(h: Heap<I, T>, g: Gh<I, T>, f: Gh<I, T>, x: I)
    requires
        shape(h, g),
        shape(h, f),
        g.root == f.root,
        h.contains_key(x),
    ensures
        (g.ht)(x) == (f.ht)(x),
        (g.st)(x) == (f.st)(x),
        (g.en)(x) == (f.en)(x),
        h[x].par is Some ==> (g.ix)(x) == (f.ix)(x),
    decreases (g.ht)(g.root) - (g.ht)(x),
{
    lemma_same_size(h, g, f, x);
    assert(node_ok(h, g, x));
    assert(node_ok(h, f, x));
    if h[x].par is Some {
        lemma_up(h, g, x);
        lemma_up(h, f, x);
        let p = h[x].par->0;
        lemma_same_at(h, g, f, p);
        lemma_same_kid(h, g, f, p, (g.ix)(x));
        lemma_kid(h, f, p, (g.ix)(x));
    }
}
pub open spec fn same_gh<I, T>(h: Heap<I, T>, g: Gh<I, T>, f: Gh<I, T>) -> bool {
    &&& g.root == f.root
    &&& g.s == f.s
    &&& forall|x: I| h.contains_key(x) ==> #[trigger] same_at(h, g, f, x)
}
pub open spec fn same_at<I, T>(h: Heap<I, T>, g: Gh<I, T>, f: Gh<I, T>, x: I) -> bool {
    &&& (g.ht)(x) == (f.ht)(x)
    &&& (g.st)(x) == (f.st)(x)
    &&& (g.en)(x) == (f.en)(x)
    &&& h[x].par is Some ==> (g.ix)(x) == (f.ix)(x)
}
pub proof fn lemma_unique<I, T>(h: Heap<I, T>, g: Gh<I, T>, f: Gh<I, T>)
    requires
        shape(h, g),
        shape(h, f),
    ensures
        g.root == f.root,
        same_gh(h, g, f),
        forall|a: (I, int)| a_ok(h, a) ==> #[trigger] at_gp(h, g, a) == #[trigger] at_gp(h, f, a),
{
    assert(node_ok(h, g, g.root));
    assert(node_ok(h, f, g.root));
    assert forall|x: I| h.contains_key(x) implies #[trigger] same_at(h, g, f, x) by {
        lemma_same_at(h, g, f, x);
    }
    assert(same_at(h, g, f, g.root));
    assert forall|a: (I, int)| a_ok(h, a) implies #[trigger] at_gp(h, g, a) == #[trigger] at_gp(h, f, a) by {
        assert(same_at(h, g, f, a.0));
        assert(node_ok(h, g, a.0));
        if !h[a.0].leaf && a.1 >= 0 {
            lemma_kid(h, g, a.0, a.1);
            assert(same_at(h, g, f, h[a.0].kids[a.1]));
        }
    }
    assert forall|q: int| 0 <= q < g.s.len() implies g.s[q] == f.s[q] by {
        let a = lemma_find(h, g, g.root, q);
        lemma_gp_bounds(h, g, a);
        lemma_gp_bounds(h, f, a);
    }
    assert(g.s =~= f.s);
}

// ---- trees -------------------------------------------------------------------------------------
pub open spec fn gh<I, T>(h: Heap<I, T>) -> Gh<I, T> {
    choose|g: Gh<I, T>| #[trigger] shape(h, g)
}
/// the nodes of the heap form one tree
pub open spec fn shaped<I, T>(h: Heap<I, T>) -> bool {
    exists|g: Gh<I, T>| shape(h, g)
}
/// same, under `root`
pub open spec fn is_tree<I, T>(h: Heap<I, T>, root: I) -> bool {
    gh(h).root == root && shape(h, gh(h))
}
pub proof fn lemma_tree<I, T>(h: Heap<I, T>, g: Gh<I, T>)
    requires
        shape(h, g),
    ensures
        is_tree(h, g.root),
        shaped(h),
        gh(h).s == g.s,
        same_gh(h, g, gh(h)),
        forall|a: (I, int)| a_ok(h, a) ==> #[trigger] at_gp(h, g, a) == #[trigger] at_gp(h, gh(h), a),
{
    lemma_unique(h, g, gh(h));
}
/// how many items a node may hold
pub open spec fn size_ok<I, T>(h: Heap<I, T>, root: I, x: I) -> bool {
    &&& h[x].its.len() <= max_items(h[x].leaf)
    &&& if x == root { h[x].its.len() >= 1 } else { h[x].its.len() >= min_items(h[x].leaf) }
}
pub open spec fn sizes<I, T>(h: Heap<I, T>, root: I) -> bool {
    forall|x: I| h.contains_key(x) ==> #[trigger] size_ok(h, root, x)
}
/// same, but node `e`
pub open spec fn sizes_but<I, T>(h: Heap<I, T>, root: I, e: I) -> bool {
    forall|x: I| h.contains_key(x) && x != e ==> #[trigger] size_ok(h, root, x)
}
