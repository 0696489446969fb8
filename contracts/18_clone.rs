// ---------------------------------------------------------------------------------------------
// Copies of subtrees.  `m` sends every node of the copy to the node it was copied from.
// ---------------------------------------------------------------------------------------------
pub open spec fn its_cloned<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> cloned(#[trigger] a[i], b[i])
}
pub open spec fn kid_copied<I, T>(h: Heap<I, T>, n: Heap<I, T>, m: Map<I, I>, y: I, i: int) -> bool {
    let k = n[y].kids[i];
    &&& m.contains_key(k)
    &&& m[k] == h[m[y]].kids[i]
    &&& n[k].par == Some(y)
}
/// `y` is a copy of a node of `h`, and its children are copies of the children of that node
pub open spec fn copy_at<I, T: Clone>(h: Heap<I, T>, n: Heap<I, T>, m: Map<I, I>, y: I) -> bool {
    &&& h.contains_key(m[y])
    &&& n.contains_key(y)
    &&& n[y].leaf == h[m[y]].leaf
    &&& its_cloned(h[m[y]].its, n[y].its)
    &&& n[y].kids.len() == h[m[y]].kids.len()
    &&& forall|i: int| 0 <= i < n[y].kids.len() ==> #[trigger] kid_copied(h, n, m, y, i)
}
/// the parent of `y` is a copy of the parent
pub open spec fn copy_up<I, T>(h: Heap<I, T>, g: Gh<I, T>, n: Heap<I, T>, m: Map<I, I>, y: I) -> bool {
    &&& n[y].par is Some
    &&& m.contains_key(n[y].par->0)
    &&& !n[n[y].par->0].leaf
    &&& 0 <= (g.ix)(m[y]) < n[n[y].par->0].kids.len()
    &&& n[n[y].par->0].kids[(g.ix)(m[y])] == y
}
/// the copies come from distinct nodes of height at most `k` within the positions from `lo` to `hi`
pub open spec fn copy_from<I, T>(g: Gh<I, T>, m: Map<I, I>, k: int, lo: int, hi: int) -> bool {
    &&& forall|y: I, z: I| #[trigger] m.contains_key(y) && #[trigger] m.contains_key(z) && m[y] == m[z] ==> y == z
    &&& forall|y: I| #[trigger] m.contains_key(y) ==> (g.ht)(m[y]) <= k && lo <= (g.st)(m[y]) <= (g.en)(m[y]) <= hi
}
/// `n1` is `n0` with copies, under the roots `rs`, of the subtrees under `xs`, in nodes not in `n0`
pub open spec fn copied<I, T: Clone>(h: Heap<I, T>, g: Gh<I, T>, n0: Heap<I, T>, n1: Heap<I, T>, m: Map<I, I>, rs: Seq<I>, xs: Seq<I>) -> bool {
    &&& rs.len() == xs.len()
    &&& forall|i: int| 0 <= i < rs.len() ==> m.contains_key(#[trigger] rs[i]) && m[rs[i]] == xs[i]
    &&& forall|y: I| #[trigger] m.contains_key(y) ==> !n0.contains_key(y) && copy_at(h, n1, m, y)
    &&& forall|y: I| #[trigger] m.contains_key(y) ==> rs.contains(y) || copy_up(h, g, n1, m, y)
    &&& forall|y: I| #[trigger] n1.contains_key(y) <==> n0.contains_key(y) || m.contains_key(y)
    &&& forall|y: I| n0.contains_key(y) ==> #[trigger] n1[y] == n0[y]
}
/// the copy `r` of the subtree under `x`
pub open spec fn subtree_copied<I, T: Clone>(h: Heap<I, T>, n0: Heap<I, T>, n1: Heap<I, T>, m: Map<I, I>, r: I, x: I) -> bool {
    &&& copied(h, gh(h), n0, n1, m, seq![r], seq![x])
    &&& copy_from(gh(h), m, (gh(h).ht)(x), (gh(h).st)(x), (gh(h).en)(x))
}
/// copies of the first `i` children of `x`
pub open spec fn kids_copied<I, T: Clone>(h: Heap<I, T>, n0: Heap<I, T>, n1: Heap<I, T>, m: Map<I, I>, rs: Seq<I>, x: I, i: int) -> bool {
    &&& 0 < i <= h[x].kids.len()
    &&& copied(h, gh(h), n0, n1, m, rs, h[x].kids.take(i))
    &&& copy_from(gh(h), m, (gh(h).ht)(x) - 1, (gh(h).st)(x), (gh(h).en)(h[x].kids[i - 1]))
}
pub proof fn lemma_copy_first<I, T: Clone>(h: Heap<I, T>, n0: Heap<I, T>, n1: Heap<I, T>, m: Map<I, I>, r: I, x: I)
    requires
        shaped(h),
        h.contains_key(x),
        !h[x].leaf,
        subtree_copied(h, n0, n1, m, r, h[x].kids[0]),
    ensures
        kids_copied(h, n0, n1, m, seq![r], x, 1),
{
    assert(node_ok(h, gh(h), x));
    lemma_kid(h, gh(h), x, 0);
    assert(h[x].kids.take(1) =~= seq![h[x].kids[0]]);
}
pub proof fn lemma_copy_next<I, T: Clone>(h: Heap<I, T>, n0: Heap<I, T>, n1: Heap<I, T>, m1: Map<I, I>, rs: Seq<I>, x: I, i: int, n2: Heap<I, T>, m2: Map<I, I>, r: I)
    requires
        shaped(h),
        h.contains_key(x),
        !h[x].leaf,
        0 < i < h[x].kids.len(),
        kids_copied(h, n0, n1, m1, rs, x, i),
        subtree_copied(h, n1, n2, m2, r, h[x].kids[i]),
    ensures
        kids_copied(h, n0, n2, m1.union_prefer_right(m2), rs.push(r), x, i + 1),
{
    let g = gh(h);
    let m = m1.union_prefer_right(m2);
    let xs = h[x].kids.take(i);
    let xs2 = h[x].kids.take(i + 1);
    let rs2 = rs.push(r);
    assert(xs2 =~= xs.push(h[x].kids[i]));
    lemma_kid(h, g, x, i);
    lemma_kid(h, g, x, i - 1);
    assert(seq![r][0] == r);
    assert forall|y: I| #[trigger] m1.contains_key(y) implies m.contains_key(y) && m[y] == m1[y] && !m2.contains_key(y) && n1.contains_key(y) && n2[y] == n1[y] by {}
    assert forall|y: I| #[trigger] m2.contains_key(y) implies m.contains_key(y) && m[y] == m2[y] by {}
    assert forall|y: I| #[trigger] m.contains_key(y) implies m1.contains_key(y) || m2.contains_key(y) by {}
    assert forall|j: int| 0 <= j < rs2.len() implies m.contains_key(#[trigger] rs2[j]) && m[rs2[j]] == xs2[j] by {
        if j < rs.len() { assert(rs2[j] == rs[j]); assert(m1.contains_key(rs[j])); } else { assert(m2.contains_key(seq![r][0])); }
    }
    assert forall|y: I| #[trigger] m.contains_key(y) implies !n0.contains_key(y) && copy_at(h, n2, m, y) by {
        if m1.contains_key(y) {
            assert(copy_at(h, n1, m1, y));
            assert forall|j: int| 0 <= j < n2[y].kids.len() implies #[trigger] kid_copied(h, n2, m, y, j) by { assert(kid_copied(h, n1, m1, y, j)); }
        } else {
            assert(copy_at(h, n2, m2, y));
            assert forall|j: int| 0 <= j < n2[y].kids.len() implies #[trigger] kid_copied(h, n2, m, y, j) by { assert(kid_copied(h, n2, m2, y, j)); }
            if n0.contains_key(y) { assert(n1.contains_key(y)); }
        }
    }
    assert forall|y: I| #[trigger] m.contains_key(y) implies rs2.contains(y) || copy_up(h, g, n2, m, y) by {
        if m1.contains_key(y) {
            if rs.contains(y) {
                let j = choose|j: int| 0 <= j < rs.len() && rs[j] == y;
                assert(rs2[j] == y);
            } else {
                assert(copy_up(h, g, n1, m1, y));
                assert(m1.contains_key(n1[y].par->0));
            }
        } else {
            if seq![r].contains(y) { assert(rs2[rs.len() as int] == y); } else { assert(copy_up(h, g, n2, m2, y)); assert(m2.contains_key(n2[y].par->0)); }
        }
    }
    assert forall|y: I| n0.contains_key(y) implies #[trigger] n2[y] == n0[y] by { assert(n1.contains_key(y)); assert(n1[y] == n0[y]); }
    assert forall|y: I, z: I| #[trigger] m.contains_key(y) && #[trigger] m.contains_key(z) && m[y] == m[z] implies y == z by {
        if m1.contains_key(y) && m1.contains_key(z) {} else if m2.contains_key(y) && m2.contains_key(z) {}
        else if m1.contains_key(y) { assert(m2.contains_key(z)); assert(sep_ok(h, g, x, i - 1)); } else { assert(m2.contains_key(y)); assert(m1.contains_key(z)); assert(sep_ok(h, g, x, i - 1)); }
    }
}
pub proof fn lemma_kids_of_none<T, S: Storage<T>>(first: S::Node)
    ensures
        kids_of::<T, S>(first, Seq::empty()) == seq![first],
{
    assert(kids_of::<T, S>(first, Seq::empty()) =~= seq![first]);
}
pub proof fn lemma_its_none<T: Clone, S: Storage<T>>(its: Seq<T>)
    ensures
        its_cloned(its.take(0), its_of::<T, S>(Seq::empty())),
{
}
pub proof fn lemma_kids_of_push<T, S: Storage<T>>(first: S::Node, bs: Seq<Branch<T, S>>, b: Branch<T, S>)
    ensures
        kids_of::<T, S>(first, bs.push(b)) == kids_of::<T, S>(first, bs).push(b.child),
        kids_of::<T, S>(first, bs).len() == bs.len() + 1,
{
    assert(kids_of::<T, S>(first, bs.push(b)) =~= kids_of::<T, S>(first, bs).push(b.child));
}
pub proof fn lemma_its_push<T: Clone, S: Storage<T>>(its: Seq<T>, bs: Seq<Branch<T, S>>, b: Branch<T, S>)
    requires
        bs.len() < its.len(),
        its_cloned(its.take(bs.len() as int), its_of::<T, S>(bs)),
        cloned(its[bs.len() as int], b.item),
    ensures
        its_cloned(its.take(bs.len() as int + 1), its_of::<T, S>(bs.push(b))),
        bs.len() + 1 == its.len() ==> its_cloned(its, its_of::<T, S>(bs.push(b))),
{
    let q = its.take(bs.len() as int);
    let s = its.take(bs.len() as int + 1);
    let c = its_of::<T, S>(bs.push(b));
    assert forall|i: int| 0 <= i < s.len() implies cloned(#[trigger] s[i], c[i]) by {
        if i < bs.len() { assert(cloned(q[i], its_of::<T, S>(bs)[i])); }
    }
    if bs.len() + 1 == its.len() { assert(s =~= its); }
}
pub proof fn lemma_copy_roots<I, T: Clone>(h: Heap<I, T>, n0: Heap<I, T>, n1: Heap<I, T>, m: Map<I, I>, rs: Seq<I>, x: I, i: int)
    requires
        kids_copied(h, n0, n1, m, rs, x, i),
    ensures
        forall|c: I| #[trigger] rs.contains(c) ==> n1.contains_key(c),
{
    assert forall|c: I| #[trigger] rs.contains(c) implies n1.contains_key(c) by {
        let j = choose|j: int| 0 <= j < rs.len() && rs[j] == c;
        assert(m.contains_key(rs[j]));
    }
}
/// `b` is item and child `i` of `x`
pub open spec fn branch_of<T, S: Storage<T>>(h: Heap<S::Node, T>, x: S::Node, b: Branch<T, S>, i: int) -> bool {
    &&& 0 <= i < h[x].its.len()
    &&& b.item == h[x].its[i]
    &&& b.child == h[x].kids[i + 1]
    &&& copy_kid(h, x, i + 1)
}
pub proof fn lemma_branches_of<T, S: Storage<T>>(h: Heap<S::Node, T>, x: S::Node, n: InternalNode<T, S>)
    requires
        wfh(h),
        h.contains_key(x),
        h[x] == n.an(),
    ensures
        h[x].its.len() == n.other_children@.len(),
        h[x].kids[0] == n.first_child,
        forall|j: int| 0 <= j < n.other_children@.len() ==> branch_of::<T, S>(h, x, #[trigger] n.other_children@[j], j),
{
    lemma_copy_kids(h, x);
    assert forall|j: int| 0 <= j < n.other_children@.len() implies branch_of::<T, S>(h, x, #[trigger] n.other_children@[j], j) by { assert(copy_kid(h, x, j + 1)); }
}
pub open spec fn copy_kid<I, T>(h: Heap<I, T>, x: I, i: int) -> bool {
    h.contains_key(h[x].kids[i]) && 0 <= (gh(h).ht)(h[x].kids[i]) < (gh(h).ht)(x)
}
pub proof fn lemma_copy_kids<I, T>(h: Heap<I, T>, x: I)
    requires
        wfh(h),
        h.contains_key(x),
    ensures
        shaped(h),
        h[x].its.len() < M || h[x].leaf,
        if h[x].leaf { h[x].kids.len() == 0 } else { h[x].kids.len() == h[x].its.len() + 1 },
        forall|i: int| 0 <= i < h[x].kids.len() ==> #[trigger] copy_kid(h, x, i),
        !h[x].leaf ==> copy_kid(h, x, 0),
        (gh(h).ht)(x) >= 0,
{
    let g = gh(h);
    assert(node_ok(h, g, x));
    assert(size_ok(h, g.root, x));
    assert forall|i: int| 0 <= i < h[x].kids.len() implies #[trigger] copy_kid(h, x, i) by { lemma_kid(h, g, x, i); assert(node_ok(h, g, h[x].kids[i])); }
}
pub proof fn lemma_adopt_none<I, T>(h: Heap<I, T>, rs: Seq<I>, r: I)
    requires
        rs.len() == 0,
    ensures
        h_adopt(h, rs, r) == h,
{
    assert(h_adopt(h, rs, r) =~= h);
}
/// the parent is put on top
pub proof fn lemma_copy_top<I, T: Clone>(h: Heap<I, T>, n0: Heap<I, T>, n1: Heap<I, T>, m: Map<I, I>, rs: Seq<I>, x: I, n2: Heap<I, T>, r: I, n: AN<I, T>)
    requires
        shaped(h),
        h.contains_key(x),
        !h[x].leaf,
        kids_copied(h, n0, n1, m, rs, x, h[x].kids.len() as int),
        !n1.contains_key(r),
        !n.leaf,
        n.kids == rs,
        its_cloned(h[x].its, n.its),
        n2 =~= h_adopt(n1, rs, r).insert(r, n),
    ensures
        subtree_copied(h, n0, n2, m.insert(r, x), r, x),
{
    let g = gh(h);
    let q = m.insert(r, x);
    let k = h[x].kids.len() as int;
    assert(node_ok(h, g, x));
    lemma_kid(h, g, x, k - 1);
    assert(h[x].kids.take(k) =~= h[x].kids);
    assert(!m.contains_key(r));
    assert forall|y: I| #[trigger] m.contains_key(y) implies q.contains_key(y) && q[y] == m[y] && n1.contains_key(y) && y != r by {}
    assert forall|y: I| #[trigger] rs.contains(y) implies m.contains_key(y) by {
        let j = choose|j: int| 0 <= j < rs.len() && rs[j] == y;
        assert(m.contains_key(rs[j]));
    }
    assert forall|j: int| 0 <= j < 1 implies q.contains_key(#[trigger] seq![r][j]) && q[seq![r][j]] == seq![x][j] by {}
    assert forall|y: I| #[trigger] q.contains_key(y) implies !n0.contains_key(y) && copy_at(h, n2, q, y) by {
        if y == r {
            if n0.contains_key(r) { assert(n1.contains_key(r)); }
            assert forall|j: int| 0 <= j < n2[y].kids.len() implies #[trigger] kid_copied(h, n2, q, y, j) by {
                assert(m.contains_key(rs[j]));
                assert(rs.contains(rs[j]));
            }
        } else {
            assert(m.contains_key(y));
            assert(copy_at(h, n1, m, y));
            assert forall|j: int| 0 <= j < n2[y].kids.len() implies #[trigger] kid_copied(h, n2, q, y, j) by {
                assert(kid_copied(h, n1, m, y, j));
                let c = n1[y].kids[j];
                if rs.contains(c) {
                    // a child of a copied child is not itself one of them: it lies lower
                    let a = choose|a: int| 0 <= a < rs.len() && rs[a] == c;
                    lemma_kid(h, g, x, a);
                    assert(node_ok(h, g, m[y]));
                    lemma_kid(h, g, m[y], j);
                    assert((g.ht)(m[y]) <= (g.ht)(x) - 1);
                    assert(false);
                }
            }
        }
    }
    assert forall|y: I| #[trigger] q.contains_key(y) implies seq![r].contains(y) || copy_up(h, g, n2, q, y) by {
        if y == r {
            assert(seq![r][0] == r);
        } else {
            assert(m.contains_key(y));
            if rs.contains(y) {
                let a = choose|a: int| 0 <= a < rs.len() && rs[a] == y;
                lemma_kid(h, g, x, a);
                assert(m[rs[a]] == h[x].kids[a]);
            } else {
                assert(copy_up(h, g, n1, m, y));
                assert(m.contains_key(n1[y].par->0));
            }
        }
    }
    assert forall|y: I| n0.contains_key(y) implies #[trigger] n2[y] == n0[y] by {
        assert(n1.contains_key(y));
        assert(n1[y] == n0[y]);
        if rs.contains(y) { assert(m.contains_key(y)); }
    }
}
pub proof fn lemma_copy_leaf<I, T: Clone>(h: Heap<I, T>, n0: Heap<I, T>, x: I, n2: Heap<I, T>, r: I, n: AN<I, T>)
    requires
        shaped(h),
        h.contains_key(x),
        h[x].leaf,
        !n0.contains_key(r),
        n.leaf,
        n.kids.len() == 0,
        its_cloned(h[x].its, n.its),
        n2 =~= n0.insert(r, n),
    ensures
        subtree_copied(h, n0, n2, Map::empty().insert(r, x), r, x),
{
    let g = gh(h);
    let q = Map::empty().insert(r, x);
    assert(node_ok(h, g, x));
    assert(seq![r][0] == r);
}
/// every node of the tree was copied
proof fn lemma_copy_onto<I, T: Clone>(h: Heap<I, T>, n: Heap<I, T>, m: Map<I, I>, r: I, x: I) -> (y: I)
    requires
        shaped(h),
        subtree_copied(h, Map::empty(), n, m, r, gh(h).root),
        h.contains_key(x),
    ensures
        m.contains_key(y),
        m[y] == x,
    decreases (gh(h).ht)(gh(h).root) - (gh(h).ht)(x),
{
    let g = gh(h);
    assert(node_ok(h, g, x));
    if h[x].par is None {
        assert(m.contains_key(seq![r][0]));
        r
    } else {
        lemma_up(h, g, x);
        let z = lemma_copy_onto(h, n, m, r, h[x].par->0);
        assert(copy_at(h, n, m, z));
        assert(kid_copied(h, n, m, z, (g.ix)(x)));
        n[z].kids[(g.ix)(x)]
    }
}
/// positions in the copy
pub open spec fn g_copy<I, T>(h: Heap<I, T>, n: Heap<I, T>, m: Map<I, I>, r: I) -> Gh<I, T> {
    let g = gh(h);
    Gh {
        root: r,
        ht: |y: I| (g.ht)(m[y]),
        st: |y: I| (g.st)(m[y]),
        en: |y: I| (g.en)(m[y]),
        ix: |y: I| (g.ix)(m[y]),
        s: Seq::new(g.s.len(), |q: int| { let a = copy_addr(h, m, q); n[a.0].its[a.1] }),
    }
}
pub open spec fn copy_pos<I, T>(h: Heap<I, T>, m: Map<I, I>, q: int, a: (I, int)) -> bool {
    m.contains_key(a.0) && a_item(h, (m[a.0], a.1)) && at_gp(h, gh(h), (m[a.0], a.1)) == q
}
/// where the copy of item `q` is
pub open spec fn copy_addr<I, T>(h: Heap<I, T>, m: Map<I, I>, q: int) -> (I, int) {
    choose|a: (I, int)| #[trigger] copy_pos(h, m, q, a)
}
proof fn lemma_copy_item<I, T: Clone>(h: Heap<I, T>, n: Heap<I, T>, m: Map<I, I>, r: I, y: I, o: int)
    requires
        shaped(h),
        subtree_copied(h, Map::empty(), n, m, r, gh(h).root),
        m.contains_key(y),
        0 <= o < n[y].its.len(),
    ensures
        ({
            let q = at_gp(h, gh(h), (m[y], o));
            &&& 0 <= q < gh(h).s.len()
            &&& g_copy(h, n, m, r).s[q] == n[y].its[o]
        }),
{
    let g = gh(h);
    assert(copy_at(h, n, m, y));
    let q = at_gp(h, g, (m[y], o));
    lemma_gp_bounds(h, g, (m[y], o));
    assert(copy_pos(h, m, q, (y, o)));
    let a = copy_addr(h, m, q);
    assert(copy_pos(h, m, q, a));
    lemma_inj(h, g, (m[a.0], a.1), (m[y], o));
}
proof fn lemma_copy_node<I, T: Clone>(h: Heap<I, T>, n: Heap<I, T>, m: Map<I, I>, r: I, y: I)
    requires
        shaped(h),
        subtree_copied(h, Map::empty(), n, m, r, gh(h).root),
        n[r].par is None,
        m.contains_key(y),
    ensures
        node_ok(n, g_copy(h, n, m, r), y),
{
    let g = gh(h);
    let f = g_copy(h, n, m, r);
    let x = m[y];
    assert(copy_at(h, n, m, y));
    assert(node_ok(h, g, x));
    assert(node_ok(h, g, g.root));
    assert(m.contains_key(seq![r][0]));
    assert(m[r] == g.root);
    if n[y].leaf {
        assert forall|o: int| 0 <= o < n[y].its.len() implies f.s[(f.st)(y) + o] == #[trigger] n[y].its[o] by { lemma_copy_item(h, n, m, r, y, o); }
        assert(leaf_ok(n, f, y));
    } else {
        let z = n[y].its.len() as int;
        assert forall|i: int| 0 <= i < n[y].kids.len() implies #[trigger] kid_ok(n, f, y, i) by {
            assert(kid_copied(h, n, m, y, i));
            assert(copy_at(h, n, m, n[y].kids[i]));
            lemma_kid(h, g, x, i);
        }
        assert forall|i: int| 0 <= i < n[y].its.len() implies #[trigger] sep_ok(n, f, y, i) by {
            assert(kid_copied(h, n, m, y, i));
            assert(kid_copied(h, n, m, y, i + 1));
            lemma_kid(h, g, x, i);
            lemma_copy_item(h, n, m, r, y, i);
        }
        assert(kid_copied(h, n, m, y, 0));
        assert(kid_copied(h, n, m, y, z));
        assert(inner_ok(n, f, y));
    }
    if y == r {
    } else {
        if seq![r].contains(y) { assert(seq![r][0] == y); }
        assert(copy_up(h, g, n, m, y));
        assert(copy_at(h, n, m, n[y].par->0));
    }
    assert(up_ok(n, f, y));
}
/// the copy of the whole tree is a B-tree with a clone of every item, in order
pub proof fn lemma_copy_tree<I, T: Clone>(h: Heap<I, T>, n: Heap<I, T>, m: Map<I, I>, r: I)
    requires
        wf(h, Some(gh(h).root)),
        subtree_copied(h, Map::empty(), n, m, r, gh(h).root),
        n[r].par is None,
    ensures
        wf(n, Some(r)),
        its_cloned(tv(h, Some(gh(h).root)), tv(n, Some(r))),
{
    let g = gh(h);
    let f = g_copy(h, n, m, r);
    assert(m.contains_key(seq![r][0]));
    assert(m[r] == g.root);
    assert(copy_at(h, n, m, r));
    assert forall|y: I| n.contains_key(y) implies #[trigger] node_ok(n, f, y) by { lemma_copy_node(h, n, m, r, y); }
    assert(shape(n, f));
    lemma_tree(n, f);
    assert forall|y: I| n.contains_key(y) implies #[trigger] size_ok(n, r, y) by {
        assert(copy_at(h, n, m, y));
        assert(size_ok(h, g.root, m[y]));
        if m[y] == m[r] { assert(y == r); }
    }
    assert(node_ok(h, g, g.root));
    assert forall|q: int| 0 <= q < g.s.len() implies cloned(#[trigger] g.s[q], f.s[q]) by {
        let a = lemma_find(h, g, g.root, q);
        let y = lemma_copy_onto(h, n, m, r, a.0);
        assert(copy_at(h, n, m, y));
        lemma_copy_item(h, n, m, r, y, a.1);
        lemma_gp_bounds(h, g, a);
        assert(cloned(h[m[y]].its[a.1], n[y].its[a.1]));
    }
}
