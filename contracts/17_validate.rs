// ---------------------------------------------------------------------------------------------
// The validator: what it must accept, and what it may let pass.
// ---------------------------------------------------------------------------------------------
/// The validator's comparison may be called with any two items.
pub open spec fn vcmp_ok<T, F: Fn(&T, &T) -> Ordering>(f: F) -> bool {
    forall|a: &T, b: &T| #[trigger] f.requires((a, b))
}
/// `a` is before `b`: surely (`s`), whichever way and however often they are compared; or because the
/// comparison can say so.
pub open spec fn lt<T, F: Fn(&T, &T) -> Ordering>(f: F, s: bool, a: T, b: T) -> bool {
    if s {
        &&& forall|p: Ordering| #[trigger] f.ensures((&a, &b), p) ==> p == Ordering::Less
        &&& forall|p: Ordering| #[trigger] f.ensures((&b, &a), p) ==> p == Ordering::Greater
    } else {
        cmps(f, a, &b, Ordering::Less) || cmps(f, b, &a, Ordering::Greater)
    }
}
pub open spec fn olt<T, F: Fn(&T, &T) -> Ordering>(f: F, s: bool, a: Option<T>, b: Option<T>) -> bool {
    match (a, b) { (Some(x), Some(y)) => lt(f, s, x, y), _ => true }
}
pub open spec fn adj<T, F: Fn(&T, &T) -> Ordering>(f: F, s: bool, its: Seq<T>, i: int) -> bool {
    lt(f, s, its[i], its[i + 1])
}
/// the items of a node are in order and between its separators
pub open spec fn in_order<T, F: Fn(&T, &T) -> Ordering>(f: F, s: bool, its: Seq<T>, min: Option<T>, max: Option<T>) -> bool {
    &&& forall|i: int| 0 <= i < its.len() - 1 ==> #[trigger] adj(f, s, its, i)
    &&& its.len() > 0 ==> olt(f, s, min, Some(its[0])) && olt(f, s, Some(its[its.len() - 1]), max)
}
/// how many items a node may hold (an empty leaf is let pass as the root)
pub open spec fn fits<I, T>(n: AN<I, T>, inner: bool) -> bool {
    &&& !over(n)
    &&& if inner { !under(n) } else { n.leaf || n.its.len() > 0 }
}
/// the tree under `id`, of height `d`, is well-formed
pub open spec fn valid<I, T, F: Fn(&T, &T) -> Ordering>(h: Heap<I, T>, f: F, id: I, par: Option<I>, min: Option<T>, max: Option<T>, d: nat) -> bool
    decreases d,
{
    let n = h[id];
    &&& h.contains_key(id)
    &&& n.par == par
    &&& fits(n, par is Some)
    &&& in_order(f, false, n.its, min, max)
    &&& if d == 0 { n.kids.len() == 0 } else {
        &&& n.kids.len() > 0
        &&& forall|i: int| 0 <= i < n.kids.len() ==> valid(h, f, #[trigger] n.kids[i], Some(id),
            if i > 0 { sopt(n.its, i - 1) } else { min }, if i < n.its.len() { sopt(n.its, i) } else { max }, (d - 1) as nat)
    }
}
pub open spec fn kid_valid<I, T, F: Fn(&T, &T) -> Ordering>(h: Heap<I, T>, f: F, id: I, min: Option<T>, max: Option<T>, d: nat, i: int) -> bool
{
    let n = h[id];
    valid(h, f, n.kids[i], Some(id), if i > 0 { sopt(n.its, i - 1) } else { min }, if i < n.its.len() { sopt(n.its, i) } else { max }, d)
}
pub proof fn lemma_valid<I, T, F: Fn(&T, &T) -> Ordering>(h: Heap<I, T>, f: F, id: I, par: Option<I>, min: Option<T>, max: Option<T>, c: Option<usize>, d: nat)
    requires
        h.contains_key(id),
        h[id].par == par,
        fits(h[id], par is Some),
        in_order(f, false, h[id].its, min, max),
        c is None ==> d == 0 && h[id].kids.len() == 0,
        c is Some ==> d == c->0 + 1 && h[id].kids.len() > 0,
        c is Some ==> forall|j: int| 0 <= j < h[id].kids.len() ==> #[trigger] kid_valid(h, f, id, min, max, c->0 as nat, j),
    ensures
        valid(h, f, id, par, min, max, d),
{
    if d > 0 {
        assert((d - 1) as nat == c->0 as nat);
        assert forall|i: int| 0 <= i < h[id].kids.len() implies valid(h, f, #[trigger] h[id].kids[i], Some(id),
            if i > 0 { sopt(h[id].its, i - 1) } else { min }, if i < h[id].its.len() { sopt(h[id].its, i) } else { max }, (d - 1) as nat) by {
            assert(kid_valid(h, f, id, min, max, c->0 as nat, i));
        }
    }
}
pub proof fn lemma_kid_valid<I, T, F: Fn(&T, &T) -> Ordering>(h: Heap<I, T>, f: F, id: I, min: Option<T>, max: Option<T>, d: nat, i: int, k: I, a: Option<T>, b: Option<T>)
    requires
        0 <= i < h[id].kids.len(),
        k == h[id].kids[i],
        a == (if i > 0 { sopt(h[id].its, i - 1) } else { min }),
        b == (if i < h[id].its.len() { sopt(h[id].its, i) } else { max }),
        valid(h, f, k, Some(id), a, b, d),
    ensures
        kid_valid(h, f, id, min, max, d, i),
{
}
pub proof fn lemma_fits<I, T>(n: AN<I, T>, inner: bool)
    requires fits(n, inner),
    ensures n.leaf || n.its.len() > 0,
{
}
/// identifiers of children denote nodes
pub open spec fn closed<I, T>(h: Heap<I, T>) -> bool {
    forall|x: I, i: int| h.contains_key(x) && 0 <= i < h[x].kids.len() ==> h.contains_key(#[trigger] h[x].kids[i])
}
pub proof fn lemma_closed<I, T>(h: Heap<I, T>, x: I, i: int)
    requires closed(h), h.contains_key(x), 0 <= i < h[x].kids.len(),
    ensures h.contains_key(h[x].kids[i]),
{
}
/// the items are strictly in order
pub open spec fn sorted<T, F: Fn(&T, &T) -> Ordering>(f: F, s: Seq<T>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> lt(f, true, #[trigger] s[i], #[trigger] s[j])
}

/// a comparison behind a reference is the same comparison
pub proof fn lemma_order_ref<T, F: Fn(&T, &T) -> Ordering>(f: &F, s: bool, its: Seq<T>, min: Option<T>, max: Option<T>)
    ensures
        in_order::<T, &F>(f, s, its, min, max) == in_order::<T, F>(*f, s, its, min, max),
{
    assert forall|i: int| 0 <= i < its.len() - 1 implies #[trigger] adj::<T, F>(*f, s, its, i) == adj::<T, &F>(f, s, its, i) by {}
    if in_order::<T, &F>(f, s, its, min, max) {
        assert forall|i: int| 0 <= i < its.len() - 1 implies #[trigger] adj::<T, F>(*f, s, its, i) by { assert(adj::<T, &F>(f, s, its, i)); }
    }
    if in_order::<T, F>(*f, s, its, min, max) {
        assert forall|i: int| 0 <= i < its.len() - 1 implies #[trigger] adj::<T, &F>(f, s, its, i) by { assert(adj::<T, F>(*f, s, its, i)); }
    }
}

/// a node of a B-tree in order passes
pub proof fn lemma_accept<I, T, F: Fn(&T, &T) -> Ordering>(h: Heap<I, T>, f: F, x: I)
    requires
        wfh(h),
        sorted(f, items(h)),
        h.contains_key(x),
    ensures
        ({
            let g = gh(h);
            &&& fits(h[x], h[x].par is Some)
            &&& in_order(f, true, h[x].its, sopt(g.s, (g.st)(x) - 1), sopt(g.s, (g.en)(x)))
            &&& h[x].par is Some ==> h[x].its.len() > 0
            &&& h[x].par is None ==> sopt(g.s, (g.st)(x) - 1) is None && sopt(g.s, (g.en)(x)) is None
            &&& h[x].leaf ==> h[x].kids.len() == 0
            &&& !h[x].leaf ==> h[x].kids.len() == h[x].its.len() + 1
        }),
{
    let g = gh(h);
    let n = h[x];
    assert(node_ok(h, g, x));
    assert(size_ok(h, g.root, x));
    assert forall|i: int| 0 <= i < n.its.len() - 1 implies #[trigger] adj(f, true, n.its, i) by {
        lemma_gp_bounds(h, g, (x, i));
        lemma_gp_bounds(h, g, (x, i + 1));
        if !n.leaf { lemma_mono(h, g, x, i, i + 1); lemma_kid(h, g, x, i + 1); }
    }
    if n.its.len() > 0 {
        lemma_gp_bounds(h, g, (x, 0));
        lemma_gp_bounds(h, g, (x, n.its.len() - 1));
    }
}
/// what is left and right of a child
pub proof fn lemma_kid_seps<I, T>(h: Heap<I, T>, x: I, i: int)
    requires
        wfh(h),
        h.contains_key(x),
        0 <= i < h[x].kids.len(),
    ensures
        ({
            let g = gh(h);
            let k = h[x].kids[i];
            &&& h.contains_key(k) && h[k].par == Some(x) && (g.ht)(k) == (g.ht)(x) - 1 && (g.ht)(k) >= 0
            &&& sopt(g.s, (g.st)(k) - 1) == if i > 0 { sopt(h[x].its, i - 1) } else { sopt(g.s, (g.st)(x) - 1) }
            &&& sopt(g.s, (g.en)(k)) == if i < h[x].its.len() { sopt(h[x].its, i) } else { sopt(g.s, (g.en)(x)) }
        }),
{
    let g = gh(h);
    assert(node_ok(h, g, x));
    lemma_kid(h, g, x, i);
    let k = h[x].kids[i];
    if i > 0 { lemma_kid(h, g, x, i - 1); lemma_gp_bounds(h, g, (x, i - 1)); }
    if i < h[x].its.len() { lemma_gp_bounds(h, g, (x, i)); }
}

// ---- height ------------------------------------------------------------------------------------
pub open spec fn pow(b: int, k: int) -> int
    decreases k,
{
    if k <= 0 { 1 } else { b * pow(b, k - 1) }
}
proof fn lemma_pow(b: int, k: int)
    requires b >= 2, k >= 0,
    ensures pow(b, k) >= k + 1,
    decreases k,
{
    if k > 0 {
        lemma_pow(b, k - 1);
        assert(b * pow(b, k - 1) >= 2 * pow(b, k - 1)) by (nonlinear_arith) requires b >= 2, pow(b, k - 1) >= 0;
    }
}
/// the first `i + 1` children of a node hold at least so many items
proof fn lemma_heavy_kids<I, T>(h: Heap<I, T>, x: I, i: int, p: int)
    requires
        wfh(h),
        h.contains_key(x),
        0 <= i < h[x].kids.len(),
        forall|j: int| 0 <= j < h[x].kids.len() ==> (gh(h).en)(#[trigger] h[x].kids[j]) - (gh(h).st)(h[x].kids[j]) + 1 >= p,
    ensures
        (gh(h).en)(h[x].kids[i]) - (gh(h).st)(x) + 1 >= (i + 1) * p,
    decreases i,
{
    let g = gh(h);
    assert(node_ok(h, g, x));
    lemma_kid(h, g, x, i);
    if i > 0 {
        lemma_heavy_kids(h, x, i - 1, p);
        lemma_kid(h, g, x, i - 1);
        assert((i + 1) * p == i * p + p) by (nonlinear_arith);
    } else {
        assert((i + 1) * p == p) by (nonlinear_arith) requires i == 0;
    }
}
/// A subtree of height `k` holds at least `b^(k+1) - 1` items, the whole tree `2 b^k - 1`, where `b` is half the order:
/// the height is logarithmic in the number of items.
pub proof fn lemma_height<I, T>(h: Heap<I, T>, x: I)
    requires
        wfh(h),
        h.contains_key(x),
    ensures
        (gh(h).ht)(x) >= 0,
        h[x].par is Some ==> (gh(h).en)(x) - (gh(h).st)(x) + 1 >= pow(M as int / 2, (gh(h).ht)(x) + 1),
        h[x].par is None ==> items(h).len() + 1 >= 2 * pow(M as int / 2, (gh(h).ht)(x)),
        (gh(h).ht)(x) <= items(h).len(),
    decreases (gh(h).ht)(x),
{
    let g = gh(h);
    let b = M as int / 2;
    let n = h[x];
    assert(node_ok(h, g, x));
    assert(size_ok(h, g.root, x));
    let k = (g.ht)(x);
    if n.leaf {
        assert(pow(b, 1) == b * pow(b, 0));
        assert(pow(b, 0) == 1);
        assert(b * 1 == b);
    } else {
        assert(kid_ok(h, g, x, 0));
        assert(node_ok(h, g, n.kids[0]));
        let p = pow(b, k);
        assert forall|j: int| 0 <= j < n.kids.len() implies (g.en)(#[trigger] n.kids[j]) - (g.st)(n.kids[j]) + 1 >= p by {
            assert(kid_ok(h, g, x, j));
            assert(node_ok(h, g, n.kids[j]));
            lemma_height(h, n.kids[j]);
        }
        let l = n.kids.len() as int;
        lemma_heavy_kids(h, x, l - 1, p);
        lemma_pow(b, k);
        if h[x].par is Some {
            assert(l * p >= b * p) by (nonlinear_arith) requires l >= b, p >= 0;
            assert(pow(b, k + 1) == b * pow(b, k));
        } else {
            assert(l * p >= 2 * p) by (nonlinear_arith) requires l >= 2, p >= 0;
        }
    }
    lemma_pow(b, k);
    lemma_pow(b, k + 1);
}
