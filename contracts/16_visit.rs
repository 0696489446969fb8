// ---------------------------------------------------------------------------------------------
// Visits.  A callback is an object with a record of the identifiers it was called with.  It may be
// called once with every identifier of `dom`.
// ---------------------------------------------------------------------------------------------
pub trait Visit<I>: Sized {
    type K;
    /// something no call changes
    spec fn kept(&self) -> Self::K;
    spec fn trace(&self) -> Seq<I>;
    spec fn dom(&self) -> Set<I>;
    spec fn ok(&self) -> bool;
    fn visit(&mut self, id: I)
        requires
            old(self).ok(),
            old(self).dom().contains(id),
            !old(self).trace().contains(id),
        ensures
            final(self).ok(),
            final(self).dom() == old(self).dom(),
            final(self).kept() == old(self).kept(),
            final(self).trace() == old(self).trace().push(id),
    ;
}
/// the same with the node that the identifier denotes
pub trait VisitMut<T, S: Storage<T>>: Sized {
    spec fn trace(&self) -> Seq<S::Node>;
    spec fn dom(&self) -> Heap<S::Node, T>;
    spec fn ok(&self) -> bool;
    /// something no call changes
    spec fn kept(&self) -> bool;
    /// what the callback does to a node
    spec fn left(&self) -> spec_fn(AN<S::Node, T>, AN<S::Node, T>) -> bool;
    fn visit(&mut self, id: S::Node, node: &mut Node<T, S>)
        requires
            old(self).ok(),
            old(self).dom().contains_key(id),
            old(node).an() == old(self).dom()[id],
            !old(self).trace().contains(id),
        ensures
            final(self).ok(),
            final(self).dom() == old(self).dom(),
            final(self).left() == old(self).left(),
            final(self).kept() == old(self).kept(),
            final(self).trace() == old(self).trace().push(id),
            (old(self).left())(old(node).an(), final(node).an()),
    ;
}

/// the subtrees of the first `i` of the nodes `kids` of height `k - 1`, each followed by its root
pub open spec fn post_to<I, T>(h: Heap<I, T>, kids: Seq<I>, k: int, i: int) -> Seq<I>
    decreases k, i,
{
    if k <= 0 || i <= 0 {
        Seq::empty()
    } else {
        (post_to(h, kids, k, i - 1) + post_to(h, h[kids[i - 1]].kids, k - 1, h[kids[i - 1]].kids.len() as int)).push(kids[i - 1])
    }
}
pub open spec fn hk<I, T>(h: Heap<I, T>, n: AN<I, T>) -> int {
    if n.kids.len() == 0 { 0 } else { (gh(h).ht)(n.kids[0]) + 1 }
}
/// everything below a node, children first
pub open spec fn below<I, T>(h: Heap<I, T>, n: AN<I, T>) -> Seq<I> { post_to(h, n.kids, hk(h, n), n.kids.len() as int) }
/// the whole tree, children first
pub open spec fn visits<I, T>(h: Heap<I, T>, root: Option<I>) -> Seq<I> {
    match root { Some(r) => below(h, h[r]).push(r), None => Seq::empty() }
}
pub open spec fn has<I, T>(h: Heap<I, T>, n: AN<I, T>) -> bool { exists|x: I| h.contains_key(x) && #[trigger] h[x] == n }
/// every child of an element comes before it
pub open spec fn kids_first<I, T>(h: Heap<I, T>, s: Seq<I>) -> bool {
    forall|m: int, i: int| 0 <= m < s.len() && 0 <= i < h[s[m]].kids.len() ==> s.take(m).contains(#[trigger] h[#[trigger] s[m]].kids[i])
}
pub open spec fn fresh<I>(tr: Seq<I>, s: Seq<I>) -> bool { forall|y: I| #[trigger] s.contains(y) ==> !tr.contains(y) }

proof fn lemma_kids_first_app<I, T>(h: Heap<I, T>, s: Seq<I>, t: Seq<I>)
    requires
        kids_first(h, s),
        kids_first(h, t),
    ensures
        kids_first(h, s + t),
{
    let u = s + t;
    assert forall|m: int, i: int| 0 <= m < u.len() && 0 <= i < h[u[m]].kids.len() implies u.take(m).contains(#[trigger] h[#[trigger] u[m]].kids[i]) by {
        let c = h[u[m]].kids[i];
        if m < s.len() {
            assert(s[m] == u[m]);
            assert(s.take(m).contains(h[s[m]].kids[i]));
            let j = choose|j: int| 0 <= j < m && s.take(m)[j] == c;
            assert(u.take(m)[j] == c);
        } else {
            let n = m - s.len();
            assert(t[n] == u[m]);
            assert(t.take(n).contains(h[t[n]].kids[i]));
            let j = choose|j: int| 0 <= j < n && t.take(n)[j] == c;
            assert(u.take(m)[s.len() + j] == c);
        }
    }
}
proof fn lemma_kids_first_push<I, T>(h: Heap<I, T>, s: Seq<I>, x: I)
    requires
        kids_first(h, s),
        forall|i: int| 0 <= i < h[x].kids.len() ==> s.contains(#[trigger] h[x].kids[i]),
    ensures
        kids_first(h, s.push(x)),
{
    let u = s.push(x);
    assert forall|m: int, i: int| 0 <= m < u.len() && 0 <= i < h[u[m]].kids.len() implies u.take(m).contains(#[trigger] h[#[trigger] u[m]].kids[i]) by {
        if m < s.len() {
            assert(s[m] == u[m]);
            assert(u.take(m) =~= s.take(m));
            assert(s.take(m).contains(h[s[m]].kids[i]));
        } else {
            assert(u.take(m) =~= s);
        }
    }
}
proof fn lemma_join<I>(s1: Seq<I>, s2: Seq<I>, c: I)
    requires
        s1.no_duplicates(),
        s2.no_duplicates(),
        forall|y: I| #[trigger] s1.contains(y) ==> !s2.contains(y) && y != c,
        forall|y: I| #[trigger] s2.contains(y) ==> y != c,
    ensures
        (s1 + s2).push(c).no_duplicates(),
        forall|y: I| #[trigger] (s1 + s2).push(c).contains(y) <==> s1.contains(y) || s2.contains(y) || y == c,
{
    let s = (s1 + s2).push(c);
    let n = s1.len() as int;
    let m = n + s2.len();
    assert forall|y: I| #[trigger] s.contains(y) <==> s1.contains(y) || s2.contains(y) || y == c by {
        if s.contains(y) {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == y;
            if j < n { assert(s1[j] == y); } else if j < m { assert(s2[j - n] == y); }
        }
        if s1.contains(y) { let j = choose|j: int| 0 <= j < n && s1[j] == y; assert(s[j] == y); }
        if s2.contains(y) { let j = choose|j: int| 0 <= j < s2.len() && s2[j] == y; assert(s[n + j] == y); }
        assert(s[m] == c);
    }
    assert forall|a: int, b: int| 0 <= a < b < s.len() implies s[a] != s[b] by {
        if a < n { assert(s1.contains(s1[a])); } else if a < m { assert(s2.contains(s2[a - n])); }
        if n <= b && b < m { assert(s2.contains(s2[b - n])); }
        if b < n { assert(s1[a] != s1[b]); }
        if n <= a && b < m { assert(s2[a - n] != s2[b - n]); }
    }
}
pub proof fn lemma_post<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, i: int)
    requires
        shape(h, g),
        h.contains_key(x),
        0 <= i <= h[x].kids.len(),
    ensures
        ({
            let s = post_to(h, h[x].kids, (g.ht)(x), i);
            &&& s.no_duplicates()
            &&& kids_first(h, s)
            &&& forall|j: int| 0 <= j < i ==> s.contains(#[trigger] h[x].kids[j])
            &&& forall|y: I| #[trigger] s.contains(y) ==> h.contains_key(y) && (g.ht)(y) < (g.ht)(x) && (g.st)(x) <= (g.st)(y) <= (g.en)(y) && i > 0 && (g.en)(y) <= (g.en)(h[x].kids[i - 1])
        }),
    decreases (g.ht)(x), i,
{
    assert(node_ok(h, g, x));
    let s = post_to(h, h[x].kids, (g.ht)(x), i);
    if i > 0 {
        let c = h[x].kids[i - 1];
        lemma_kid(h, g, x, i - 1);
        assert(node_ok(h, g, c));
        let k = (g.ht)(x);
        let s1 = post_to(h, h[x].kids, k, i - 1);
        let s2 = post_to(h, h[c].kids, k - 1, h[c].kids.len() as int);
        assert(s =~= (s1 + s2).push(c));
        lemma_post(h, g, x, i - 1);
        lemma_post(h, g, c, h[c].kids.len() as int);
        if i > 1 { lemma_mono(h, g, x, i - 2, i - 1); lemma_kid(h, g, x, i - 2); }
        if h[c].kids.len() > 0 { lemma_kid(h, g, c, h[c].kids.len() - 1); }
        let u = s1 + s2;
        assert forall|y: I| s1.contains(y) implies !s2.contains(y) && y != c by {}
        assert forall|y: I| s2.contains(y) implies y != c by {}
        lemma_join(s1, s2, c);
        assert forall|y: I| #[trigger] s.contains(y) implies s1.contains(y) || s2.contains(y) || y == c by {}
        lemma_kids_first_app(h, s1, s2);
        assert forall|j: int| 0 <= j < h[c].kids.len() implies u.contains(#[trigger] h[c].kids[j]) by {
            assert(s2.contains(h[c].kids[j]));
            let l = choose|l: int| 0 <= l < s2.len() && s2[l] == h[c].kids[j];
            assert(u[s1.len() + l] == h[c].kids[j]);
        }
        lemma_kids_first_push(h, u, c);
        assert forall|j: int| 0 <= j < i implies s.contains(#[trigger] h[x].kids[j]) by {
            if j < i - 1 {
                assert(s1.contains(h[x].kids[j]));
                let l = choose|l: int| 0 <= l < s1.len() && s1[l] == h[x].kids[j];
                assert(s[l] == h[x].kids[j]);
            } else {
                assert(s[s.len() - 1] == c);
            }
        }
    }
}
/// the height read off the first child is the height
pub proof fn lemma_hk<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I)
    requires
        shaped(h),
        g == gh(h),
        h.contains_key(x),
    ensures
        shape(h, g),
        node_ok(h, g, x),
        hk(h, h[x]) == (g.ht)(x),
{
    assert(shape(h, gh(h)));
    assert(node_ok(h, g, x));
    if !h[x].leaf { lemma_kid(h, g, x, 0); }
}
proof fn lemma_all<I, T>(h: Heap<I, T>, g: Gh<I, T>, s: Seq<I>, y: I)
    requires
        shape(h, g),
        kids_first(h, s),
        s.contains(g.root),
        h.contains_key(y),
    ensures
        s.contains(y),
    decreases (g.ht)(g.root) - (g.ht)(y),
{
    assert(node_ok(h, g, y));
    if y != g.root {
        lemma_up(h, g, y);
        let p = h[y].par->0;
        assert(kid_ok(h, g, p, (g.ix)(y)));
        lemma_all(h, g, s, p);
        let m = choose|m: int| 0 <= m < s.len() && s[m] == p;
        assert(s.take(m).contains(h[s[m]].kids[(g.ix)(y)]));
        let j = choose|j: int| 0 <= j < m && s.take(m)[j] == y;
        assert(s[j] == y);
    }
}
/// each node exactly once, children first
pub open spec fn visit_ok<I, T>(h: Heap<I, T>, s: Seq<I>) -> bool {
    &&& s.no_duplicates()
    &&& kids_first(h, s)
    &&& forall|y: I| #[trigger] s.contains(y) <==> h.contains_key(y)
}
pub proof fn lemma_visits<I, T>(h: Heap<I, T>, root: Option<I>)
    requires
        wf(h, root),
    ensures
        visit_ok(h, visits(h, root)),
{
    lemma_wf(h, root);
    if root is Some {
        let g = gh(h);
        let r = root->0;
        lemma_hk(h, g, r);
        lemma_post(h, g, r, h[r].kids.len() as int);
        let b = below(h, h[r]);
        let s = visits(h, root);
        assert(s[s.len() - 1] == r);
        lemma_kids_first_push(h, b, r);
        assert forall|y: I| #[trigger] s.contains(y) implies h.contains_key(y) by {
            let j = choose|j: int| 0 <= j < s.len() && s[j] == y;
            if j < b.len() { assert(b[j] == y); assert(b.contains(y)); }
        }
        assert forall|y: I| h.contains_key(y) implies #[trigger] s.contains(y) by { lemma_all(h, g, s, y); }
        assert forall|j: int, l: int| 0 <= j < s.len() && 0 <= l < s.len() && j != l implies s[j] != s[l] by {
            if j < b.len() { assert(b.contains(b[j])); assert(s[j] == b[j]); }
            if l < b.len() { assert(b.contains(b[l])); assert(s[l] == b[l]); }
        }
    }
}

/// one child more
pub proof fn lemma_visit_step<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, i: int, t0: Seq<I>, t: Seq<I>, dom: Set<I>)
    requires
        shape(h, g),
        g == gh(h),
        h.contains_key(x),
        0 < i <= h[x].kids.len(),
        hk(h, h[x]) == (g.ht)(x),
        t == t0 + post_to(h, h[x].kids, (g.ht)(x), i - 1),
        fresh(t0, below(h, h[x])),
        forall|y: I| #[trigger] below(h, h[x]).contains(y) ==> dom.contains(y),
    ensures
        ({
            let c = h[x].kids[i - 1];
            let sub = below(h, h[c]);
            &&& has(h, h[c])
            &&& hk(h, h[c]) == (g.ht)(c)
            &&& fresh(t, sub)
            &&& forall|y: I| #[trigger] sub.contains(y) ==> dom.contains(y)
            &&& dom.contains(c)
            &&& !t.contains(c)
            &&& !(t + sub).contains(c)
            &&& (t + sub).push(c) =~= t0 + post_to(h, h[x].kids, (g.ht)(x), i)
        }),
{
    let n = h[x].kids.len() as int;
    let c = h[x].kids[i - 1];
    assert(node_ok(h, g, x));
    lemma_kid(h, g, x, i - 1);
    lemma_hk(h, g, c);
    let sub = below(h, h[c]);
    let a = post_to(h, h[x].kids, (g.ht)(x), i - 1);
    let b = post_to(h, h[x].kids, (g.ht)(x), i);
    assert(b =~= (a + sub).push(c));
    lemma_post(h, g, x, i);
    lemma_prefix(h, h[x].kids, (g.ht)(x), i, n);
    let all = below(h, h[x]);
    assert forall|y: I| #[trigger] sub.contains(y) implies dom.contains(y) && !t.contains(y) by {
        let j = choose|j: int| 0 <= j < sub.len() && sub[j] == y;
        let m = a.len() + j;
        assert(b[m] == y);
        assert(all[m] == y);
        assert(all.contains(y));
        if t.contains(y) {
            let l = choose|l: int| 0 <= l < t.len() && t[l] == y;
            if l < t0.len() { assert(t0[l] == y); assert(t0.contains(y)); } else { assert(b[l - t0.len()] == y); }
        }
    }
    assert(b[b.len() - 1] == c);
    assert(all[b.len() - 1] == c);
    assert(all.contains(c));
    let u = t + sub;
    if u.contains(c) {
        let l = choose|l: int| 0 <= l < u.len() && u[l] == c;
        if l < t0.len() { assert(t0[l] == c); assert(t0.contains(c)); } else { assert(b[l - t0.len()] == c); }
    }
    if t.contains(c) {
        let l = choose|l: int| 0 <= l < t.len() && t[l] == c;
        assert(u[l] == c);
    }
}
proof fn lemma_prefix<I, T>(h: Heap<I, T>, kids: Seq<I>, k: int, i: int, n: int)
    requires
        0 <= i <= n,
    ensures
        post_to(h, kids, k, i).len() <= post_to(h, kids, k, n).len(),
        forall|j: int| 0 <= j < post_to(h, kids, k, i).len() ==> #[trigger] post_to(h, kids, k, n)[j] == post_to(h, kids, k, i)[j],
    decreases n - i,
{
    if i < n { lemma_prefix(h, kids, k, i, n - 1); }
}
/// the root comes last
pub proof fn lemma_visit_root<I, T>(h: Heap<I, T>, r: I, t0: Seq<I>)
    requires
        wf(h, Some(r)),
        forall|y: I| #[trigger] h.contains_key(y) ==> !t0.contains(y),
    ensures
        has(h, h[r]),
        fresh(t0, below(h, h[r])),
        forall|y: I| #[trigger] below(h, h[r]).contains(y) ==> h.contains_key(y) && y != r,
        !(t0 + below(h, h[r])).contains(r),
{
    lemma_wf(h, Some(r));
    lemma_visits(h, Some(r));
    let b = below(h, h[r]);
    let s = visits(h, Some(r));
    assert forall|y: I| #[trigger] b.contains(y) implies h.contains_key(y) && y != r by {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == y;
        assert(s[j] == y);
        assert(s.contains(y));
        assert(s[s.len() - 1] == r);
    }
    let u = t0 + b;
    if u.contains(r) {
        let l = choose|l: int| 0 <= l < u.len() && u[l] == r;
        if l < t0.len() { assert(t0[l] == r); assert(t0.contains(r)); } else { assert(b[l - t0.len()] == r); assert(b.contains(r)); }
    }
}
/// only the nodes of `s` changed, as `p` says, and none was added or removed
pub open spec fn changed_in<I, T>(h: Heap<I, T>, h1: Heap<I, T>, s: Seq<I>, p: spec_fn(AN<I, T>, AN<I, T>) -> bool) -> bool {
    &&& forall|y: I| h.contains_key(y) && s.contains(y) ==> p(h[y], #[trigger] h1[y])
    &&& forall|y: I| #[trigger] h1.contains_key(y) <==> h.contains_key(y)
    &&& forall|y: I| h.contains_key(y) && !s.contains(y) ==> #[trigger] h1[y] == h[y]
}
pub proof fn lemma_visit_mut<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, i: int, m0: Heap<I, T>, m1: Heap<I, T>, p: spec_fn(AN<I, T>, AN<I, T>) -> bool)
    requires
        shape(h, g),
        g == gh(h),
        h.contains_key(x),
        0 < i <= h[x].kids.len(),
        hk(h, h[x]) == (g.ht)(x),
        changed_in(m0, m1, post_to(h, h[x].kids, (g.ht)(x), i - 1), p),
        forall|y: I| #[trigger] below(h, h[x]).contains(y) ==> m0.contains_key(y) && m0[y] == h[y],
    ensures
        ({
            let c = h[x].kids[i - 1];
            let sub = below(h, h[c]);
            &&& m1.contains_key(c)
            &&& m1[c] == h[c]
            &&& !sub.contains(c)
            &&& forall|y: I| #[trigger] sub.contains(y) ==> m1.contains_key(y) && m1[y] == h[y]
        }),
{
    let n = h[x].kids.len() as int;
    let c = h[x].kids[i - 1];
    assert(node_ok(h, g, x));
    lemma_kid(h, g, x, i - 1);
    lemma_hk(h, g, c);
    let sub = below(h, h[c]);
    let a = post_to(h, h[x].kids, (g.ht)(x), i - 1);
    let b = post_to(h, h[x].kids, (g.ht)(x), i);
    let all = below(h, h[x]);
    assert(b =~= (a + sub).push(c));
    lemma_post(h, g, x, i);
    lemma_prefix(h, h[x].kids, (g.ht)(x), i, n);
    assert forall|y: I| #[trigger] b.contains(y) implies all.contains(y) by {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == y;
        assert(all[j] == y);
    }
    assert(b[b.len() - 1] == c);
    if sub.contains(c) {
        let j = choose|j: int| 0 <= j < sub.len() && sub[j] == c;
        assert(b[a.len() + j] == c);
    }
    if a.contains(c) {
        let j = choose|j: int| 0 <= j < a.len() && a[j] == c;
        assert(b[j] == c);
    }
    assert forall|y: I| #[trigger] sub.contains(y) implies m1.contains_key(y) && m1[y] == h[y] by {
        let j = choose|j: int| 0 <= j < sub.len() && sub[j] == y;
        assert(b[a.len() + j] == y);
        if a.contains(y) {
            let l = choose|l: int| 0 <= l < a.len() && a[l] == y;
            assert(b[l] == y);
        }
        assert(b.contains(y));
        assert(all.contains(y));
        assert(m0.contains_key(y));
        assert(m1[y] == m0[y]);
    }
    assert(b.contains(c));
    assert(m1[c] == m0[c]);
}
pub proof fn lemma_visit_changed<I, T>(h: Heap<I, T>, g: Gh<I, T>, x: I, i: int, m0: Heap<I, T>, m1: Heap<I, T>, m2: Heap<I, T>, p: spec_fn(AN<I, T>, AN<I, T>) -> bool)
    requires
        shape(h, g),
        g == gh(h),
        h.contains_key(x),
        0 < i <= h[x].kids.len(),
        hk(h, h[x]) == (g.ht)(x),
        changed_in(m0, m1, post_to(h, h[x].kids, (g.ht)(x), i - 1), p),
        forall|y: I| #[trigger] m2.contains_key(y) <==> m1.contains_key(y),
        forall|y: I| m1.contains_key(y) && !below(h, h[h[x].kids[i - 1]]).contains(y) && y != h[x].kids[i - 1] ==> #[trigger] m2[y] == m1[y],
        forall|y: I| #[trigger] below(h, h[x]).contains(y) ==> m0.contains_key(y) && m0[y] == h[y],
        forall|y: I| #[trigger] below(h, h[h[x].kids[i - 1]]).contains(y) ==> p(h[y], m2[y]),
        p(h[h[x].kids[i - 1]], m2[h[x].kids[i - 1]]),
    ensures
        changed_in(m0, m2, post_to(h, h[x].kids, (g.ht)(x), i), p),
{
    let c = h[x].kids[i - 1];
    assert(node_ok(h, g, x));
    lemma_kid(h, g, x, i - 1);
    lemma_hk(h, g, c);
    let sub = below(h, h[c]);
    let a = post_to(h, h[x].kids, (g.ht)(x), i - 1);
    let b = post_to(h, h[x].kids, (g.ht)(x), i);
    assert(b =~= (a + sub).push(c));
    assert forall|y: I| m0.contains_key(y) && !b.contains(y) implies #[trigger] m2[y] == m0[y] by {
        assert(m1.contains_key(y));
        if a.contains(y) { let l = choose|l: int| 0 <= l < a.len() && a[l] == y; assert(b[l] == y); }
        if sub.contains(y) { let l = choose|l: int| 0 <= l < sub.len() && sub[l] == y; assert(b[a.len() + l] == y); }
        if y == c { assert(b[b.len() - 1] == y); }
        assert(m1[y] == m0[y]);
    }
    lemma_post(h, g, x, i);
    lemma_prefix(h, h[x].kids, (g.ht)(x), i, h[x].kids.len() as int);
    let all = below(h, h[x]);
    assert forall|y: I| m0.contains_key(y) && b.contains(y) implies p(m0[y], #[trigger] m2[y]) by {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == y;
        assert(all[j] == y);
        assert(all.contains(y));
        if j < a.len() {
            assert(a[j] == y);
            assert(a.contains(y));
            if sub.contains(y) { let l = choose|l: int| 0 <= l < sub.len() && sub[l] == y; assert(b[a.len() + l] == y); }
            assert(b[b.len() - 1] == c);
            assert(m1.contains_key(y));
            assert(m2[y] == m1[y]);
            assert(p(m0[y], m1[y]));
        } else if j < b.len() - 1 {
            assert(sub[j - a.len()] == y);
            assert(sub.contains(y));
        }
    }
}
pub proof fn lemma_visit_put<I, T>(h: Heap<I, T>, sub: Seq<I>, c: I, m1: Heap<I, T>, m2: Heap<I, T>)
    requires
        !sub.contains(c),
        m2 =~= m1.insert(c, m2[c]),
        forall|y: I| #[trigger] sub.contains(y) ==> m1.contains_key(y) && m1[y] == h[y],
    ensures
        forall|y: I| #[trigger] sub.contains(y) ==> m2.contains_key(y) && m2[y] == h[y],
{
}
