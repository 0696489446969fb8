// ---------------------------------------------------------------------------------------------
// Trees in terms of the program's own types.
// ---------------------------------------------------------------------------------------------
pub open spec fn aa<I>(a: Address<I>) -> (I, int) { (a.node, a.offset.v()) }
/// position of an address: of the item there, or of the gap behind the last item of the node
pub open spec fn at<I, T>(h: Heap<I, T>, a: Address<I>) -> int { at_gp(h, gh(h), aa(a)) }
/// the items of a tree, in order
pub open spec fn tv<I, T>(h: Heap<I, T>, root: Option<I>) -> Seq<T> {
    match root { Some(r) => gh(h).s, None => Seq::empty() }
}
/// a B-tree: one tree holding all nodes, every node within its size bounds
pub open spec fn wf<I, T>(h: Heap<I, T>, root: Option<I>) -> bool {
    match root {
        Some(r) => is_tree(h, r) && sizes(h, r),
        None => h.dom() =~= Set::empty(),
    }
}
/// `id` becomes the parent of `kids`
pub open spec fn h_adopt<I, T>(h: Heap<I, T>, kids: Seq<I>, id: I) -> Heap<I, T> {
    Map::new(h.dom(), |x: I| if kids.contains(x) { AN { par: Some(id), ..h[x] } } else { h[x] })
}
pub open spec fn h_rot_left<I, T>(h: Heap<I, T>, p: I, k: int) -> Heap<I, T> {
    let l = h[p].kids[k];
    h_split(h_merge(h, p, k), l, h[l].its.len() as int + 1, p, k, h[p].kids[k + 1])
}
pub open spec fn a_rot_left<I, T>(h: Heap<I, T>, p: I, k: int, a: (I, int)) -> (I, int) {
    let l = h[p].kids[k];
    a_split(h_merge(h, p, k), l, h[l].its.len() as int + 1, p, k, h[p].kids[k + 1], a_merge(h, p, k, a))
}
/// `k` is the left one of the two children
pub open spec fn h_rot_right<I, T>(h: Heap<I, T>, p: I, k: int) -> Heap<I, T> {
    let l = h[p].kids[k];
    h_split(h_merge(h, p, k), l, h[l].its.len() as int - 1, p, k, h[p].kids[k + 1])
}
pub open spec fn a_rot_right<I, T>(h: Heap<I, T>, p: I, k: int, a: (I, int)) -> (I, int) {
    let l = h[p].kids[k];
    a_split(h_merge(h, p, k), l, h[l].its.len() as int - 1, p, k, h[p].kids[k + 1], a_merge(h, p, k, a))
}
/// where a rotation to the right moves an address
pub open spec fn a_rotr_code<I, T>(h: Heap<I, T>, p: I, k: int, a: (I, int)) -> (I, int) {
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    if a.0 == r { (r, a.1 + 1) } else if a.0 == l { if a.1 == h[l].its.len() - 1 { (p, k) } else { a } }
    else if a.0 == p && a.1 == k { (r, 0) } else { a }
}
pub proof fn lemma_a_rotr<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int, a: (I, int))
    requires
        merge_pre(h, g, p, k),
        h[h[p].kids[k]].its.len() > 0,
        a.0 == h[p].kids[k] ==> a.1 < h[h[p].kids[k]].its.len(),
        a.0 == h[p].kids[k + 1] ==> a.1 >= 0,
        a.1 <= h[a.0].its.len(),
    ensures
        a_rot_right(h, p, k, a) == a_rotr_code(h, p, k, a),
{
    lemma_merge_facts(h, g, p, k);
}
impl<'a, T, S: Storage<T>> Children<'a, T, S> {
    /// `Iterator::collect` into a node buffer is `FromIterator::from_iter`
    pub fn collect<const N: usize>(self) -> (r: Array<S::Node, N>)
        requires self.rest().len() <= N,
        ensures r.wf(), r@ == self.rest(),
    { Array::from_iter(self) }
    pub fn into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
}
impl<'a, T, S: Storage<T>> VIter for Children<'a, T, S> {
    type X = S::Node;
    open spec fn ok(&self) -> bool { true }
    open spec fn rest(&self) -> Seq<S::Node> { Children::rest(self) }
    fn next(&mut self) -> Option<S::Node> { Children::next(self) }
    fn into_iter(self) -> Self { self }
}
pub proof fn lemma_adopt_one<I, T>(h: Heap<I, T>, kids: Seq<I>, n: int, l: I)
    requires
        0 <= n < kids.len(),
        h.contains_key(kids[n]),
    ensures
        ({
            let a = h_adopt(h, kids.subrange(0, n), l);
            a.insert(kids[n], AN { par: Some(l), ..a[kids[n]] }) =~= h_adopt(h, kids.subrange(0, n + 1), l)
        }),
{
    let a = h_adopt(h, kids.subrange(0, n), l);
    let k1 = kids.subrange(0, n + 1);
    assert(k1[n] == kids[n]);
    assert forall|x: I| k1.contains(x) <==> kids.subrange(0, n).contains(x) || x == kids[n] by {
        if k1.contains(x) {
            let j = choose|j: int| 0 <= j < k1.len() && k1[j] == x;
            if j < n { assert(kids.subrange(0, n)[j] == x); }
        }
        if kids.subrange(0, n).contains(x) {
            let j = choose|j: int| 0 <= j < n && kids.subrange(0, n)[j] == x;
            assert(k1[j] == x);
        }
    }
    assert(a.insert(kids[n], AN { par: Some(l), ..a[kids[n]] }) =~= h_adopt(h, k1, l));
}
/// what holds around two neighbouring children
pub proof fn lemma_merge_facts<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int)
    requires
        merge_pre(h, g, p, k),
    ensures
        h[p].kids.len() == h[p].its.len() + 1,
        ({
            let l = h[p].kids[k];
            let r = h[p].kids[k + 1];
            &&& h.contains_key(l) && h.contains_key(r)
            &&& l != r && l != p && r != p
            &&& h[l].leaf == h[r].leaf
            &&& h[r].leaf ==> h[r].kids.len() == 0
            &&& !h[l].leaf ==> h[l].kids.len() == h[l].its.len() + 1
            &&& forall|j: int| 0 <= j < h[r].kids.len() ==> h.contains_key(#[trigger] h[r].kids[j]) && h[r].kids[j] != r && h[r].kids[j] != l && h[r].kids[j] != p
            &&& h[p].par == Some(l) ==> false
        }),
{
    lemma_merge_pre(h, g, p, k);
    let r = h[p].kids[k + 1];
    assert forall|j: int| 0 <= j < h[r].kids.len() implies h.contains_key(#[trigger] h[r].kids[j]) && h[r].kids[j] != r && h[r].kids[j] != h[p].kids[k] && h[r].kids[j] != p by {
        lemma_kid(h, g, r, j);
    }
    if h[p].par is Some { lemma_up(h, g, p); }
}
pub proof fn lemma_merge_code<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int, h3: Heap<I, T>)
    requires
        merge_pre(h, g, p, k),
        ({
            let l = h[p].kids[k];
            let r = h[p].kids[k + 1];
            let h2 = h.insert(p, AN { its: h[p].its.remove(k), kids: h[p].kids.remove(k + 1), ..h[p] }).remove(r);
            h3 =~= h_adopt(h2, h[r].kids, l).insert(l, AN { its: h[l].its.push(h[p].its[k]) + h[r].its, kids: h[l].kids + h[r].kids, ..h[l] })
        }),
    ensures
        h3 =~= h_merge(h, p, k),
{
    lemma_merge_facts(h, g, p, k);
}

/// the heap after a rotation to the left, as the nodes change one by one
pub open spec fn h_rotl_code<I, T>(h: Heap<I, T>, p: I, k: int) -> Heap<I, T> {
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    let rl = h[r].its.len() as int;
    let h1 = h.insert(r, AN { its: h[r].its.subrange(1, rl), kids: if h[r].leaf { Seq::empty() } else { h[r].kids.subrange(1, rl + 1) }, ..h[r] })
        .insert(p, AN { its: h[p].its.update(k, h[r].its[0]), ..h[p] })
        .insert(l, AN { its: h[l].its.push(h[p].its[k]), kids: if h[l].leaf { Seq::empty() } else { h[l].kids.push(h[r].kids[0]) }, ..h[l] });
    if h[r].leaf { h1 } else { h1.insert(h[r].kids[0], AN { par: Some(l), ..h[h[r].kids[0]] }) }
}
pub proof fn lemma_rot_left_code<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int, h3: Heap<I, T>)
    requires
        merge_pre(h, g, p, k),
        h[h[p].kids[k + 1]].its.len() > 0,
        h3 =~= h_rotl_code(h, p, k),
    ensures
        h3 =~= h_rot_left(h, p, k),
{
    lemma_merge_facts(h, g, p, k);
    lemma_merge(h, g, p, k);
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    let hm = h_merge(h, p, k);
    let hr = h_rot_left(h, p, k);
    let m = h[l].its.len() as int + 1;
    let gm = g_merge(h, g, p, k);
    assert(hm[l].its.subrange(0, m) =~= h[l].its.push(h[p].its[k]));
    assert(hm[l].its.subrange(m + 1, hm[l].its.len() as int) =~= h[r].its.subrange(1, h[r].its.len() as int));
    assert(hm[l].its[m] == h[r].its[0]);
    assert(hm[p].its.insert(k, hm[l].its[m]) =~= h[p].its.update(k, h[r].its[0]));
    assert(hm[p].kids.insert(k + 1, r) =~= h[p].kids);
    lemma_merge_pre(h, g, p, k);
    if !h[l].leaf {
        assert(hm[l].kids.subrange(0, m + 1) =~= h[l].kids.push(h[r].kids[0]));
        assert(hm[l].kids.subrange(m + 1, hm[l].kids.len() as int) =~= h[r].kids.subrange(1, h[r].kids.len() as int));
    }
    assert forall|x: I| h3.contains_key(x) implies h3[x] == #[trigger] hr[x] by {
        if x != l && x != r && x != p {
            assert(node_ok(h, g, x));
            lemma_kids_of(h, g, r, x);
            if !h[l].leaf {
                lemma_moved(hm, gm, l, m, x);
                if h[x].par is Some { lemma_up(h, g, x); }
                lemma_kid(h, g, r, 0);
            }
        }
        assert(h3[x].its =~= hr[x].its);
        assert(h3[x].kids =~= hr[x].kids);
    }
}
pub open spec fn h_rotr_code<I, T>(h: Heap<I, T>, p: I, k: int) -> Heap<I, T> {
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    let n = h[l].its.len() as int;
    let h1 = h.insert(l, AN { its: h[l].its.subrange(0, n - 1), kids: if h[l].leaf { Seq::empty() } else { h[l].kids.subrange(0, n) }, ..h[l] })
        .insert(p, AN { its: h[p].its.update(k, h[l].its[n - 1]), ..h[p] })
        .insert(r, AN { its: seq![h[p].its[k]] + h[r].its, kids: if h[r].leaf { Seq::empty() } else { seq![h[l].kids[n]] + h[r].kids }, ..h[r] });
    if h[l].leaf { h1 } else { h1.insert(h[l].kids[n], AN { par: Some(r), ..h[h[l].kids[n]] }) }
}
proof fn lemma_rot_right_other<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int, x: I)
    requires
        merge_pre(h, g, p, k),
        h[h[p].kids[k]].its.len() > 0,
        h.contains_key(x),
        x != p && x != h[p].kids[k] && x != h[p].kids[k + 1],
    ensures
        h_rotr_code(h, p, k)[x] == h_rot_right(h, p, k)[x],
{
    lemma_merge_facts(h, g, p, k);
    lemma_merge(h, g, p, k);
    lemma_merge_pre(h, g, p, k);
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    let hm = h_merge(h, p, k);
    let gm = g_merge(h, g, p, k);
    let n = h[l].its.len() as int;
    assert(node_ok(h, g, x));
    lemma_kids_of(h, g, r, x);
    if !h[l].leaf {
        lemma_kid(h, g, l, n);
        assert(hm[l].kids.subrange(n, hm[l].kids.len() as int) =~= seq![h[l].kids[n]] + h[r].kids);
        lemma_moved(hm, gm, l, n - 1, x);
        if h[x].par is Some { lemma_up(h, g, x); }
    }
}
pub proof fn lemma_rot_right_code<I, T>(h: Heap<I, T>, g: Gh<I, T>, p: I, k: int, h3: Heap<I, T>)
    requires
        merge_pre(h, g, p, k),
        h[h[p].kids[k]].its.len() > 0,
        h3 =~= h_rotr_code(h, p, k),
    ensures
        h3 =~= h_rot_right(h, p, k),
{
    lemma_merge_facts(h, g, p, k);
    lemma_merge(h, g, p, k);
    let l = h[p].kids[k];
    let r = h[p].kids[k + 1];
    let hm = h_merge(h, p, k);
    let hr = h_rot_right(h, p, k);
    let n = h[l].its.len() as int;
    let m = n - 1;
    let gm = g_merge(h, g, p, k);
    assert(hm[l].its.subrange(0, m) =~= h[l].its.subrange(0, n - 1));
    assert(hm[l].its.subrange(m + 1, hm[l].its.len() as int) =~= seq![h[p].its[k]] + h[r].its);
    assert(hm[l].its[m] == h[l].its[n - 1]);
    assert(hm[p].its.insert(k, hm[l].its[m]) =~= h[p].its.update(k, h[l].its[n - 1]));
    assert(hm[p].kids.insert(k + 1, r) =~= h[p].kids);
    lemma_merge_pre(h, g, p, k);
    if !h[l].leaf {
        lemma_kid(h, g, l, n);
        assert(hm[l].kids.subrange(0, m + 1) =~= h[l].kids.subrange(0, n));
        assert(hm[l].kids.subrange(m + 1, hm[l].kids.len() as int) =~= seq![h[l].kids[n]] + h[r].kids);
    }
    let h4 = h_rotr_code(h, p, k);
    assert forall|x: I| h4.contains_key(x) implies h4[x] == #[trigger] hr[x] by {
        if x != l && x != r && x != p {
            lemma_rot_right_other(h, g, p, k, x);
        } else if x == l {
            assert(h4[l].its =~= hr[l].its);
            assert(h4[l].kids =~= hr[l].kids);
        } else if x == r {
            assert(h4[r].its =~= hr[r].its);
            assert(h4[r].kids =~= hr[r].kids);
        } else {
            assert(h4[p].its =~= hr[p].its);
            assert(h4[p].kids =~= hr[p].kids);
        }
    }
    assert(h4 =~= hr);
}
