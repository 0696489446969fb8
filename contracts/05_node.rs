pub use crate::node::{Address, Node, Offset, Balance, WouldUnderflow, LeafNode, InternalNode, Children, ChildrenWithSeparators};
pub use crate::node::internal::{Branch, InsertionError, RightBranch};
pub use crate::storage::Storage;
pub use crate::utils::array::Array;
pub use crate::M;

impl Offset {
    /// -1 is the offset before the first item.
    pub open spec fn v(self) -> int {
        if self.0 == usize::MAX { -1 } else { self.0 as int }
    }
}
pub open spec fn off(k: int) -> Offset {
    if k == -1 { Offset(usize::MAX) } else { Offset(k as usize) }
}

pub open spec fn its_of<T, S: Storage<T>>(b: Seq<Branch<T, S>>) -> Seq<T> {
    Seq::new(b.len(), |i: int| b[i].item)
}
pub open spec fn kids_of<T, S: Storage<T>>(first: S::Node, b: Seq<Branch<T, S>>) -> Seq<S::Node> {
    Seq::new(b.len() + 1, |i: int| if i == 0 { first } else { b[i - 1].child })
}

impl<T, S: Storage<T>> LeafNode<T, S> {
    pub open spec fn an(self) -> AN<S::Node, T> {
        AN { leaf: true, its: self.items@, kids: Seq::empty(), par: self.parent }
    }
}
impl<T, S: Storage<T>> InternalNode<T, S> {
    pub open spec fn its(self) -> Seq<T> {
        its_of::<T, S>(self.other_children@)
    }
    pub open spec fn an(self) -> AN<S::Node, T> {
        AN { leaf: false, its: its_of::<T, S>(self.other_children@), kids: kids_of::<T, S>(self.first_child, self.other_children@), par: self.parent }
    }
}
impl<T, S: Storage<T>> Node<T, S> {
    pub open spec fn an(self) -> AN<S::Node, T> {
        match self {
            Node::Leaf(l) => l.an(),
            Node::Internal(n) => n.an(),
        }
    }
}

/// Number of items above which a node is overfull, and below which it is underfull.
pub open spec fn max_items(leaf: bool) -> int { if leaf { M as int } else { M - 1 } }
pub open spec fn min_items(leaf: bool) -> int { M / 2 - 1 }
pub open spec fn cap(leaf: bool) -> int { if leaf { M + 1 } else { M as int } }

pub open spec fn over<I, T>(n: AN<I, T>) -> bool { n.its.len() > max_items(n.leaf) }
pub open spec fn under<I, T>(n: AN<I, T>) -> bool { n.its.len() < min_items(n.leaf) }

pub open spec fn bal<I, T>(n: AN<I, T>) -> Balance {
    if over(n) { Balance::Overflow } else if under(n) { Balance::Underflow(n.its.len() == 0) } else { Balance::Balanced }
}

/// What every node value satisfies by construction.
pub open spec fn an_ok<I, T>(n: AN<I, T>) -> bool {
    &&& n.its.len() <= cap(n.leaf)
    &&& n.leaf ==> n.kids.len() == 0
    &&& !n.leaf ==> n.kids.len() == n.its.len() + 1
}
pub broadcast proof fn lemma_an_ok<T, S: Storage<T>>(n: Node<T, S>)
    ensures
        an_ok(#[trigger] n.an()),
{
    match n {
        Node::Leaf(l) => { axiom_array_len(&l.items); }
        Node::Internal(l) => { axiom_array_len(&l.other_children); }
    }
}

/// A split is right if the halves and the median are the old content in order and neither half is
/// over- or underfull.
pub open spec fn split_ok<I, T>(o: AN<I, T>, l: AN<I, T>, m: T, r: AN<I, T>, len: int) -> bool {
    &&& l.leaf == o.leaf && r.leaf == o.leaf
    &&& l.par == o.par && r.par == o.par
    &&& len == l.its.len()
    &&& o.its =~= l.its + seq![m] + r.its
    &&& o.kids =~= l.kids + r.kids
    &&& !over(l) && !under(l) && !over(r) && !under(r)
}

/// Search result on a node: `Ok(position)` or `Err(position of the gap)`.
pub open spec fn gap_res<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, s: Seq<T>, q: &Q, eq: bool, i: int) -> bool {
    if eq {
        0 <= i < s.len() && cmps(f, s[i], q, Ordering::Equal)
    } else {
        &&& 0 <= i <= s.len()
        &&& i > 0 ==> cmps(f, s[i - 1], q, Ordering::Less)
        &&& i < s.len() ==> cmps(f, s[i], q, Ordering::Greater)
    }
}
/// A node that cannot give an item away without becoming underfull.
pub open spec fn no_spare<I, T>(n: AN<I, T>) -> bool { n.its.len() <= min_items(n.leaf) }
pub open spec fn index_res<I>(kids: Seq<I>, id: I, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < kids.len() && kids[i as int] == id && forall|j: int| 0 <= j < i ==> kids[j] != id,
        None => forall|j: int| 0 <= j < kids.len() ==> kids[j] != id,
    }
}
pub open spec fn opt_at<T>(s: Seq<T>, i: int, r: Option<&T>) -> bool {
    match r {
        Some(x) => 0 <= i < s.len() && *x == s[i],
        None => !(0 <= i < s.len()),
    }
}
/// The items directly left and right of child `i`.
pub open spec fn sep_res<'a, T>(its: Seq<T>, i: int, r: (Option<&'a T>, Option<&'a T>)) -> bool {
    opt_at(its, i - 1, r.0) && opt_at(its, i, r.1)
}
pub open spec fn sopt<T>(s: Seq<T>, i: int) -> Option<T> {
    if 0 <= i < s.len() { Some(s[i]) } else { None }
}
/// The children of a node with their separators, left to right.
pub open spec fn cws<I, T>(n: AN<I, T>) -> Seq<(Option<T>, I, Option<T>)> {
    Seq::new(n.kids.len(), |i: int| (sopt(n.its, i - 1), n.kids[i], sopt(n.its, i)))
}
impl<'a, T, S: Storage<T>> Children<'a, T, S> {
    /// the children not yet listed
    #[verifier::opaque]
    pub open spec fn rest(&self) -> Seq<S::Node> {
        match self {
            Children::Leaf => Seq::empty(),
            Children::Internal(first, it) => {
                let t = Seq::new(it.rest().len(), |i: int| it.rest()[i].child);
                match first { Some(c) => seq![*c] + t, None => t }
            }
        }
    }
}
pub open spec fn oval<'a, T>(o: Option<&'a T>) -> Option<T> {
    match o { Some(x) => Some(*x), None => None }
}
/// the children still to be listed: `first`, then those of `b`, with `left` on the left of the first of these
pub open spec fn cw_rest<T, S: Storage<T>>(first: Option<S::Node>, left: Option<T>, b: Seq<Branch<T, S>>) -> Seq<(Option<T>, S::Node, Option<T>)> {
    match first {
        Some(c) => Seq::new(b.len() + 1, |i: int|
            if i == 0 { (None, c, if b.len() > 0 { Some(b[0].item) } else { None }) }
            else { (Some(b[i - 1].item), b[i - 1].child, if i < b.len() { Some(b[i].item) } else { None }) }),
        None => Seq::new(b.len(), |i: int|
            (if i == 0 { left } else { Some(b[i].item) }, b[i].child, if i + 1 < b.len() { Some(b[i + 1].item) } else { None })),
    }
}
impl<'a, T, S: Storage<T>> ChildrenWithSeparators<'a, T, S> {
    pub open spec fn rest(&self) -> Seq<(Option<T>, S::Node, Option<T>)> {
        match self {
            ChildrenWithSeparators::Leaf => Seq::empty(),
            ChildrenWithSeparators::Internal(first, left, it) => {
                cw_rest::<T, S>(*first, oval(*left), it.rest())
            }
        }
    }
}

pub open spec fn item_opt<T, S: Storage<T>>(b: Seq<Branch<T, S>>) -> Option<T> { if b.len() > 0 { Some(b[0].item) } else { None } }
pub proof fn lemma_cw_next<T, S: Storage<T>>(first: Option<S::Node>, left: Option<T>, b: Seq<Branch<T, S>>)
    ensures
        match first {
            Some(c) => {
                let r = cw_rest::<T, S>(first, left, b);
                &&& r.len() > 0
                &&& r[0] == (None, c, item_opt::<T, S>(b))
                &&& cw_rest::<T, S>(None, item_opt::<T, S>(b), b) =~= r.subrange(1, r.len() as int)
            }
            None => if b.len() > 0 {
                let r = cw_rest::<T, S>(first, left, b);
                let b1 = b.subrange(1, b.len() as int);
                &&& r.len() > 0
                &&& r[0] == (left, b[0].child, item_opt::<T, S>(b1))
                &&& cw_rest::<T, S>(None, item_opt::<T, S>(b1), b1) =~= r.subrange(1, r.len() as int)
            } else {
                cw_rest::<T, S>(first, left, b).len() == 0
            },
        },
{
    let r = cw_rest::<T, S>(first, left, b);
    match first {
        Some(_) => {
            let q = cw_rest::<T, S>(None, item_opt::<T, S>(b), b);
            assert forall|i: int| 0 <= i < q.len() implies q[i] == r[i + 1] by {
                assert(q[i].0 == r[i + 1].0);
                assert(q[i].2 == r[i + 1].2);
            }
        }
        None => if b.len() > 0 {
            let b1 = b.subrange(1, b.len() as int);
            let q = cw_rest::<T, S>(None, item_opt::<T, S>(b1), b1);
            assert(r[0].2 == item_opt::<T, S>(b1));
            assert forall|i: int| 0 <= i < q.len() implies q[i] == r[i + 1] by {
                assert(q[i].0 == r[i + 1].0);
                assert(q[i].2 == r[i + 1].2);
            }
        }
    }
}
