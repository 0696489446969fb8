// ---------------------------------------------------------------------------------------------
// Iterators: the part of the ordered sequence that was not yielded yet.
// ---------------------------------------------------------------------------------------------
pub use crate::{IterMut, IntoIter};

/// the cursors `addr` and `end` enclose the items `lo .. hi` of the tree
pub open spec fn span<T, S: Storage<T>>(t: &RawBTree<T, S>, addr: Option<Address<S::Node>>, end: Option<Address<S::Node>>, lo: int, hi: int) -> bool {
    &&& 0 <= lo <= hi <= t@.len()
    &&& match addr { Some(a) => t.is_at(a, lo), None => lo == t@.len() }
    &&& match end { Some(e) => t.is_at(e, hi), None => hi == t@.len() }
}
pub open spec fn end_pos<T, S: Storage<T>>(t: &RawBTree<T, S>, end: Option<Address<S::Node>>) -> int {
    match end { Some(e) => at(t.h(), e), None => t@.len() as int }
}

impl<'a, T, S: Storage<T>> Iter<'a, T, S> {
    pub open spec fn hi(&self) -> int { end_pos(self.btree, self.end) }
    pub open spec fn lo(&self) -> int { self.hi() - self.len }
    pub open spec fn inv(&self) -> bool { self.btree.inv() && span(self.btree, self.addr, self.end, self.lo(), self.hi()) }
    /// the items still to come
    pub open spec fn view(&self) -> Seq<T> { self.btree@.subrange(self.lo(), self.hi()) }
}

/// a reference to an item, for as long as the tree is borrowed (the code's `transmute`): the same
/// place, now and when the reference ends
#[verifier::external_body]
pub fn extend_lifetime<'a, 'b, X>(x: &'b mut X) -> (r: &'a mut X)
    ensures
        *r == *old(x),
        *final(r) == *final(x),
{
    unsafe { std::mem::transmute::<&'b mut X, &'a mut X>(x) }
}
/// the value behind a reference, moved out bitwise (the code's `std::ptr::read`)
#[verifier::external_body]
pub fn read_out<X>(x: &X) -> (r: X)
    ensures
        r == *x,
{
    unsafe { std::ptr::read(x) }
}

impl<'a, T, S: Storage<T>> IterMut<'a, T, S> {
    pub open spec fn hi(&self) -> int { end_pos(&*self.btree, self.end) }
    pub open spec fn lo(&self) -> int { self.hi() - self.len }
    pub open spec fn inv(&self) -> bool { self.btree.inv() && span(&*self.btree, self.addr, self.end, self.lo(), self.hi()) }
    /// the items still to come
    pub open spec fn view(&self) -> Seq<T> { self.btree@.subrange(self.lo(), self.hi()) }
}

impl<T, S: Storage<T>> IntoIter<T, S> {
    pub open spec fn hi(&self) -> int { end_pos(&self.btree, self.end) }
    pub open spec fn lo(&self) -> int { self.hi() - self.len }
    pub open spec fn inv(&self) -> bool { self.btree.inv() && span(&self.btree, self.addr, self.end, self.lo(), self.hi()) }
    /// the items still to come
    pub open spec fn view(&self) -> Seq<T> { self.btree@.subrange(self.lo(), self.hi()) }
}
