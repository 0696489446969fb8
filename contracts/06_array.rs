// ---------------------------------------------------------------------------------------------
// The node buffer as the rest of the code sees it.
// ---------------------------------------------------------------------------------------------
pub use crate::utils::array::{Drain, ArrayIntoIter};

/// The type invariant of the buffer.  Its fields are private to its module, and every function of that
/// module that makes or changes a buffer ensures `wf`: outside of it every buffer is well-formed.
pub broadcast axiom fn axiom_array_wf<T, const N: usize>(a: &Array<T, N>)
    ensures
        #[trigger] a.wf(),
;
/// A buffer never holds more than its capacity.
pub broadcast proof fn axiom_array_len<T, const N: usize>(a: &Array<T, N>)
    ensures
        (#[trigger] a@).len() <= N,
{
    axiom_array_wf(a);
    a.lemma_len();
}

// The methods of a slice that the code reaches through `Deref`, written out.
impl<T, const N: usize> Array<T, N> {
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        requires self.wf(),
        ensures
            match r {
                Some(x) => i < self@.len() && *x == self@[i as int],
                None => i >= self@.len(),
            },
    {
        let s = self.deref();
        if i < s.len() { Some(&s[i]) } else { None }
    }
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        requires old(self).wf(),
        ensures
            final(self).wf(),
            match r {
                Some(x) => i < old(self)@.len() && *x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, *final(x)),
                None => i >= old(self)@.len() && final(self)@ == old(self)@,
            },
    {
        let s = self.deref_mut();
        if i < s.len() { Some(&mut s[i]) } else { None }
    }
    pub fn first(&self) -> (r: Option<&T>)
        requires self.wf(),
        ensures
            match r {
                Some(x) => 0 < self@.len() && *x == self@[0],
                None => self@.len() == 0,
            },
    {
        let s = self.deref();
        if 0 < s.len() { Some(&s[0]) } else { None }
    }
    pub fn last(&self) -> (r: Option<&T>)
        requires self.wf(),
        ensures
            match r {
                Some(x) => 0 < self@.len() && *x == self@[self@.len() - 1],
                None => self@.len() == 0,
            },
    {
        let s = self.deref();
        if 0 < s.len() { Some(&s[s.len() - 1]) } else { None }
    }
    pub fn iter<'a>(&'a self) -> (r: SliceIter<'a, T>)
        requires self.wf(),
        ensures r.rest() =~= self@,
    { slice_iter(self.deref()) }
}

impl<T, const N: usize> VIter for ArrayIntoIter<T, N> {
    type X = T;
    closed spec fn ok(&self) -> bool { ArrayIntoIter::ok(self) }
    closed spec fn rest(&self) -> Seq<T> { ArrayIntoIter::rest(self) }
    fn next(&mut self) -> Option<T> { ArrayIntoIter::next(self) }
    fn into_iter(self) -> Self { self }
}

/// A drained range and, at the end of the borrow, the destructor of `Drain`: see `array::drain_then_drop`.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Drained<T> {
    buf: std::marker::PhantomData<T>,
}
impl<T> Drained<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            match r {
                Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
                None => old(self).rest().len() == 0 && final(self).rest() =~= old(self).rest(),
            },
    { unimplemented!() }
    pub fn into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    /// `Iterator::collect` into a buffer is `FromIterator::from_iter`
    pub fn collect<const N: usize>(self) -> (r: Array<T, N>)
        requires self.rest().len() <= N,
        ensures r.wf(), r@ == self.rest(),
    { Array::from_iter(self) }
}
impl<T> VIter for Drained<T> {
    type X = T;
    open spec fn ok(&self) -> bool { true }
    open spec fn rest(&self) -> Seq<T> { Drained::rest(self) }
    fn next(&mut self) -> Option<T> { Drained::next(self) }
    fn into_iter(self) -> Self { self }
}
impl<T, const N: usize> Array<T, N> {
    #[verifier::external_body]
    pub fn vdrain<R: RangeBounds<usize>>(&mut self, range: R) -> (r: Drained<T>)
        requires
            old(self).wf(),
            0 <= range.lo() <= range.hi(old(self)@.len() as int) <= old(self)@.len(),
        ensures
            final(self).wf(),
            r.rest() == old(self)@.subrange(range.lo(), range.hi(old(self)@.len() as int)),
            final(self)@ == old(self)@.subrange(0, range.lo()) + old(self)@.subrange(range.hi(old(self)@.len() as int), old(self)@.len() as int),
    { unimplemented!() }
}
