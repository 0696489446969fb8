// ---------------------------------------------------------------------------------------------
// Uninitialised memory.  A cell holds a value or nothing.  Reading a value out leaves nothing: the
// verifier then sees every value owned by exactly one cell or variable.  (These are the assumed
// contracts of `std::mem::MaybeUninit`; `assume_init_read` takes `&self` there.)
// ---------------------------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct MaybeUninit<T> { c: std::mem::MaybeUninit<T> }
impl<T> View for MaybeUninit<T> {
    type V = Option<T>;
    uninterp spec fn view(&self) -> Option<T>;
}
/// types for which every bit pattern is a value
pub trait AnyBits: Sized {
    spec fn unset(&self) -> bool;
}
impl<X, const N: usize> AnyBits for [MaybeUninit<X>; N] {
    open spec fn unset(&self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self@[i])@ is None }
}
impl<T> MaybeUninit<T> {
    #[verifier::external_body]
    pub fn uninit() -> (r: Self)
        ensures r@ is None,
    { unimplemented!() }
    /// the old content would not be destroyed
    #[verifier::external_body]
    pub fn write(&mut self, v: T)
        requires old(self)@ is None,
        ensures final(self)@ == Some(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_read(&mut self) -> (r: T)
        requires old(self)@ is Some,
        ensures r == old(self)@->0, final(self)@ is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_drop(&mut self)
        requires old(self)@ is Some,
        ensures final(self)@ is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_ref(&self) -> (r: &T)
        requires self@ is Some,
        ensures *r == self@->0,
    { unimplemented!() }
}
impl<T: AnyBits> MaybeUninit<T> {
    #[verifier::external_body]
    pub fn assume_init(self) -> (r: T)
        requires self@ is None,
        ensures r.unset(),
    { unimplemented!() }
}
/// exactly the cells from `a` to `b` hold a value
pub open spec fn filled<T>(c: Seq<MaybeUninit<T>>, a: int, b: int) -> bool {
    forall|i: int| 0 <= i < c.len() ==> ((#[trigger] c[i])@ is Some <==> a <= i < b)
}
pub open spec fn vals<T>(c: Seq<MaybeUninit<T>>, a: int, b: int) -> Seq<T> {
    Seq::new((b - a) as nat, |i: int| c[a + i]@->0)
}
/// `&buffer[..n]`
#[verifier::external_body]
pub fn cells_prefix<T, const N: usize>(b: &[MaybeUninit<T>; N], n: usize) -> (r: &[MaybeUninit<T>])
    requires n <= N,
    ensures r@ == b@.subrange(0, n as int),
{ unimplemented!() }
/// `&mut buffer[..n]`
#[verifier::external_body]
pub fn cells_prefix_mut<T, const N: usize>(b: &mut [MaybeUninit<T>; N], n: usize) -> (r: &mut [MaybeUninit<T>])
    requires n <= N,
    ensures
        r@ == old(b)@.subrange(0, n as int),
        final(r)@.len() == n,
        final(b)@ == final(r)@ + old(b)@.subrange(n as int, N as int),
{ unimplemented!() }
/// `&*(s as *const [MaybeUninit<T>] as *const [T])`
#[verifier::external_body]
pub fn cells_as_slice<T>(s: &[MaybeUninit<T>]) -> (r: &[T])
    requires forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i])@ is Some,
    ensures r@ == vals(s@, 0, s@.len() as int),
{ unimplemented!() }
/// `&mut *(s as *mut [MaybeUninit<T>] as *mut [T])`
#[verifier::external_body]
pub fn cells_as_slice_mut<T>(s: &mut [MaybeUninit<T>]) -> (r: &mut [T])
    requires forall|i: int| 0 <= i < old(s)@.len() ==> (#[trigger] old(s)@[i])@ is Some,
    ensures
        r@ == vals(old(s)@, 0, old(s)@.len() as int),
        final(r)@.len() == r@.len(),
        final(s)@.len() == old(s)@.len(),
        forall|i: int| 0 <= i < final(s)@.len() ==> (#[trigger] final(s)@[i])@ == Some(final(r)@[i]),
{ unimplemented!() }

/// `std::ops::Bound`, `std::ops::RangeBounds` on ranges of indices
pub enum Bound<X> { Included(X), Excluded(X), Unbounded }
pub trait RangeBounds<X>: Sized {
    spec fn lo(&self) -> int;
    spec fn hi(&self, len: int) -> int;
    fn start_bound(&self) -> (r: Bound<&usize>)
        ensures
            match r { Bound::Unbounded => self.lo() == 0, Bound::Included(i) => self.lo() == *i, Bound::Excluded(i) => self.lo() == *i + 1 };
    fn end_bound(&self) -> (r: Bound<&usize>)
        ensures
            forall|n: int| #[trigger] self.hi(n) == match r { Bound::Unbounded => n, Bound::Included(i) => *i + 1, Bound::Excluded(i) => *i as int };
}
impl RangeBounds<usize> for std::ops::RangeFrom<usize> {
    open spec fn lo(&self) -> int { self.start as int }
    open spec fn hi(&self, len: int) -> int { len }
    fn start_bound(&self) -> Bound<&usize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&usize> { Bound::Unbounded }
}
impl RangeBounds<usize> for std::ops::Range<usize> {
    open spec fn lo(&self) -> int { self.start as int }
    open spec fn hi(&self, len: int) -> int { self.end as int }
    fn start_bound(&self) -> Bound<&usize> { Bound::Included(&self.start) }
    fn end_bound(&self) -> Bound<&usize> { Bound::Excluded(&self.end) }
}
impl RangeBounds<usize> for std::ops::RangeTo<usize> {
    open spec fn lo(&self) -> int { 0 }
    open spec fn hi(&self, len: int) -> int { self.end as int }
    fn start_bound(&self) -> Bound<&usize> { Bound::Unbounded }
    fn end_bound(&self) -> Bound<&usize> { Bound::Excluded(&self.end) }
}
impl RangeBounds<usize> for std::ops::RangeFull {
    open spec fn lo(&self) -> int { 0 }
    open spec fn hi(&self, len: int) -> int { len }
    fn start_bound(&self) -> Bound<&usize> { Bound::Unbounded }
    fn end_bound(&self) -> Bound<&usize> { Bound::Unbounded }
}

/// `(a..b).rev()`
pub struct RevRange { pub a: usize, pub b: usize }
impl RevRange {
    pub fn into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            match r {
                Some(i) => old(self).a < old(self).b && i == old(self).b - 1 && final(self).a == old(self).a && final(self).b == i,
                None => old(self).a >= old(self).b && *final(self) == *old(self),
            },
    {
        if self.a < self.b {
            self.b = self.b - 1;
            Some(self.b)
        } else {
            None
        }
    }
}
pub fn rev_range(a: usize, b: usize) -> (r: RevRange)
    ensures r.a == a, r.b == b,
{ RevRange { a, b } }

/// `Iterator` by value over a known sequence
pub trait VIter: Sized {
    type X;
    spec fn ok(&self) -> bool;
    spec fn rest(&self) -> Seq<Self::X>;
    fn next(&mut self) -> (r: Option<Self::X>)
        requires old(self).ok(),
        ensures
            final(self).ok(),
            match r {
                Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
                None => old(self).rest().len() == 0 && final(self).rest() =~= old(self).rest(),
            };
    fn into_iter(self) -> (r: Self)
        ensures r == self;
}
pub assume_specification<X> [core::mem::drop::<X>] (x: X);
