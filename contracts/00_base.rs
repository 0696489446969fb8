use std::cmp::Ordering;

// ---- assumed specifications of std::cmp::Ordering
pub assume_specification [std::cmp::Ordering::is_gt] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o == Ordering::Greater);
pub assume_specification [std::cmp::Ordering::is_lt] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o == Ordering::Less);
pub assume_specification [std::cmp::Ordering::is_eq] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o == Ordering::Equal);
pub assume_specification [std::cmp::Ordering::is_ne] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o != Ordering::Equal);
pub assume_specification [std::cmp::Ordering::is_le] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o != Ordering::Greater);
pub assume_specification [std::cmp::Ordering::is_ge] (o: std::cmp::Ordering) -> (r: bool) ensures r == (o != Ordering::Less);

/// The comparison may be called with this key.
pub open spec fn cmp_ok<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, q: &Q) -> bool {
    forall|t: &T| #[trigger] f.requires((t, q))
}
/// The comparison of `t` with the key can give `o`.
pub open spec fn cmps<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, t: T, q: &Q, o: Ordering) -> bool {
    f.ensures((&t, q), o)
}

/// Result of a search in an ordered sequence: the position of the last item not greater than the key.
pub open spec fn search_res<T, Q: ?Sized, F: Fn(&T, &Q) -> Ordering>(f: F, s: Seq<T>, q: &Q, r: Option<(usize, bool)>) -> bool {
    match r {
        None => gap_res(f, s, q, false, 0) && (s.len() > 0 ==> cmps(f, s[0], q, Ordering::Greater)),
        Some((i, eq)) => {
            &&& i < s.len()
            &&& eq ==> gap_res(f, s, q, true, i as int)
            &&& !eq ==> gap_res(f, s, q, false, i + 1)
            &&& eq ==> cmps(f, s[i as int], q, Ordering::Equal)
            &&& !eq ==> cmps(f, s[i as int], q, Ordering::Less)
            &&& !eq && i + 1 < s.len() ==> cmps(f, s[i + 1], q, Ordering::Greater)
        }
    }
}

/// What a node holds.
#[verifier::ext_equal]
pub ghost struct AN<I, T> {
    pub leaf: bool,
    pub its: Seq<T>,
    pub kids: Seq<I>,
    pub par: Option<I>,
}

/// Iterator over a slice (stands for `std::slice::Iter`).
pub struct SliceIter<'a, X> {
    pub s: &'a [X],
    pub i: usize,
}
impl<'a, X> SliceIter<'a, X> {
    /// the elements not yet visited
    pub open spec fn rest(&self) -> Seq<X> {
        if self.i <= self.s@.len() { self.s@.subrange(self.i as int, self.s@.len() as int) } else { Seq::empty() }
    }
    pub fn next(&mut self) -> (r: Option<&'a X>)
        ensures
            match r {
                Some(x) => old(self).rest().len() > 0 && *x == old(self).rest()[0]
                    && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
                None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
            },
    {
        if self.i < self.s.len() {
            let x = &self.s[self.i];
            self.i = self.i + 1;
            Some(x)
        } else {
            None
        }
    }
    pub fn peek(&self) -> (r: Option<&'a X>)
        ensures
            match r {
                Some(x) => self.rest().len() > 0 && *x == self.rest()[0],
                None => self.rest().len() == 0,
            },
    {
        if self.i < self.s.len() { Some(&self.s[self.i]) } else { None }
    }
    pub fn peekable(self) -> (r: Self)
        ensures r == self,
    { self }
    pub fn into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
}
pub fn slice_iter<'a, X>(s: &'a [X]) -> (r: SliceIter<'a, X>)
    ensures r.rest() =~= s@,
{
    SliceIter { s, i: 0 }
}
pub open spec fn ord_int(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
pub assume_specification<X> [std::mem::replace::<X>] (dest: &mut X, src: X) -> (r: X)
    ensures
        *final(dest) == src,
        r == *old(dest),
;

pub assume_specification<X> [Option::<X>::or] (a: Option<X>, b: Option<X>) -> (r: Option<X>)
    ensures r == if a is Some { a } else { b },
;
pub fn usize_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn usize_max(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }

/// A panic, where it is an allowed way out (R19): nothing holds after it, because nothing comes after it.
#[verifier::external_body]
pub fn refuse() -> !
    ensures false,
{ unimplemented!() }
/// An index check (R19): a panic if it fails.
pub fn in_bounds(i: usize, n: usize) -> (r: usize)
    ensures r == i, i < n,
{ if i < n { i } else { refuse() } }
/// The overflow check of an addition (R19): a panic if it fails.
pub fn add_checked(a: usize, b: usize) -> (r: usize)
    ensures r == a + b,
{ match a.checked_add(b) { Some(r) => r, None => refuse() } }
