@inherent Array::Default
@inherent Array::Drop
@inherent Array::Clone
@inherent Array::Deref
@inherent Array::DerefMut
@inherent Array::Extend<T>
@inherent Array::FromIterator<T>
@inherent Array::IntoIterator
@inherent &'aArray<T,N>::IntoIterator
@rename &'aArray<T,N>::IntoIterator::into_iter iter_of_array
@inherent Drain::Iterator
@inherent Drain::DoubleEndedIterator
@inherent Drain::Drop
@inherent ArrayIntoIter::Iterator
@inherent ArrayIntoIter::DoubleEndedIterator
@inherent ArrayIntoIter::Drop

@module array
impl<T, const N: usize> Array<T, N> {
    /// the cells in use are the first `len`, and they alone hold values
    pub closed spec fn wf(&self) -> bool {
        &&& self.len <= N
        &&& filled(self.buffer@, 0, self.len as int)
    }
}
impl<T, const N: usize> Array<T, N> {
    pub proof fn lemma_len(&self)
        requires self.wf(),
        ensures self@.len() <= N,
    {}
}
impl<T, const N: usize> View for Array<T, N> {
    type V = Seq<T>;
    closed spec fn view(&self) -> Seq<T> { vals(self.buffer@, 0, self.len as int) }
}
impl<T, const N: usize> ArrayIntoIter<T, N> {
    pub closed spec fn ok(&self) -> bool {
        &&& self.front <= self.back <= N
        &&& filled(self.buffer@, self.front as int, self.back as int)
    }
    pub closed spec fn rest(&self) -> Seq<T> { vals(self.buffer@, self.front as int, self.back as int) }
}
impl<'a, T, const N: usize> Drain<'a, T, N> {
    /// the items behind the drained range were moved down
    pub closed spec fn shifted(&self) -> bool {
        self.start == self.end && self.start < self.len && self.buffer@[self.start as int]@ is None
    }
    pub closed spec fn ok(&self) -> bool {
        &&& self.start <= self.end <= self.len <= N
        &&& self.shifted() ==> self.front >= self.back && filled(self.buffer@, 0, self.start as int)
        &&& !self.shifted() ==> self.start <= self.front <= self.back <= self.end && forall|i: int| 0 <= i < N ==>
            ((#[trigger] self.buffer@[i])@ is Some <==> i < self.start || self.front <= i < self.back || self.end <= i < self.len)
    }
    pub closed spec fn rest(&self) -> Seq<T> {
        if self.front < self.back { vals(self.buffer@, self.front as int, self.back as int) } else { Seq::empty() }
    }
    /// what stays in the buffer
    pub closed spec fn stays(&self) -> Seq<T> {
        if self.shifted() { vals(self.buffer@, 0, self.start as int) }
        else { vals(self.buffer@, 0, self.start as int) + vals(self.buffer@, self.end as int, self.len as int) }
    }
    /// what the buffer is at the end of the borrow
    #[verifier::prophetic]
    pub closed spec fn left(&self) -> [MaybeUninit<T>; N] { *final(self.buffer) }
    /// the buffer holds what stays, and nothing else
    pub closed spec fn done(&self) -> bool {
        &&& self.stays().len() <= N
        &&& filled(self.buffer@, 0, self.stays().len() as int)
        &&& vals(self.buffer@, 0, self.stays().len() as int) =~= self.stays()
    }
}

__mark!("array::drain_then_drop")
/// What `vdrain` stands for: the range taken from the front and from the back in any way, then the
/// destructor of `Drain` at the end of the borrow.  `script` says what the user of the range does.
pub fn drain_then_drop<T, const N: usize, R: RangeBounds<usize>>(a: &mut Array<T, N>, range: R, script: &[bool])
    requires
        old(a).wf(),
        0 <= range.lo() <= range.hi(old(a)@.len() as int) <= old(a)@.len(),
    ensures
        final(a).wf(),
        final(a)@ == old(a)@.subrange(0, range.lo()) + old(a)@.subrange(range.hi(old(a)@.len() as int), old(a)@.len() as int),
{
    let ghost stays = a@.subrange(0, range.lo()) + a@.subrange(range.hi(a@.len() as int), a@.len() as int);
    let mut d = a.drain(range);
    for i in 0..script.len()
        invariant
            d.ok(),
            d.stays() =~= stays,
            d.left() == after_borrow(a).buffer,
            after_borrow(a).len == stays.len(),
    {
        if script[i] { let _ = d.next(); } else { let _ = d.next_back(); }
    }
    d.drop();
    proof { assert(a@ =~= stays); }
}

@fn Array::new
@ret r
@spec
ensures
    r.wf(),
    r@ =~= Seq::<T>::empty(),

@fn Array::default
@ret r
@spec
ensures
    r.wf(),
    r@ == Seq::<T>::empty(),

@fn Array::into_raw_parts
@ret r
@spec
requires
    self.wf(),
ensures
    r.0 == self@.len(),
    r.0 <= N,
    filled(r.1@, 0, r.0 as int),
    vals(r.1@, 0, r.0 as int) == self@,
@at entry
broadcast use axiom_may_forget;

@fn Array::len
@ret r
@spec
requires
    self.wf(),
ensures
    r == self@.len(),
    r <= N,

@fn Array::is_empty
@ret r
@spec
requires
    self.wf(),
ensures
    r == (self@.len() == 0),

@fn Array::as_slice
@ret r
@spec
requires
    self.wf(),
ensures
    r@ == self@,
    r@.len() <= N,

@fn Array::deref
@ret r
@spec
requires
    self.wf(),
ensures
    r@ == self@,

@fn Array::as_slice_mut
@ret r
@spec
requires
    old(self).wf(),
ensures
    final(self).wf(),
    r@ == old(self)@,
    r@.len() <= N,
    final(self)@ == final(r)@,

@fn Array::deref_mut
@ret r
@spec
requires
    old(self).wf(),
ensures
    final(self).wf(),
    r@ == old(self)@,
    final(self)@ == final(r)@,

@fn Array::push
@spec
requires
    old(self).wf(),
    old(self)@.len() < N,
ensures
    final(self).wf(),
    final(self)@ == old(self)@.push(value),
@at exit
proof { assert(self@ =~= old(self)@.push(value)); }

@fn Array::push#refuse
@spec
requires
    old(self).wf(),
ensures
    old(self)@.len() < N,
    final(self).wf(),
    final(self)@ == old(self)@.push(value),
@at exit
proof { assert(self@ =~= old(self)@.push(value)); }

@fn Array::pop
@ret r
@spec
requires
    old(self).wf(),
ensures
    final(self).wf(),
    match r {
        Some(x) => old(self)@.len() > 0 && x == old(self)@[old(self)@.len() - 1]
            && final(self)@ =~= old(self)@.subrange(0, old(self)@.len() - 1),
        None => old(self)@.len() == 0 && final(self)@ == old(self)@,
    },

@fn Array::insert
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).wf(),
    i <= old(self)@.len(),
    old(self)@.len() < N,
ensures
    final(self).wf(),
    final(self)@ == old(self)@.insert(i as int, value),
@loop 0
invariant
    old(self).wf(),
    self.len == old(self).len,
    self.len < N,
    i <= self.len,
    viter.a == i,
    i <= viter.b <= self.len,
    filled(old(self).buffer@, 0, self.len as int),
    forall|j: int| 0 <= j < N ==> ((#[trigger] self.buffer@[j])@ == if j < viter.b { old(self).buffer@[j]@ } else if j == viter.b || j > self.len { None } else { old(self).buffer@[j - 1]@ }),
ensures
    viter.b == i,
decreases viter.b - viter.a,
@at exit
proof { assert(self@ =~= old(self)@.insert(i as int, value)); }

@fn Array::insert#refuse
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).wf(),
ensures
    old(self)@.len() < N,
    i <= old(self)@.len(),
    final(self).wf(),
    final(self)@ == old(self)@.insert(i as int, value),
@loop 0
invariant
    old(self).wf(),
    self.len == old(self).len,
    self.len <= N,
    viter.b < self.len ==> self.len < N,
    i < N,
    i <= self.len,
    viter.a == i,
    i <= viter.b <= self.len,
    filled(old(self).buffer@, 0, self.len as int),
    forall|j: int| 0 <= j < N ==> ((#[trigger] self.buffer@[j])@ == if j < viter.b { old(self).buffer@[j]@ } else if j == viter.b || j > self.len { None } else { old(self).buffer@[j - 1]@ }),
ensures
    viter.b == i,
decreases viter.b - viter.a,
@at exit
proof { assert(self@ =~= old(self)@.insert(i as int, value)); }

@fn Array::append
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).wf(),
    old(other).wf(),
    old(self)@.len() + old(other)@.len() <= N,
ensures
    final(self).wf(),
    final(other).wf(),
    final(self)@ == old(self)@ + old(other)@,
    final(other)@ == Seq::<T>::empty(),
@loop 0
invariant
    self.wf(),
    old(self)@.len() + old(other)@.len() <= N,
    viter.rest().len() <= old(other)@.len(),
    viter.rest() =~= old(other)@.subrange(old(other)@.len() - viter.rest().len(), old(other)@.len() as int),
    self@ =~= old(self)@ + old(other)@.subrange(0, old(other)@.len() - viter.rest().len()),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at exit
proof {
    assert(other@ =~= Seq::<T>::empty());
    assert(self@ =~= old(self)@ + old(other)@);
}

@fn Array::append#refuse
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).wf(),
    old(other).wf(),
ensures
    old(self)@.len() + old(other)@.len() <= N,
    final(self).wf(),
    final(other).wf(),
    final(self)@ == old(self)@ + old(other)@,
    final(other)@ == Seq::<T>::empty(),
@loop 0
invariant
    self.wf(),
    old(self)@.len() <= N,
    viter.rest().len() <= old(other)@.len(),
    viter.rest() =~= old(other)@.subrange(old(other)@.len() - viter.rest().len(), old(other)@.len() as int),
    self@ =~= old(self)@ + old(other)@.subrange(0, old(other)@.len() - viter.rest().len()),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at exit
proof {
    assert(other@ =~= Seq::<T>::empty());
    assert(self@ =~= old(self)@ + old(other)@);
}

@fn Array::remove
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@spec
requires
    old(self).wf(),
ensures
    final(self).wf(),
    match r {
        Some(x) => i < old(self)@.len() && x == old(self)@[i as int] && final(self)@ =~= old(self)@.remove(i as int),
        None => i >= old(self)@.len() && final(self)@ == old(self)@,
    },
@at loop 0 pre
let ghost pre = *self;
proof { assert(filled(old(self).buffer@, 0, old(self).len as int)); }
@loop 0
invariant
    self.len == pre.len,
    pre.len == old(self).len || pre.len == old(self).len - 1,
    i < old(self).len <= N,
    filled(old(self).buffer@, 0, old(self).len as int),
    forall|k: int| 0 <= k < N ==> ((#[trigger] self.buffer@[k])@ == {
        let h = i + vit.index@;
        if k < i { old(self).buffer@[k]@ } else if k < h { old(self).buffer@[k + 1]@ } else if k == h { None } else { old(self).buffer@[k]@ }
    }),

@fn Array::drain
@ret r
@spec
requires
    old(self).wf(),
    0 <= range.lo() <= range.hi(old(self)@.len() as int) <= old(self)@.len(),
ensures
    r.ok(),
    final(self).len == r.stays().len(),
    final(self).buffer == r.left(),
    r.rest() == old(self)@.subrange(range.lo(), range.hi(old(self)@.len() as int)),
    r.stays() == old(self)@.subrange(0, range.lo()) + old(self)@.subrange(range.hi(old(self)@.len() as int), old(self)@.len() as int),

@fn Array::clear
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).wf(),
ensures
    final(self).wf(),
    final(self)@ == Seq::<T>::empty(),
@at loop 0 pre
let ghost pre = *self;
@loop 0
invariant
    self.len == pre.len,
    old(self).len <= N,
    filled(self.buffer@, vit.index@, old(self).len as int),
@at exit
proof { assert(self@ =~= Seq::<T>::empty()); }

@fn Array::drop
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).wf(),
ensures
    filled(final(self).buffer@, 0, 0),
@at loop 0 pre
let ghost pre = *self;
@loop 0
invariant
    self.len == pre.len,
    old(self).len <= N,
    filled(self.buffer@, vit.index@, old(self).len as int),

@fn Array::clone
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@ret r
@spec
requires
    self.wf(),
ensures
    r.wf(),
    r@.len() == self@.len(),
    forall|i: int| 0 <= i < self@.len() ==> cloned(#[trigger] self@[i], r@[i]),
@at after call new#0
proof { assert(result@.len() == 0); }
@loop 0
invariant
    self.wf(),
    self.len <= N,
    filled(self.buffer@, 0, self.len as int),
    filled(result.buffer@, 0, vit.index@),
    forall|j: int| 0 <= j < vit.index@ ==> cloned(self.buffer@[j]@->0, (#[trigger] result.buffer@[j])@->0),
@unwind-loop 0
    result.len <= vit.index@,
@unwind before call clone#*
// what is left of the copy is destroyed if this panics
assert(result.len <= N && (forall|j: int| 0 <= j < result.len ==> (#[trigger] result.buffer@[j])@ is Some));

@fn Array::extend
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).wf(),
    iter.ok(),
    old(self)@.len() + iter.rest().len() <= N,
ensures
    final(self).wf(),
    final(self)@ == old(self)@ + iter.rest(),
@loop 0
invariant
    self.wf(),
    viter.ok(),
    self@ + viter.rest() =~= old(self)@ + iter.rest(),
    old(self)@.len() + iter.rest().len() <= N,
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at loop 0 start
proof { assert((self@ + viter.rest()).len() == old(self)@.len() + iter.rest().len()); }
@at exit
proof { assert(self@ =~= old(self)@ + iter.rest()); }

@fn Array::extend#refuse
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).wf(),
    iter.ok(),
ensures
    old(self)@.len() + iter.rest().len() <= N,
    final(self).wf(),
    final(self)@ == old(self)@ + iter.rest(),
@loop 0
invariant
    self.wf(),
    viter.ok(),
    self@ + viter.rest() =~= old(self)@ + iter.rest(),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at loop 0 start
proof { assert((self@ + viter.rest()).len() == old(self)@.len() + iter.rest().len()); }
@at exit
proof { assert(self@ =~= old(self)@ + iter.rest()); }

@fn Array::from_iter
@ret r
@spec
requires
    iter.ok(),
    iter.rest().len() <= N,
ensures
    r.wf(),
    r@ =~= iter.rest(),

@fn Array::from_iter#refuse
@ret r
@spec
requires
    iter.ok(),
ensures
    iter.rest().len() <= N,
    r.wf(),
    r@ =~= iter.rest(),

@fn iter_of_array
@ret r
@spec
requires
    vself.wf(),
ensures
    r.rest() =~= vself@,

@fn Array::into_iter
@ret r
@spec
requires
    self.wf(),
ensures
    r.ok(),
    r.rest() =~= self@,

@fn Drain::shift
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).ok(),
    old(self).front >= old(self).back,
ensures
    final(self).ok(),
    final(self).left() == old(self).left(),
    final(self).front >= final(self).back,
    final(self).rest() == old(self).rest(),
    final(self).stays() =~= old(self).stays(),
    vals(final(self).buffer@, 0, final(self).stays().len() as int) =~= final(self).stays(),
    final(self).done(),
@loop 0
invariant
    self.left() == old(self).left(),
    old(self).ok(),
    !old(self).shifted(),
    old(self).start < old(self).end,
    old(self).front == old(self).back,
    self.end == old(self).end,
    self.len == old(self).len,
    self.front == old(self).front,
    self.back == old(self).back,
    self.start == old(self).start + vit.index@,
    self.end + vit.index@ <= self.len <= N,
    forall|k: int| 0 <= k < N ==> ((#[trigger] self.buffer@[k])@ == if k < old(self).start { old(self).buffer@[k]@ } else if k < self.start { old(self).buffer@[k - old(self).start + self.end]@ } else if k < self.end + vit.index@ { None } else { old(self).buffer@[k]@ }),

@fn Drain::size_hint
@ret r
@spec
requires
    self.ok(),
ensures
    r.0 == self.rest().len(),
    r.1 == Some(r.0),

@fn Drain::next
@ret r
@spec
requires
    old(self).ok(),
ensures
    final(self).ok(),
    final(self).left() == old(self).left(),
    final(self).stays() =~= old(self).stays(),
    match r {
        Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
        None => old(self).rest().len() == 0 && final(self).rest() =~= old(self).rest() && final(self).done(),
    },

@fn Drain::next_back
@ret r
@spec
requires
    old(self).ok(),
ensures
    final(self).ok(),
    final(self).left() == old(self).left(),
    final(self).stays() =~= old(self).stays(),
    match r {
        Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[old(self).rest().len() - 1] && final(self).rest() =~= old(self).rest().subrange(0, old(self).rest().len() - 1),
        None => old(self).rest().len() == 0 && final(self).rest() =~= old(self).rest() && final(self).done(),
    },

@fn Drain::drop
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).ok(),
ensures
    final(self).ok(),
    final(self).left() == old(self).left(),
    final(self).stays() =~= old(self).stays(),
    final(self).rest().len() == 0,
    final(self).done(),
@loop 0
invariant
    self.left() == old(self).left(),
    self.ok(),
    self.stays() =~= old(self).stays(),
ensures
    self.rest().len() == 0,
    self.done(),
decreases self.rest().len(),

@fn ArrayIntoIter::size_hint
@ret r
@spec
requires
    self.ok(),
ensures
    r.0 == self.rest().len(),
    r.1 == Some(r.0),

@fn ArrayIntoIter::next
@ret r
@spec
requires
    old(self).ok(),
ensures
    final(self).ok(),
    match r {
        Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
        None => old(self).rest().len() == 0 && final(self).rest() =~= old(self).rest(),
    },

@fn ArrayIntoIter::next_back
@ret r
@spec
requires
    old(self).ok(),
ensures
    final(self).ok(),
    match r {
        Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[old(self).rest().len() - 1] && final(self).rest() =~= old(self).rest().subrange(0, old(self).rest().len() - 1),
        None => old(self).rest().len() == 0 && final(self).rest() =~= old(self).rest(),
    },

@fn ArrayIntoIter::drop
@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
@spec
requires
    old(self).ok(),
ensures
    final(self).ok(),
    final(self).rest().len() == 0,
    filled(final(self).buffer@, 0, 0),
@loop 0
invariant
    self.ok(),
ensures
    self.rest().len() == 0,
decreases self.rest().len(),
