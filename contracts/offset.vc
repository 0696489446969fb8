@drop *::Display
@drop *::Debug
@drop *::AsRef

@fn Offset::before
@ret r
@spec
ensures r.v() == -1,

@fn Offset::is_before
@ret r
@spec
ensures r == (self.v() == -1),

@fn Offset::value
@ret r
@spec
ensures match r { Some(x) => self.v() == x, None => self.v() == -1 },

@fn Offset::unwrap
@ret r
@spec
requires self.v() != -1,
ensures r == self.v(),

@fn Offset::incr
@spec
requires old(self).v() + 1 < usize::MAX,
ensures final(self).v() == old(self).v() + 1,

@fn Offset::decr
@spec
requires old(self).v() >= 0,
ensures final(self).v() == old(self).v() - 1,

@fn Offset::PartialOrd::partial_cmp
@ret r
@spec
ensures r == Some(ord_int(self.v(), offset.v())),

@impl Offset::PartialOrd
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Offset {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Offset) -> Option<Ordering> { Some(ord_int(self.v(), o.v())) }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Offset {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Offset) -> bool { self.v() == o.v() }
}

@inherent Offset::Ord

@fn Offset::cmp
@ret r
@spec
ensures r == ord_int(self.v(), offset.v()),

@fn Offset::PartialEq<usize>::eq
@ret r
@spec
ensures r == (self.v() == *offset),

@impl Offset::PartialEq<usize>
impl vstd::std_specs::cmp::PartialEqSpecImpl<usize> for Offset {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &usize) -> bool { self.v() == *o }
}

@fn Offset::PartialOrd<usize>::partial_cmp
@ret r
@spec
ensures r == Some(ord_int(self.v(), *offset as int)),

@impl Offset::PartialOrd<usize>
impl vstd::std_specs::cmp::PartialOrdSpecImpl<usize> for Offset {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &usize) -> Option<Ordering> { Some(ord_int(self.v(), *o as int)) }
}

@fn Offset::From<usize>::from
@ret r
@spec
ensures r == Offset(offset),

@impl Offset::From<usize>
impl vstd::std_specs::convert::FromSpecImpl<usize> for Offset {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(o: usize) -> Offset { Offset(o) }
}

@fn Address::new
@ret r
@spec
ensures r == (Address { node: id, offset }),
