
@fn Item::new
@ret r
@spec
ensures r.key == key, r.value == value,

@fn Item::key_cmp
@ret r
@spec
ensures
    <Q as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        exists|b: &Q| call_ensures(<K as Borrow<Q>>::borrow, (&self.key,), b) && r == vstd::std_specs::cmp::OrdSpec::cmp_spec(b, key),

@fn Item::as_pair
@ret r
@spec
ensures *r.0 == self.key, *r.1 == self.value,

@fn Item::into_pair
@ret r
@spec
ensures r.0 == self.key, r.1 == self.value,

@fn Item::PartialEq::eq
@ret r
@spec
ensures <K as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() ==> r == vstd::std_specs::cmp::PartialEqSpec::eq_spec(&self.key, &other.key),

@impl Item::PartialEq
impl<K: PartialEq, V> vstd::std_specs::cmp::PartialEqSpecImpl for Item<K, V> {
    open spec fn obeys_eq_spec() -> bool { <K as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &Item<K, V>) -> bool { vstd::std_specs::cmp::PartialEqSpec::eq_spec(&self.key, &o.key) }
}

@fn Item::PartialOrd::partial_cmp
@ret r
@spec
ensures <K as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec() ==> r == vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&self.key, &other.key),

@impl Item::PartialOrd
impl<K: PartialOrd, V> vstd::std_specs::cmp::PartialOrdSpecImpl for Item<K, V> {
    open spec fn obeys_partial_cmp_spec() -> bool { <K as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec() }
    open spec fn partial_cmp_spec(&self, o: &Item<K, V>) -> Option<Ordering> { vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&self.key, &o.key) }
}

@fn Item::Ord::cmp
@ret r
@spec
ensures <K as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == vstd::std_specs::cmp::OrdSpec::cmp_spec(&self.key, &other.key),

@impl Item::Ord
impl<K: Ord, V> vstd::std_specs::cmp::OrdSpecImpl for Item<K, V> {
    open spec fn obeys_cmp_spec() -> bool { <K as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() }
    open spec fn cmp_spec(&self, o: &Item<K, V>) -> Ordering { vstd::std_specs::cmp::OrdSpec::cmp_spec(&self.key, &o.key) }
}
