// ---------------------------------------------------------------------------------------------
// The boxed storage: raw pointers to boxes.
// ---------------------------------------------------------------------------------------------
/// the boxes given out as raw pointers and not yet taken back, by address (nodes take up room, so
/// that no two of them are at one address)
#[verifier::external_body]
#[verifier::accept_recursive_types(X)]
pub tracked struct Mem<X> { x: std::marker::PhantomData<X> }
impl<X> View for Mem<X> {
    type V = Map<usize, X>;
    uninterp spec fn view(&self) -> Map<usize, X>;
}
/// `*mut X`, as far as the storage uses it
#[verifier::accept_recursive_types(X)]
pub struct RawPtr<X> { pub addr: usize, pub x: std::marker::PhantomData<X> }
impl<X> Copy for RawPtr<X> {}
impl<X> Clone for RawPtr<X> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<X> vstd::std_specs::cmp::PartialEqSpecImpl for RawPtr<X> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.addr == o.addr }
}
impl<X> PartialEq for RawPtr<X> {
    fn eq(&self, o: &Self) -> (r: bool)
    { self.addr == o.addr }
}
/// `std::ptr::NonNull`
#[verifier::accept_recursive_types(X)]
pub struct NonNull<X> { pub p: RawPtr<X> }
impl<X> Copy for NonNull<X> {}
impl<X> Clone for NonNull<X> {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
impl<X> NonNull<X> {
    pub fn new(p: RawPtr<X>) -> (r: Option<Self>)
        ensures r == if p.addr != 0 { Some(NonNull { p }) } else { None },
    { if p.addr != 0 { Some(NonNull { p }) } else { None } }
    pub fn new_unchecked(p: RawPtr<X>) -> (r: Self)
        requires p.addr != 0,
        ensures r == (NonNull { p }),
    { NonNull { p } }
    /// from the reference that `Box::leak` gives
    pub fn from(p: RawPtr<X>) -> (r: Self)
        requires p.addr != 0,
        ensures r == (NonNull { p }),
    { NonNull { p } }
    pub fn as_ptr(self) -> (r: RawPtr<X>)
        ensures r == self.p,
    { self.p }
}
impl<X> vstd::std_specs::cmp::PartialEqSpecImpl for NonNull<X> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.p.addr == o.p.addr }
}
impl<X> PartialEq for NonNull<X> {
    fn eq(&self, o: &Self) -> (r: bool)
    { self.p.addr == o.p.addr }
}
#[verifier::external_body]
pub fn box_into_raw<'a, X>(b: Box<X>, Tracked(m): Tracked<&'a mut Mem<X>>) -> (r: RawPtr<X>)
    ensures
        r.addr != 0,
        !old(m)@.contains_key(r.addr),
        final(m)@ == old(m)@.insert(r.addr, *b),
{ unimplemented!() }
#[verifier::external_body]
pub fn box_from_raw<'a, X>(p: RawPtr<X>, Tracked(m): Tracked<&'a mut Mem<X>>) -> (r: Box<X>)
    requires
        old(m)@.contains_key(p.addr),
    ensures
        *r == old(m)@[p.addr],
        final(m)@ == old(m)@.remove(p.addr),
{ unimplemented!() }
/// `&*p`
#[verifier::external_body]
pub fn raw_ref<'a, X>(p: RawPtr<X>, Tracked(m): Tracked<&'a Mem<X>>) -> (r: &'a X)
    requires
        m@.contains_key(p.addr),
    ensures
        *r == m@[p.addr],
{ unimplemented!() }
/// `&mut *p`
#[verifier::external_body]
pub fn raw_mut<'a, X>(p: RawPtr<X>, Tracked(m): Tracked<&'a mut Mem<X>>) -> (r: &'a mut X)
    requires
        old(m)@.contains_key(p.addr),
    ensures
        *r == old(m)@[p.addr],
        final(m)@ == old(m)@.insert(p.addr, *final(r)),
{ unimplemented!() }
/// `ptr::read(p)`: the box stays where it is
#[verifier::external_body]
pub fn raw_read<'a, X>(p: RawPtr<X>, Tracked(m): Tracked<&'a mut Mem<X>>) -> (r: X)
    requires
        old(m)@.contains_key(p.addr),
    ensures
        r == old(m)@[p.addr],
        final(m)@ == old(m)@,
{ unimplemented!() }
/// `ptr::drop_in_place(p)`: the box stays where it is
#[verifier::external_body]
pub fn raw_drop<'a, X>(p: RawPtr<X>, Tracked(m): Tracked<&'a mut Mem<X>>)
    requires
        old(m)@.contains_key(p.addr),
    ensures
        final(m)@ == old(m)@,
{ unimplemented!() }
pub open spec fn box_at<T>(a: usize) -> crate::storage::BoxPtr<T> {
    crate::storage::BoxPtr(NonNull { p: RawPtr { addr: a, x: std::marker::PhantomData } })
}
/// an identifier is its address
pub proof fn lemma_box_same<T>(id: crate::storage::BoxPtr<T>)
    ensures
        id == box_at::<T>(id.0.p.addr),
{
}
/// what the boxed storage holds: `Storage::h` of it
pub open spec fn boxes<T>(m: Map<usize, T>) -> Map<crate::storage::BoxPtr<T>, T> {
    Map::new(m.dom().map(|a: usize| box_at::<T>(a)), |id: crate::storage::BoxPtr<T>| m[id.0.p.addr])
}
pub broadcast proof fn lemma_box_has<T>(m: Map<usize, T>, id: crate::storage::BoxPtr<T>)
    ensures
        #[trigger] boxes(m).contains_key(id) <==> m.contains_key(id.0.p.addr),
{
    lemma_box_same(id);
    if m.contains_key(id.0.p.addr) {
        assert(m.dom().map(|a: usize| box_at::<T>(a)).contains(box_at(id.0.p.addr)));
    }
}
pub broadcast proof fn lemma_box_insert<T>(m: Map<usize, T>, id: crate::storage::BoxPtr<T>, n: T)
    ensures
        #[trigger] boxes(m.insert(id.0.p.addr, n)) == boxes(m).insert(id, n),
{
    broadcast use lemma_box_has;
    lemma_box_same(id);
    assert forall|x: crate::storage::BoxPtr<T>| x.0.p.addr == id.0.p.addr implies x == id by { lemma_box_same(x); }
    assert(boxes(m.insert(id.0.p.addr, n)) =~= boxes(m).insert(id, n));
}
pub broadcast proof fn lemma_box_remove<T>(m: Map<usize, T>, id: crate::storage::BoxPtr<T>)
    ensures
        #[trigger] boxes(m.remove(id.0.p.addr)) == boxes(m).remove(id),
{
    broadcast use lemma_box_has;
    lemma_box_same(id);
    assert forall|x: crate::storage::BoxPtr<T>| x.0.p.addr == id.0.p.addr implies x == id by { lemma_box_same(x); }
    assert(boxes(m.remove(id.0.p.addr)) =~= boxes(m).remove(id));
}
pub broadcast group group_boxes {
    lemma_box_has,
    lemma_box_insert,
    lemma_box_remove,
}
