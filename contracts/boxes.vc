@inherent BoxStorage::Storage<T>
@inherent BoxDrop::Dropper<T,BoxStorage>
@inherent BoxPtr::PartialEq
@drop BoxPtr::Send
@drop BoxPtr::Sync
@drop BoxPtr::fmt::Debug
@drop BoxPtr::Debug
@drop BoxPtr::Eq
@type BoxPtr
#[verifier::accept_recursive_types(T)]
@--

@fn BoxStorage::allocate_node
@ret id
@spec
ensures
    !boxes(old(vmem)@).contains_key(id),
    boxes(final(vmem)@) == boxes(old(vmem)@).insert(id, node),
@at entry
broadcast use group_boxes;

@fn BoxStorage::release_node
@ret r
@spec
requires
    boxes(old(vmem)@).contains_key(id),
ensures
    r == boxes(old(vmem)@)[id],
    boxes(final(vmem)@) == boxes(old(vmem)@).remove(id),
@at entry
broadcast use group_boxes;

@fn BoxStorage::start_dropping
@ret r
@spec
ensures
    r is Some,

@fn BoxStorage::get
@ret r
@spec
requires
    boxes(vmem@).contains_key(id),
ensures
    *r == boxes(vmem@)[id],
@at entry
broadcast use group_boxes;

@fn BoxStorage::get_mut
@ret r
@spec
requires
    boxes(old(vmem)@).contains_key(id),
ensures
    *r == boxes(old(vmem)@)[id],
    boxes(final(vmem)@) == boxes(old(vmem)@).insert(id, *final(r)),
@at entry
broadcast use group_boxes;

@fn BoxDrop::drop_node
@spec
requires
    boxes(old(vmem)@).contains_key(id),
ensures
    boxes(final(vmem)@) == boxes(old(vmem)@).remove(id),
@at entry
broadcast use group_boxes;

@fn BoxPtr::eq
@ret r
@spec
ensures
    r == (*self == *other),
@at entry
proof { lemma_box_same(*self); lemma_box_same(*other); }

@fn BoxPtr::Clone::clone
@ret r
@spec
ensures
    r == *self,
