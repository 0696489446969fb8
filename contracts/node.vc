@fn Node::binary
@ret r
@spec
ensures r.an() =~= (AN { leaf: false, its: seq![median], kids: seq![left_id, right_id], par: parent }),

@fn Node::leaf
@ret r
@spec
ensures r.an() =~= (AN { leaf: true, its: seq![item], kids: Seq::<S::Node>::empty(), par: parent }),

@fn Node::balance
@ret r
@spec
ensures r == bal(self.an()),

@fn Node::is_underflowing
@ret r
@spec
ensures r == under(self.an()),

@fn Node::is_overflowing
@ret r
@spec
ensures r == over(self.an()),

@fn Node::parent
@ret r
@spec
ensures r == self.an().par,

@fn Node::set_parent
@spec
ensures final(self).an() =~= (AN { par: p, ..old(self).an() }),

@fn Node::item_count
@ret r
@spec
ensures r == self.an().its.len(),

@fn Node::child_count
@ret r
@spec
ensures r == self.an().kids.len(),

@fn Node::child_index
@ret r
@spec
ensures index_res(self.an().kids, id, r),

@fn Node::child_id
@ret r
@spec
requires index < self.an().kids.len(),
ensures r == self.an().kids[index as int],

@fn Node::child_id_opt
@ret r
@spec
ensures r == (if index < self.an().kids.len() { Some(self.an().kids[index as int]) } else { None }),

@fn Node::get
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Ok(Some(x)) => exists|i: int| #[trigger] gap_res(cmp, self.an().its, key, true, i) && *x == self.an().its[i],
        Ok(None) => self.an().leaf && exists|i: int| #[trigger] gap_res(cmp, self.an().its, key, false, i),
        Err(c) => !self.an().leaf && exists|i: int| #[trigger] gap_res(cmp, self.an().its, key, false, i) && c == self.an().kids[i],
    },

@fn Node::get_mut
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Ok(Some(x)) => exists|i: int| #[trigger] gap_res(cmp, old(self).an().its, key, true, i) && *x == old(self).an().its[i]
            && final(self).an() =~= (AN { its: old(self).an().its.update(i, *final(x)), ..old(self).an() }),
        Ok(None) => old(self).an().leaf && final(self).an() == old(self).an() && exists|i: int| #[trigger] gap_res(cmp, old(self).an().its, key, false, i),
        Err(c) => !old(self).an().leaf && exists|i: int| #[trigger] gap_res(cmp, old(self).an().its, key, false, i) && *c == old(self).an().kids[i]
            && final(self).an() =~= (AN { kids: old(self).an().kids.update(i, *final(c)), ..old(self).an() }),
    },

@fn Node::offset_of
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Ok(o) => gap_res(cmp, self.an().its, key, true, o.v()),
        Err((i, None)) => self.an().leaf && gap_res(cmp, self.an().its, key, false, i as int),
        Err((i, Some(c))) => !self.an().leaf && gap_res(cmp, self.an().its, key, false, i as int) && c == self.an().kids[i as int],
    },

@fn Node::item
@ret r
@spec
ensures
    match r {
        Some(x) => 0 <= offset.v() < self.an().its.len() && *x == self.an().its[offset.v()],
        None => !(0 <= offset.v() < self.an().its.len()),
    },

@fn Node::item_mut
@ret r
@spec
ensures
    match r {
        Some(x) => 0 <= offset.v() < old(self).an().its.len() && *x == old(self).an().its[offset.v()]
            && final(self).an() =~= (AN { its: old(self).an().its.update(offset.v(), *final(x)), ..old(self).an() }),
        None => !(0 <= offset.v() < old(self).an().its.len()) && final(self).an() == old(self).an(),
    },

@fn Node::insert_by_key
@ret r
@spec
requires cmp_ok(cmp, &item), old(self).an().leaf ==> old(self).an().its.len() < cap(true),
ensures
    match r {
        Ok((o, Some(x))) => gap_res(cmp, old(self).an().its, &item, true, o.v()) && x == old(self).an().its[o.v()]
            && final(self).an() =~= (AN { its: old(self).an().its.update(o.v(), item), ..old(self).an() }),
        Ok((o, None)) => old(self).an().leaf && gap_res(cmp, old(self).an().its, &item, false, o.v())
            && final(self).an() =~= (AN { its: old(self).an().its.insert(o.v(), item), ..old(self).an() }),
        Err(e) => !old(self).an().leaf && gap_res(cmp, old(self).an().its, &item, false, e.child_offset as int)
            && e.item == item && e.child_id == old(self).an().kids[e.child_offset as int]
            && final(self).an() == old(self).an(),
    },

@fn Node::split
@ret r
@spec
requires over(old(self).an()),
ensures
    split_ok(old(self).an(), final(self).an(), r.1, r.2.an(), r.0 as int),

@fn Node::merge
@ret r
@spec
requires !old(self).an().leaf, left_index < old(self).an().its.len(),
ensures
    r.0 == left_index,
    r.1 == old(self).an().kids[left_index as int],
    r.2 == old(self).an().kids[left_index + 1],
    r.3 == old(self).an().its[left_index as int],
    final(self).an() =~= (AN { its: old(self).an().its.remove(left_index as int), kids: old(self).an().kids.remove(left_index + 1), ..old(self).an() }),
    r.4 == bal(final(self).an()),

@fn Node::append
@ret r
@spec
requires old(self).an().leaf == other.an().leaf, old(self).an().its.len() + 1 + other.an().its.len() <= cap(other.an().leaf),
ensures
    r.v() == old(self).an().its.len(),
    final(self).an() =~= (AN { its: old(self).an().its.push(separator) + other.an().its, kids: old(self).an().kids + other.an().kids, ..old(self).an() }),
@at exit
assert(final(self).an().kids =~= old(self).an().kids + other.an().kids);

@fn Node::push_left
@spec
requires old(self).an().its.len() < cap(old(self).an().leaf), !old(self).an().leaf ==> opt_child_id is Some,
ensures final(self).an() =~= (AN { its: seq![item] + old(self).an().its,
    kids: if old(self).an().leaf { Seq::empty() } else { seq![opt_child_id->0] + old(self).an().kids }, ..old(self).an() }),

@fn Node::pop_left
@ret r
@spec
ensures
    match r {
        Ok((x, oc)) => old(self).an().its.len() > 0 && x == old(self).an().its[0]
            && oc == (if old(self).an().leaf { None } else { Some(old(self).an().kids[0]) })
            && final(self).an() =~= (AN {
                its: old(self).an().its.subrange(1, old(self).an().its.len() as int),
                kids: if old(self).an().leaf { Seq::empty() } else { old(self).an().kids.subrange(1, old(self).an().kids.len() as int) }, ..old(self).an() })
            && !under(final(self).an()),
        Err(_) => final(self).an() == old(self).an() && no_spare(old(self).an()),
    },

@fn Node::push_right
@ret r
@spec
requires old(self).an().its.len() < cap(old(self).an().leaf), !old(self).an().leaf ==> opt_child_id is Some,
ensures
    r.v() == old(self).an().its.len(),
    final(self).an() =~= (AN { its: old(self).an().its.push(item),
        kids: if old(self).an().leaf { Seq::empty() } else { old(self).an().kids.push(opt_child_id->0) }, ..old(self).an() }),

@fn Node::pop_right
@ret r
@spec
ensures
    match r {
        Ok((o, x, oc)) => old(self).an().its.len() > 0 && o.v() == old(self).an().its.len() - 1 && x == old(self).an().its[o.v()]
            && oc == (if old(self).an().leaf { None } else { Some(old(self).an().kids[o.v() + 1]) })
            && final(self).an() =~= (AN {
                its: old(self).an().its.subrange(0, old(self).an().its.len() - 1),
                kids: if old(self).an().leaf { Seq::empty() } else { old(self).an().kids.subrange(0, old(self).an().kids.len() - 1) }, ..old(self).an() })
            && !under(final(self).an()),
        Err(_) => final(self).an() == old(self).an() && no_spare(old(self).an()),
    },

@fn Node::leaf_remove
@ret r
@spec
ensures
    match r {
        None => !(0 <= offset.v() < old(self).an().its.len()) && final(self).an() == old(self).an(),
        Some(Ok(x)) => old(self).an().leaf && 0 <= offset.v() < old(self).an().its.len() && x == old(self).an().its[offset.v()]
            && final(self).an() =~= (AN { its: old(self).an().its.remove(offset.v()), ..old(self).an() }),
        Some(Err(c)) => !old(self).an().leaf && 0 <= offset.v() < old(self).an().its.len() && c == old(self).an().kids[offset.v()]
            && final(self).an() == old(self).an(),
    },
@at entry
broadcast use axiom_array_len;

@fn Node::remove_rightmost_leaf
@ret r
@spec
requires old(self).an().leaf ==> old(self).an().its.len() > 0,
ensures
    match r {
        Ok(x) => old(self).an().leaf && x == old(self).an().its[old(self).an().its.len() - 1]
            && final(self).an() =~= (AN { its: old(self).an().its.subrange(0, old(self).an().its.len() - 1), ..old(self).an() }),
        Err(c) => !old(self).an().leaf && c == old(self).an().kids[old(self).an().kids.len() - 1] && final(self).an() == old(self).an(),
    },

@fn Node::insert
@spec
requires 0 <= offset.v() <= old(self).an().its.len(), old(self).an().its.len() < cap(old(self).an().leaf),
    !old(self).an().leaf ==> opt_right_child_id is Some,
ensures final(self).an() =~= (AN { its: old(self).an().its.insert(offset.v(), item),
    kids: if old(self).an().leaf { Seq::empty() } else { old(self).an().kids.insert(offset.v() + 1, opt_right_child_id->0) }, ..old(self).an() }),

@fn Node::replace
@ret r
@spec
requires !old(self).an().leaf, 0 <= offset.v() < old(self).an().its.len(),
ensures
    r == old(self).an().its[offset.v()],
    final(self).an() =~= (AN { its: old(self).an().its.update(offset.v(), item), ..old(self).an() }),

@fn Node::separators
@ret r
@spec
requires self.an().leaf || i < self.an().kids.len(),
ensures !self.an().leaf ==> sep_res(self.an().its, i as int, r), self.an().leaf ==> r.0 is None && r.1 is None,

@fn Node::children
@ret r
@spec
ensures r.rest() =~= self.an().kids,
@at entry
proof { reveal(Children::rest); }

@fn Node::children_with_separators
@ret r
@spec
ensures r.rest() =~= cws(self.an()),

@inherent Children::Iterator
@inherent ChildrenWithSeparators::Iterator

@fn Children::next
@ret r
@spec
ensures
    match r {
        Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0]
            && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
        None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
    },
@at entry
proof { reveal(Children::rest); }

@fn ChildrenWithSeparators::next
@ret r
@spec
ensures
    match r {
        Some(c) => old(self).rest().len() > 0 && (oval(c.0), c.1, oval(c.2)) == old(self).rest()[0]
            && final(self).rest() =~= old(self).rest().subrange(1, old(self).rest().len() as int),
        None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
    },

@at entry
let ghost s0 = *self;
@at exit
proof {
    match s0 {
        ChildrenWithSeparators::Internal(f0, l0, i0) => { lemma_cw_next::<T, S>(f0, oval(l0), i0.rest()); }
        ChildrenWithSeparators::Leaf => {}
    }
}
