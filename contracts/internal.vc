@drop Branch::AsRef

@fn Internal::new
@ret r
@spec
ensures r.an() =~= (AN { leaf: false, its: its_of::<T, S>(other_children@), kids: kids_of::<T, S>(first_child, other_children@), par: parent }),

@fn Internal::binary
@ret r
@spec
ensures r.an() =~= (AN { leaf: false, its: seq![median], kids: seq![left_id, right_id], par: parent }),
@at exit
assert(r.an().its =~= seq![median]);
assert(r.an().kids =~= seq![left_id, right_id]);

@fn Internal::balance
@ret r
@spec
ensures r == bal(self.an()),

@fn Internal::is_overflowing
@ret r
@spec
ensures r == over(self.an()),

@fn Internal::is_underflowing
@ret r
@spec
ensures r == under(self.an()),

@fn Internal::parent
@ret r
@spec
ensures r == self.an().par,

@fn Internal::set_parent
@spec
ensures final(self).an() =~= (AN { par: p, ..old(self).an() }),

@fn Internal::item_count
@ret r
@spec
ensures r == self.an().its.len(),

@fn Internal::child_count
@ret r
@spec
ensures r == self.an().kids.len(),
@at entry
broadcast use axiom_array_len;

@fn Internal::first_child_id
@ret r
@spec
ensures r == self.an().kids[0],

@fn Internal::branches
@ret r
@spec
ensures r@ == self.other_children@,

@fn Internal::child_index
@ret r
@spec
ensures index_res(self.an().kids, id, r),
@loop 0
invariant
    self.an().kids.len() <= M + 1,
    <S::Node as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec(),
    forall|a: S::Node, b: S::Node| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) <==> a == b,
    forall|j: int| 0 <= j <= i ==> self.an().kids[j] != id,
@at entry
proof { S::node_eq(); }
broadcast use axiom_array_len;

@fn Internal::child_id
@ret r
@spec
requires index < self.an().kids.len(),
ensures r == self.an().kids[index as int],

@fn Internal::child_id_opt
@ret r
@spec
ensures r == (if index < self.an().kids.len() { Some(self.an().kids[index as int]) } else { None }),

@fn Internal::separators
@ret r
@spec
requires index < self.an().kids.len(),
ensures sep_res(self.an().its, index as int, r),

@fn Internal::get
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Ok(x) => exists|i: int| #[trigger] gap_res(cmp, self.an().its, key, true, i) && *x == self.an().its[i],
        Err(c) => exists|i: int| #[trigger] gap_res(cmp, self.an().its, key, false, i) && c == self.an().kids[i],
    },
@closure 0
|$0: &Branch<T, S>, $1: &Q| -> (o: Ordering) requires cmp_ok(cmp, $1) ensures cmps(cmp, $0.item, $1, o)
@at entry
broadcast use axiom_array_len;
@at arm Some((offset,eq))#0
proof { 
  if eq { assert(gap_res(cmp, self.an().its, key, true, offset as int)); } else { assert(gap_res(cmp, self.an().its, key, false, offset + 1)); }
}
@at arm None#0
proof { assert(gap_res(cmp, self.an().its, key, false, 0)); }

@fn Internal::get_mut
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Ok(x) => exists|i: int| #[trigger] gap_res(cmp, old(self).an().its, key, true, i) && *x == old(self).an().its[i]
            && final(self).an() =~= (AN { its: old(self).an().its.update(i, *final(x)), ..old(self).an() }),
        Err(c) => exists|i: int| #[trigger] gap_res(cmp, old(self).an().its, key, false, i) && *c == old(self).an().kids[i]
            && final(self).an() =~= (AN { kids: old(self).an().kids.update(i, *final(c)), ..old(self).an() }),
    },
@closure 0
|$0: &Branch<T, S>, $1: &Q| -> (o: Ordering) requires cmp_ok(cmp, $1) ensures cmps(cmp, $0.item, $1, o)
@at entry
broadcast use axiom_array_len;
@at arm Some((offset,eq))#0
proof { 
  if eq { assert(gap_res(cmp, old(self).an().its, key, true, offset as int)); } else { assert(gap_res(cmp, old(self).an().its, key, false, offset + 1)); }
}
@at arm None#0
proof { assert(gap_res(cmp, old(self).an().its, key, false, 0)); }

@fn Internal::offset_of
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Ok(o) => gap_res(cmp, self.an().its, key, true, o.v()),
        Err((i, c)) => gap_res(cmp, self.an().its, key, false, i as int) && c == self.an().kids[i as int],
    },
@closure 0
|$0: &Branch<T, S>, $1: &Q| -> (o: Ordering) requires cmp_ok(cmp, $1) ensures cmps(cmp, $0.item, $1, o)
@at entry
broadcast use axiom_array_len;

@fn Internal::children
@ret r
@spec
ensures r.rest() =~= self.an().kids,
@at entry
proof { reveal(Children::rest); }

@fn Internal::children_with_separators
@ret r
@spec
ensures r.rest() =~= cws(self.an()),

@fn Internal::item
@ret r
@spec
ensures
    match r {
        Some(x) => 0 <= offset.v() < self.an().its.len() && *x == self.an().its[offset.v()],
        None => !(0 <= offset.v() < self.an().its.len()),
    },

@fn Internal::item_mut
@ret r
@spec
ensures
    match r {
        Some(x) => 0 <= offset.v() < old(self).an().its.len() && *x == old(self).an().its[offset.v()]
            && final(self).an() =~= (AN { its: old(self).an().its.update(offset.v(), *final(x)), ..old(self).an() }),
        None => !(0 <= offset.v() < old(self).an().its.len()) && final(self).an() == old(self).an(),
    },

@fn Internal::insert_by_key
@ret r
@spec
requires cmp_ok(cmp, &item),
ensures
    match r {
        Ok((o, x)) => gap_res(cmp, old(self).an().its, &item, true, o.v()) && x == old(self).an().its[o.v()]
            && final(self).an() =~= (AN { its: old(self).an().its.update(o.v(), item), ..old(self).an() }),
        Err(e) => gap_res(cmp, old(self).an().its, &item, false, e.child_offset as int)
            && e.item == item && e.child_id == old(self).an().kids[e.child_offset as int]
            && final(self).an() == old(self).an(),
    },
@closure 0
|$0: &Branch<T, S>, $1: &T| -> (o: Ordering) requires cmp_ok(cmp, $1) ensures cmps(cmp, $0.item, $1, o)
@at entry
broadcast use axiom_array_len;

@fn Internal::insert
@spec
requires 0 <= offset.v() <= old(self).an().its.len(), old(self).an().its.len() < cap(false),
ensures final(self).an() =~= (AN { its: old(self).an().its.insert(offset.v(), item), kids: old(self).an().kids.insert(offset.v() + 1, right_node_id), ..old(self).an() }),
@at exit
assert(final(self).an().its =~= old(self).an().its.insert(offset.v(), item));
assert(final(self).an().kids =~= old(self).an().kids.insert(offset.v() + 1, right_node_id));

@fn Internal::replace
@ret r
@spec
requires 0 <= offset.v() < old(self).an().its.len(),
ensures
    r == old(self).an().its[offset.v()],
    final(self).an() =~= (AN { its: old(self).an().its.update(offset.v(), item), ..old(self).an() }),

@fn Internal::remove
@ret r
@spec
requires 0 <= offset.v() < old(self).an().its.len(),
ensures
    r.0 == old(self).an().kids[offset.v()],
    r.1 == old(self).an().its[offset.v()],
    r.2 == old(self).an().kids[offset.v() + 1],
    final(self).an() =~= (AN { its: old(self).an().its.remove(offset.v()), kids: old(self).an().kids.remove(offset.v() + 1), ..old(self).an() }),

@fn Internal::split
@ret r
@spec
requires over(old(self).an()),
ensures
    split_ok(old(self).an(), final(self).an(), r.1, r.2.an(), r.0 as int),
@at entry
broadcast use axiom_array_len;

@fn Internal::merge
@ret r
@spec
requires left_index < old(self).an().its.len(),
ensures
    r.0 == left_index,
    r.1 == old(self).an().kids[left_index as int],
    r.2 == old(self).an().kids[left_index + 1],
    r.3 == old(self).an().its[left_index as int],
    final(self).an() =~= (AN { its: old(self).an().its.remove(left_index as int), kids: old(self).an().kids.remove(left_index + 1), ..old(self).an() }),
    r.4 == bal(final(self).an()),

@fn Internal::push_left
@spec
requires old(self).an().its.len() < cap(false),
ensures final(self).an() =~= (AN { its: seq![item] + old(self).an().its, kids: seq![child_id] + old(self).an().kids, ..old(self).an() }),

@fn Internal::pop_left
@ret r
@spec
ensures
    match r {
        Ok((x, c)) => old(self).an().its.len() > 0 && x == old(self).an().its[0] && c == old(self).an().kids[0]
            && final(self).an() =~= (AN {
                its: old(self).an().its.subrange(1, old(self).an().its.len() as int),
                kids: old(self).an().kids.subrange(1, old(self).an().kids.len() as int), ..old(self).an() })
            && !under(final(self).an()),
        Err(_) => final(self).an() == old(self).an() && no_spare(old(self).an()),
    },

@fn Internal::push_right
@ret r
@spec
requires old(self).an().its.len() < cap(false),
ensures
    r.v() == old(self).an().its.len(),
    final(self).an() =~= (AN { its: old(self).an().its.push(item), kids: old(self).an().kids.push(child_id), ..old(self).an() }),
@at exit
assert(final(self).an().its =~= old(self).an().its.push(item));
assert(final(self).an().kids =~= old(self).an().kids.push(child_id));

@fn Internal::pop_right
@ret r
@spec
ensures
    match r {
        Ok(b) => old(self).an().its.len() > 0 && b.offset.v() == old(self).an().its.len() - 1
            && b.item == old(self).an().its[b.offset.v()] && b.child == old(self).an().kids[b.offset.v() + 1]
            && final(self).an() =~= (AN {
                its: old(self).an().its.subrange(0, old(self).an().its.len() - 1),
                kids: old(self).an().kids.subrange(0, old(self).an().kids.len() - 1), ..old(self).an() })
            && !under(final(self).an()),
        Err(_) => final(self).an() == old(self).an() && no_spare(old(self).an()),
    },
@at entry
broadcast use axiom_array_len;

@fn Internal::append
@ret r
@spec
requires old(self).an().its.len() + 1 + other.an().its.len() <= cap(false),
ensures
    r.v() == old(self).an().its.len(),
    final(self).an() =~= (AN { its: old(self).an().its.push(separator) + other.an().its, kids: old(self).an().kids + other.an().kids, ..old(self).an() }),
