@fn Leaf::new
@ret r
@spec
ensures r.an() =~= (AN { leaf: true, its: items@, kids: Seq::<S::Node>::empty(), par: parent }),

@fn Leaf::from_item
@ret r
@spec
ensures r.an() =~= (AN { leaf: true, its: seq![item], kids: Seq::<S::Node>::empty(), par: parent }),
@at exit
assert(r.an().its =~= seq![item]);

@drop Leaf::iter std::slice::Iter is returned as such

@fn Leaf::parent
@ret r
@spec
ensures r == self.an().par,

@fn Leaf::set_parent
@spec
ensures final(self).an() =~= (AN { par: p, ..old(self).an() }),

@fn Leaf::item_count
@ret r
@spec
ensures r == self.an().its.len(),

@fn Leaf::items
@ret r
@spec
ensures r@ == self.an().its,

@fn Leaf::get
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Some(x) => exists|i: int| #[trigger] gap_res(cmp, self.an().its, key, true, i) && *x == self.an().its[i],
        None => exists|i: int| #[trigger] gap_res(cmp, self.an().its, key, false, i),
    },
@at entry
proof { assert(self.an().its == self.items@); }


@fn Leaf::get_mut
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Some(x) => exists|i: int| #[trigger] gap_res(cmp, old(self).an().its, key, true, i) && *x == old(self).an().its[i]
            && final(self).an() =~= (AN { its: old(self).an().its.update(i, *final(x)), ..old(self).an() }),
        None => final(self).an() == old(self).an() && exists|i: int| #[trigger] gap_res(cmp, old(self).an().its, key, false, i),
    },
@at entry
proof { assert(self.an().its == self.items@); }


@fn Leaf::offset_of
@ret r
@spec
requires cmp_ok(cmp, key),
ensures
    match r {
        Ok(o) => gap_res(cmp, self.an().its, key, true, o.v()),
        Err(o) => gap_res(cmp, self.an().its, key, false, o.v()),
    },
@at entry
broadcast use axiom_array_len;

@fn Leaf::item
@ret r
@spec
ensures
    match r {
        Some(x) => 0 <= offset.v() < self.an().its.len() && *x == self.an().its[offset.v()],
        None => !(0 <= offset.v() < self.an().its.len()),
    },

@fn Leaf::item_mut
@ret r
@spec
ensures
    match r {
        Some(x) => 0 <= offset.v() < old(self).an().its.len() && *x == old(self).an().its[offset.v()]
            && final(self).an() =~= (AN { its: old(self).an().its.update(offset.v(), *final(x)), ..old(self).an() }),
        None => !(0 <= offset.v() < old(self).an().its.len()) && final(self).an() == old(self).an(),
    },

@fn Leaf::insert_by_key
@ret r
@spec
requires cmp_ok(cmp, &item), old(self).an().its.len() < cap(true),
ensures
    match r.1 {
        Some(x) => gap_res(cmp, old(self).an().its, &item, true, r.0.v()) && x == old(self).an().its[r.0.v()]
            && final(self).an() =~= (AN { its: old(self).an().its.update(r.0.v(), item), ..old(self).an() }),
        None => gap_res(cmp, old(self).an().its, &item, false, r.0.v())
            && final(self).an() =~= (AN { its: old(self).an().its.insert(r.0.v(), item), ..old(self).an() }),
    },
@at entry
broadcast use axiom_array_len;

@fn Leaf::split
@ret r
@spec
requires over(old(self).an()),
ensures
    split_ok(old(self).an(), final(self).an(), r.1, r.2.an(), r.0 as int),
@at entry
broadcast use axiom_array_len;

@fn Leaf::append
@ret r
@spec
requires old(self).an().its.len() + 1 + other.an().its.len() <= cap(true),
ensures
    r.v() == old(self).an().its.len(),
    final(self).an() =~= (AN { its: old(self).an().its.push(separator) + other.an().its, ..old(self).an() }),

@fn Leaf::push_left
@spec
requires old(self).an().its.len() < cap(true),
ensures final(self).an() =~= (AN { its: seq![item] + old(self).an().its, ..old(self).an() }),
@at exit
assert(final(self).an().its =~= seq![item] + old(self).an().its);

@fn Leaf::pop_left
@ret r
@spec
ensures
    match r {
        Ok(x) => old(self).an().its.len() > 0 && x == old(self).an().its[0]
            && final(self).an() =~= (AN { its: old(self).an().its.subrange(1, old(self).an().its.len() as int), ..old(self).an() })
            && !under(final(self).an()),
        Err(_) => final(self).an() == old(self).an() && no_spare(old(self).an()),
    },

@fn Leaf::push_right
@ret r
@spec
requires old(self).an().its.len() < cap(true),
ensures
    r.v() == old(self).an().its.len(),
    final(self).an() =~= (AN { its: old(self).an().its.push(item), ..old(self).an() }),

@fn Leaf::pop_right
@ret r
@spec
ensures
    match r {
        Ok((o, x)) => old(self).an().its.len() > 0 && o.v() == old(self).an().its.len() - 1 && x == old(self).an().its[o.v()]
            && final(self).an() =~= (AN { its: old(self).an().its.subrange(0, old(self).an().its.len() - 1), ..old(self).an() })
            && !under(final(self).an()),
        Err(_) => final(self).an() == old(self).an() && no_spare(old(self).an()),
    },
@at entry
broadcast use axiom_array_len;

@fn Leaf::balance
@ret r
@spec
ensures r == bal(self.an()),

@fn Leaf::is_overflowing
@ret r
@spec
ensures r == over(self.an()),

@fn Leaf::is_underflowing
@ret r
@spec
ensures r == under(self.an()),

@fn Leaf::insert
@spec
requires 0 <= offset.v() <= old(self).an().its.len(), old(self).an().its.len() < cap(true),
ensures final(self).an() =~= (AN { its: old(self).an().its.insert(offset.v(), item), ..old(self).an() }),

@fn Leaf::remove
@ret r
@spec
requires 0 <= offset.v() < old(self).an().its.len(),
ensures
    r == old(self).an().its[offset.v()],
    final(self).an() =~= (AN { its: old(self).an().its.remove(offset.v()), ..old(self).an() }),

@fn Leaf::remove_last
@ret r
@spec
requires 0 < old(self).an().its.len(),
ensures
    r == old(self).an().its[old(self).an().its.len() - 1],
    final(self).an() =~= (AN { its: old(self).an().its.subrange(0, old(self).an().its.len() - 1), ..old(self).an() }),
