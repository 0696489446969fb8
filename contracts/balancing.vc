@fn balancing::merge
@ret r
@spec
requires
    shaped(ah::<T, S>(*old(tree))),
    ah::<T, S>(*old(tree)).contains_key(id),
    !ah::<T, S>(*old(tree))[id].leaf,
    deficient_child_index < ah::<T, S>(*old(tree))[id].kids.len(),
    ah::<T, S>(*old(tree))[id].its.len() >= 1,
    ({
        let h = ah::<T, S>(*old(tree));
        let k = if deficient_child_index > 0 { deficient_child_index - 1 } else { 0int };
        let l = h[id].kids[k];
        let r = h[id].kids[k + 1];
        &&& h[l].its.len() + 1 + h[r].its.len() <= cap(h[l].leaf)
        &&& addr.node == r ==> addr.offset.v() >= 0
        &&& addr.offset.v() <= h[addr.node].its.len()
    }),
ensures
    ({
        let h = ah::<T, S>(*old(tree));
        let k = if deficient_child_index > 0 { deficient_child_index - 1 } else { 0int };
        &&& ah::<T, S>(*final(tree)) =~= h_merge(h, id, k)
        &&& aa(r.1) == a_merge(h, id, k, aa(addr))
        &&& r.0 == bal(h_merge(h, id, k)[id])
    }),
@at entry
broadcast use group_heap;
let ghost h0 = ah::<T, S>(*tree);
let ghost g0 = choose|g: Gh<S::Node, T>| shape(h0, g);
let ghost k = if deficient_child_index > 0 { deficient_child_index - 1 } else { 0int };
proof { S::node_eq(); lemma_merge_facts(h0, g0, id, k); }
@at before let right_node#0
let ghost h1 = ah::<T, S>(*tree);
@at after let right_node#0
let ghost h2 = ah::<T, S>(*tree);
let ghost rk = right_node.an().kids;
@loop 0
invariant
    rk == h0[right_id].kids,
    left_id == h0[id].kids[k],
    right_id == h0[id].kids[k + 1],
    h2 == h0.insert(id, AN { its: h0[id].its.remove(k), kids: h0[id].kids.remove(k + 1), ..h0[id] }).remove(right_id),
    viter.rest().len() <= rk.len(),
    viter.rest() =~= rk.subrange(rk.len() - viter.rest().len(), rk.len() as int),
    forall|j: int| 0 <= j < rk.len() ==> h2.contains_key(#[trigger] rk[j]),
    ah::<T, S>(*tree) =~= h_adopt(h2, rk.subrange(0, rk.len() - viter.rest().len()), left_id),
ensures
    viter.rest().len() == 0,
decreases viter.rest().len(),
@at loop 0 start
broadcast use group_heap;
let ghost n = rk.len() - viter.rest().len();
@at after call set_parent#0
proof {
    assert(rk.subrange(0, n + 1) =~= rk.subrange(0, n).push(rk[n]));
    lemma_adopt_one(h2, rk, n, left_id);
}
@at before let left_offset#0
proof {
    assert(rk.subrange(0, rk.len() as int) =~= rk);
    assert(ah::<T, S>(*tree).contains_key(left_id));
    assert(ah::<T, S>(*tree)[left_id] == h0[left_id]);
}
@at exit
proof {
    lemma_merge_code(h0, g0, id, k, ah::<T, S>(*tree));
}

@fn balancing::try_rotate_left
@ret r
@spec
requires
    shaped(ah::<T, S>(*old(tree))),
    ah::<T, S>(*old(tree)).contains_key(id),
    !ah::<T, S>(*old(tree))[id].leaf,
    deficient_child_index < ah::<T, S>(*old(tree))[id].kids.len(),
    ({
        let h = ah::<T, S>(*old(tree));
        let k = deficient_child_index as int;
        &&& h[h[id].kids[k]].its.len() < cap(h[h[id].kids[k]].leaf)
        &&& k + 1 < h[id].kids.len() && old(addr).node == h[id].kids[k + 1] ==> old(addr).offset.v() >= 0
        &&& old(addr).offset.v() <= h[old(addr).node].its.len()
    }),
ensures
    ({
        let h = ah::<T, S>(*old(tree));
        let k = deficient_child_index as int;
        if r {
            &&& k + 1 < h[id].kids.len()
            &&& h[h[id].kids[k + 1]].its.len() > min_items(true)
            &&& ah::<T, S>(*final(tree)) =~= h_rot_left(h, id, k)
            &&& aa(*final(addr)) == a_rot_left(h, id, k, aa(*old(addr)))
        } else {
            &&& ah::<T, S>(*final(tree)) =~= h
            &&& *final(addr) == *old(addr)
            &&& k + 1 < h[id].kids.len() ==> no_spare(h[h[id].kids[k + 1]])
        }
    }),
@at entry
broadcast use group_heap;
let ghost h0 = ah::<T, S>(*tree);
let ghost g0 = choose|g: Gh<S::Node, T>| shape(h0, g);
let ghost k = deficient_child_index as int;
proof {
    S::node_eq();
    assert(node_ok(h0, g0, id));
    lemma_kid(h0, g0, id, k);
    if k + 1 < h0[id].kids.len() { lemma_merge_facts(h0, g0, id, k); }
}
@at exit
proof {
    if r { lemma_rot_left_code(h0, g0, id, k, ah::<T, S>(*tree)); }
}

@fn balancing::try_rotate_right
@ret r
@spec
requires
    shaped(ah::<T, S>(*old(tree))),
    ah::<T, S>(*old(tree)).contains_key(id),
    !ah::<T, S>(*old(tree))[id].leaf,
    deficient_child_index < ah::<T, S>(*old(tree))[id].kids.len(),
    ({
        let h = ah::<T, S>(*old(tree));
        let k = deficient_child_index as int;
        &&& h[h[id].kids[k]].its.len() < cap(h[h[id].kids[k]].leaf)
        &&& k > 0 && old(addr).node == h[id].kids[k - 1] ==> old(addr).offset.v() < h[h[id].kids[k - 1]].its.len()
        &&& old(addr).node == h[id].kids[k] ==> old(addr).offset.v() >= 0
        &&& old(addr).offset.v() <= h[old(addr).node].its.len()
    }),
ensures
    ({
        let h = ah::<T, S>(*old(tree));
        let k = deficient_child_index as int;
        if r {
            &&& k > 0
            &&& h[h[id].kids[k - 1]].its.len() > min_items(true)
            &&& ah::<T, S>(*final(tree)) =~= h_rot_right(h, id, k - 1)
            &&& aa(*final(addr)) == a_rot_right(h, id, k - 1, aa(*old(addr)))
        } else {
            &&& ah::<T, S>(*final(tree)) =~= h
            &&& *final(addr) == *old(addr)
            &&& k > 0 ==> no_spare(h[h[id].kids[k - 1]])
        }
    }),
@at entry
hide(a_rot_right);
hide(h_rot_right);
broadcast use group_heap;
let ghost h0 = ah::<T, S>(*tree);
let ghost g0 = choose|g: Gh<S::Node, T>| shape(h0, g);
let ghost k = deficient_child_index as int;
proof {
    S::node_eq();
    assert(node_ok(h0, g0, id));
    lemma_kid(h0, g0, id, k);
    if k > 0 {
        lemma_merge_facts(h0, g0, id, k - 1);
        let l = h0[id].kids[k - 1];
        assert(node_ok(h0, g0, l));
        if !h0[l].leaf { lemma_kid(h0, g0, l, h0[l].its.len() as int); }
    }
}
@at exit
proof {
    if r {
        lemma_a_rotr(h0, g0, id, k - 1, aa(*old(addr)));
        assert(ah::<T, S>(*tree) =~= h_rotr_code(h0, id, k - 1));
        lemma_rot_right_code(h0, g0, id, k - 1, ah::<T, S>(*tree));
    }
}

@fn balancing::rebalance
@attr #[verifier::rlimit(100)]
@attr #[verifier::spinoff_prover]
@ret r
@spec
requires
    root is Some,
    ({
        let h = ah::<T, S>(*old(tree));
        let g = gh(h);
        &&& is_tree(h, root->0)
        &&& near(h, root->0, id)
        &&& sizes_but(h, root->0, id)
        &&& a_ok(h, aa(addr))
        &&& addr.offset.v() >= 0
        &&& a_item(h, aa(addr)) || at(h, addr) >= (g.st)(id)
    }),
ensures
    rebal_post(ah::<T, S>(*final(tree)), r.0, r.1, tv(ah::<T, S>(*old(tree)), root), at(ah::<T, S>(*old(tree)), addr), a_item(ah::<T, S>(*old(tree)), aa(addr))),
@at entry
broadcast use group_heap;
let ghost h0 = ah::<T, S>(*tree);
let ghost mut g = gh(h0);
let ghost s = g.s;
let ghost q = at(h0, addr);
let ghost item = a_item(h0, aa(addr));
proof { S::node_eq(); }
@loop 0
invariant_except_break
    rebal_inv(ah::<T, S>(*tree), g, root, id, addr, s, q, item),
    balance == bal(ah::<T, S>(*tree)[id]),
ensures
    rebal_post(ah::<T, S>(*tree), root, vbrk0, s, q, item),
decreases (g.ht)(g.root) - (g.ht)(id),
@at loop 0 start
broadcast use group_heap;
let ghost h = ah::<T, S>(*tree);
let ghost id0 = id;
let ghost addr0 = addr;
proof {
    S::node_eq();
    assert(node_ok(h, g, id));
    assert(node_ok(h, g, g.root));
    if h[id].par is Some { lemma_up(h, g, id); }
    if h[id].par is None && h[id].its.len() == 0 && !h[id].leaf { lemma_kid(h, g, id, 0); }
    if !over(h[id]) && (!under(h[id]) || (h[id].par is None && h[id].its.len() > 0)) {
        lemma_rebal_balanced(h, g, root, id, addr, s, q, item);
    }
}
@at after let (median_offset,median,right_node)#0
let ghost nl = ah::<T, S>(*tree)[id];
let ghost nr = right_node.an();
proof { lemma_split_parts(h, g, id, nl, median, nr); }
@at after let right_id#0
proof {
    assert(!nr.kids.contains(id));
    assert(h[id].par is Some ==> !nr.kids.contains(h[id].par->0));
    assert(ah::<T, S>(*tree)[id] == nl);
    if h[id].par is Some {
        assert(ah::<T, S>(*tree)[h[id].par->0] == h[h[id].par->0]);
        assert(size_ok(h, g.root, h[id].par->0));
    }
}
let ghost hr = ah::<T, S>(*tree);
@at after assign balance#0
proof {
    lemma_index(h, g, id0, Some(offset.0));
    lemma_rebal_split(h, g, root, id0, addr0, s, q, item, parent_id, offset.v(), nl, median, nr, right_id, addr);
    assert(ah::<T, S>(*tree) =~= h_split_code(h, id0, parent_id, offset.v(), nl, median, nr, right_id));
    g = g_split(h, g, id0, nl.its.len() as int, parent_id, offset.v(), right_id);
}
@at after let root_id#0
proof {
    let ks = seq![id, right_id];
    assert(ks[0] == id && ks[1] == right_id);
    assert(hr.contains_key(id) && hr.contains_key(right_id));
    assert(ah::<T, S>(*tree) =~= h_split_root_code(h, id0, nl, median, nr, right_id, root_id));
}
@at before break#1
proof {
    assert(ah::<T, S>(*tree) =~= h_split_root_code(h, id0, nl, median, nr, right_id, root_id));
    lemma_rebal_root(h, g, Some(g.root), id0, addr0, s, q, item, nl, median, nr, right_id, root_id, addr);
}
@at after let index#0
proof {
    lemma_index(h, g, id, Some(index));
    assert(size_ok(h, g.root, parent_id));
    if index > 0 { lemma_kid(h, g, parent_id, index - 1); lemma_gp_bounds(h, g, aa(addr)); }
}
@at before break#2
proof {
    let left = index + 1 < h[parent_id].kids.len() && h[h[parent_id].kids[index + 1]].its.len() > min_items(true);
    lemma_rebal_rotate(h, g, root, id0, addr0, s, q, item, parent_id, index as int, left, addr);
}
@at after assign balance#1
proof {
    lemma_rebal_merge(h, g, root, id0, addr0, s, q, item, parent_id, index as int, new_addr);
    g = g_merge(h, g, parent_id, if index > 0 { index - 1 } else { 0 });
}
@at before break#3
proof {
    if is_empty {
        if h[id0].leaf { lemma_rebal_empty(h, g, Some(g.root), id0, addr0, s, q, item); }
        else {
            let c = h[id0].kids[0];
            lemma_rebal_collapse(h, g, Some(g.root), id0, addr0, s, q, item, addr->0);
            assert(ah::<T, S>(*tree) =~= h_collapse(h, id0));
        }
    }
}
