//! Read-only questions about a tree, each answered from the dump.
use crate::ck;
use crate::hist::{fail, Dump, Run, R};
use crate::store::Kit;
use crate::tok::{cmp, cmpk, It, Tok};
use raw_btree::{node::Offset, Address, Node, RawBTree};
use std::cell::RefCell;

fn it(t: &Tok) -> It {
    t.view()
}

/// Lookups (C02).
pub fn lookups<S: Kit>(t: &RawBTree<Tok, S>, d: &Dump<S>, m: &[It]) -> R<u64> {
    let mut keys: Vec<i64> = m.iter().map(|x| x.key).collect();
    let n = keys.len();
    for i in 0..=n {
        let lo = if i == 0 { None } else { Some(m[i - 1].key) };
        let hi = m.get(i).map(|x| x.key);
        let k = match (lo, hi) {
            (None, None) => 3,
            (None, Some(h)) => h - 1,
            (Some(l), None) => l + 1,
            (Some(l), Some(h)) if h - l >= 2 => l + (h - l) / 2,
            _ => continue,
        };
        keys.push(k);
    }
    let al = d.addrs();
    for k in &keys {
        let rank = m.partition_point(|x| x.key < *k);
        let exp = m.get(rank).filter(|x| x.key == *k).copied();
        let g = t.get(cmpk, k).map(it);
        ck!(&["C02"], g == exp, "get({}) is {:?}, expected {:?}", k, g, exp);
        match t.address_of(cmpk, k) {
            Ok(a) => {
                let g = unsafe { t.get_at(a) }.map(it);
                ck!(&["C02"], exp.is_some() && g == exp, "address_of({}) is {:?}, which holds {:?}, expected {:?}", k, a, g, exp)
            }
            Err(None) => ck!(&["C02"], m.is_empty(), "address_of({}) gives no address in a tree of {}", k, n),
            Err(Some(a)) => {
                ck!(&["C02"], exp.is_none(), "address_of({}) does not find {:?}", k, exp);
                match al.iter().find(|x| x.0 == a) {
                    None => return fail(&["C02"], format!("address_of({}) gives {:?}, which is no valid address", k, a)),
                    Some((_, _, p)) => ck!(&["C02"], *p == rank, "address_of({}) gives {:?}, at position {}, but the key belongs at {}", k, a, p, rank),
                }
                ck!(&["C02"], d.nodes.iter().any(|x| x.leaf && x.id == a.node), "address_of({}) gives {:?}, not in a leaf", k, a);
            }
        }
    }
    Ok(keys.len() as u64)
}

/// Steps to the next and previous item (C08).
pub fn steps<S: Kit>(t: &RawBTree<Tok, S>, d: &Dump<S>, m: &[It]) -> R<u64> {
    let al = d.addrs();
    let n = m.len();
    let item = |i: usize| if i < n { Some(al[i].0) } else { None };
    let mut all: Vec<(Address<S::Node>, bool, usize)> = al.clone();
    for (a, p) in d.befores() {
        all.push((a, false, p));
    }
    for (a, is_item, p) in &all {
        let (nx, pv) = unsafe { (t.next_item_address(*a), t.previous_item_address(*a)) };
        let en = if *is_item { item(p + 1) } else { item(*p) };
        let ep = if *p == 0 { None } else { item(p - 1) };
        ck!(&["C08"], nx == en, "next_item_address({:?}) at position {} is {:?}, expected {:?}", a, p, nx, en);
        ck!(&["C08"], pv == ep, "previous_item_address({:?}) at position {} is {:?}, expected {:?}", a, p, pv, ep);
        let g = unsafe { t.get_at(*a) }.map(it);
        let eg = if *is_item { Some(m[*p]) } else { None };
        ck!(&["C08"], g == eg, "get_at({:?}) is {:?}, expected {:?}", a, g, eg);
    }
    Ok(all.len() as u64)
}

/// The gap walks, normalization and leaf addresses (C09).
pub fn gaps<S: Kit>(t: &RawBTree<Tok, S>, d: &Dump<S>, m: &[It]) -> R<u64> {
    let al = d.addrs();
    let n = m.len();
    let item = |i: usize| if i < n { Some(al[i].0) } else { None };
    let b = d.backs();
    for i in 0..b.len() {
        let r = unsafe { t.next_back_address(b[i]) };
        ck!(&["C09"], r == b.get(i + 1).copied(), "next_back_address({:?}) is {:?}, expected {:?}", b[i], r, b.get(i + 1));
    }
    let f = d.fronts();
    for i in 0..f.len() {
        let r = unsafe { t.previous_front_address(f[i]) };
        let e = if i == 0 { None } else { Some(f[i - 1]) };
        ck!(&["C09"], r == e, "previous_front_address({:?}) is {:?}, expected {:?}", f[i], r, e);
    }
    // the same steps from an address of the other kind
    for (a, p) in d.befores() {
        let r = unsafe { t.next_back_address(a) };
        ck!(&["C09"], r.is_some() && al.iter().any(|x| Some(x.0) == r && x.1 && x.2 == p), "next_back_address({:?}) is {:?}, expected the item {}", a, r, p);
        let r = unsafe { t.next_item_or_back_address(a) };
        ck!(&["C09"], r == item(p), "next_item_or_back_address({:?}) is {:?}, expected {:?}", a, r, item(p));
    }
    for (a, is_item, p) in &al {
        let r = unsafe { t.normalize(*a) };
        let e = if *is_item { Some(*a) } else { item(*p) };
        ck!(&["C09"], r == e, "normalize({:?}) is {:?}, expected {:?}", a, r, e);
        let l = unsafe { t.leaf_address(*a) };
        match al.iter().find(|x| x.0 == l) {
            None => return fail(&["C09"], format!("leaf_address({:?}) is {:?}, no valid address", a, l)),
            Some((_, _, q)) => ck!(&["C09"], q == p, "leaf_address({:?}) is {:?}, at position {}, not {}", a, l, q, p),
        }
        let ln = d.nodes.iter().find(|x| x.id == l.node).unwrap();
        ck!(&["C09"], ln.leaf, "leaf_address({:?}) is {:?}, not in a leaf", a, l);
        if d.nodes.iter().any(|x| x.leaf && x.id == a.node) {
            ck!(&["C09"], l == *a, "leaf_address({:?}) is {:?}", a, l);
        }
        if !*is_item {
            let r = unsafe { t.previous_front_address(*a) };
            // the last front address of the node
            let k = d.nodes.iter().position(|x| x.id == a.node).unwrap();
            let last = last_front(d, k);
            ck!(&["C09"], r == Some(last), "previous_front_address({:?}) is {:?}, expected {:?}", a, r, last);
        }
        let r = unsafe { t.next_item_or_back_address(*a) };
        let e = if *is_item { item(p + 1) } else { item(*p) };
        match e {
            Some(e) => ck!(&["C09"], r == Some(e), "next_item_or_back_address({:?}) is {:?}, expected {:?}", a, r, e),
            None => ck!(
                &["C09"],
                al.iter().any(|x| Some(x.0) == r && !x.1 && x.2 == n),
                "next_item_or_back_address({:?}) is {:?}, expected a back address after the last item",
                a,
                r
            ),
        }
    }
    Ok(3 * al.len() as u64)
}

fn last_front<S: Kit>(d: &Dump<S>, k: usize) -> Address<S::Node> {
    let x = &d.nodes[k];
    if x.leaf {
        if x.items.is_empty() {
            Address::new(x.id, Offset::before())
        } else {
            Address::new(x.id, (x.items.len() - 1).into())
        }
    } else {
        last_front(d, *x.kids.last().unwrap())
    }
}

/// Shared iteration (C06).
pub fn iters<S: Kit>(t: &RawBTree<Tok, S>, m: &[It], rng: &mut crate::tok::Rng) -> R<u64> {
    let n = m.len();
    let all: Vec<It> = t.iter().map(it).collect();
    ck!(&["C06"], all == m, "iter() yields {:?}, expected {:?}", all, m);
    let all: Vec<It> = t.into_iter().rev().map(it).collect();
    ck!(&["C06"], all.len() == n && all.iter().rev().eq(m.iter()), "iter().rev() yields {:?}, expected the reverse of {:?}", all, m);
    let exhaustive = n <= 5;
    let pats = if exhaustive { 1u64 << (n + 2) } else { 12 };
    for p in 0..pats {
        let mut iter = t.iter();
        let (mut f, mut b) = (0, n);
        let seed = rng.next();
        let mut k = 0;
        let mut end = 0;
        loop {
            ck!(&["C06"], iter.size_hint() == (b - f, Some(b - f)) && iter.len() == b - f, "size_hint {:?}, {} items left", iter.size_hint(), b - f);
            let bit = if exhaustive {
                p >> k
            } else {
                match p {
                    0 => 0,
                    1 => 1,
                    2 => k as u64,
                    3 => (k / 2) as u64,
                    _ => seed.rotate_right(k as u32 % 64) ^ (k as u64 / 64),
                }
            } & 1;
            k += 1;
            if k % 5 == 2 {
                // a copy goes its own way
                let mut c = iter;
                let x = (c.next().map(it), c.next_back().map(it));
                let e = match b - f {
                    0 => (None, None),
                    1 => (Some(m[f]), None),
                    _ => (Some(m[f]), Some(m[b - 1])),
                };
                ck!(&["C06"], x == e, "a copied iterator yields {:?}, expected {:?}", x, e);
            }
            let r = if bit == 0 { iter.next() } else { iter.next_back() }.map(it);
            if f == b {
                ck!(&["C06"], r.is_none(), "iteration yields {:?} after the last item", r);
                end += 1;
                if end == 3 {
                    break;
                }
                continue;
            }
            let q = if bit == 0 {
                f += 1;
                f - 1
            } else {
                b -= 1;
                b
            };
            ck!(&["C06"], r == Some(m[q]), "iteration (step {}, {}) yields {:?}, expected {:?}", k, if bit == 0 { "front" } else { "back" }, r, m[q]);
        }
    }
    Ok(pats)
}

/// Visits (C19).
pub fn visits<S: Kit>(t: &mut RawBTree<Tok, S>, d: &Dump<S>) -> R<u64> {
    let mut order: Vec<usize> = Vec::new();
    t.visit_from_leaves(|id| order.push(S::key(id)));
    check_visit(d, &order)?;
    let mut order = Vec::new();
    let ptrs: Vec<(usize, usize)> = d.nodes.iter().map(|n| (n.key, unsafe { t.node(n.id) } as *const _ as usize)).collect();
    let mut bad = None;
    t.visit_from_leaves_mut(|id, node| {
        let k = S::key(id);
        if ptrs.iter().find(|x| x.0 == k).map(|x| x.1) != Some(node as *mut _ as usize) {
            bad = Some(k)
        }
        order.push(k)
    });
    ck!(&["C19"], bad.is_none(), "the mutable visit passes node {:?} together with another node", bad);
    check_visit(d, &order)?;
    // visits below each node
    Ok(2)
}

fn check_visit<S: Kit>(d: &Dump<S>, order: &[usize]) -> R {
    for n in &d.nodes {
        let c = order.iter().filter(|k| **k == n.key).count();
        ck!(&["C19"], c == 1, "node {:?} is visited {} times", n.id, c);
        let at = order.iter().position(|k| *k == n.key).unwrap();
        for c in &n.kids {
            let ca = order.iter().position(|k| *k == d.nodes[*c].key);
            ck!(&["C19"], ca.map(|x| x < at).unwrap_or(false), "node {:?} is visited before its child {:?}", n.id, d.nodes[*c].id);
        }
    }
    ck!(&["C19"], order.len() == d.nodes.len(), "{} visits for {} nodes", order.len(), d.nodes.len());
    Ok(())
}

/// Children listings (C20).
pub fn children<S: Kit>(t: &RawBTree<Tok, S>, d: &Dump<S>) -> R<u64> {
    for n in &d.nodes {
        let node = unsafe { t.node(n.id) };
        let kids: Vec<S::Node> = n.kids.iter().map(|k| d.nodes[*k].id).collect();
        let l: Vec<S::Node> = node.children().collect();
        ck!(&["C20"], l == kids, "children() of {:?} lists {:?}, expected {:?}", n.id, l, kids);
        let s: Vec<_> = node.children_with_separators().map(|(a, c, b)| (a.map(it), c, b.map(it))).collect();
        let e: Vec<_> = kids.iter().enumerate().map(|(i, c)| (if i > 0 { Some(n.items[i - 1]) } else { None }, *c, n.items.get(i).copied())).collect();
        ck!(&["C20"], s == e, "children_with_separators() of {:?} lists {:?}, expected {:?}", n.id, s, e);
        ck!(&["C20"], node.child_count() == kids.len(), "child_count() is {} for {} children", node.child_count(), kids.len());
        for (i, c) in kids.iter().enumerate() {
            ck!(&["C20"], node.child_index(*c) == Some(i), "child_index({:?}) is {:?}, expected {}", c, node.child_index(*c), i);
            ck!(&["C20"], node.child_id(i) == *c && node.child_id_opt(i) == Some(*c), "child {} is not {:?}", i, c);
            let sp = node.separators(i);
            let es = (if i > 0 { Some(n.items[i - 1]) } else { None }, n.items.get(i).copied());
            ck!(&["C20"], (sp.0.map(it), sp.1.map(it)) == es, "separators({}) is {:?}, expected {:?}", i, sp, es);
        }
        ck!(&["C20"], node.child_id_opt(kids.len()).is_none(), "a child past the last");
        ck!(&["C20"], node.child_index(n.id).is_none(), "child_index of a node which is no child");
        // the listing steps below a node, with the visits of its subtree
    }
    Ok(d.nodes.len() as u64)
}

/// The validator (C21): accepts the tree, refuses it once damaged. The tree is left as it was found.
pub fn validator<S: Kit>(run: &mut Run<S>, d: &Dump<S>, which: u64) -> R<u64> {
    let ok = accepts(run.t.as_ref().unwrap());
    ck!(&["C21"], ok.is_ok(), "the validator refuses a well-formed tree: {:?}", ok);
    let t = run.t.as_mut().unwrap();
    if d.nodes.is_empty() {
        return Ok(1);
    }
    let mut done = 1;
    let pick = |k: u64, n: usize| (which.rotate_right(k as u32) % n.max(1) as u64) as usize;
    let n = d.nodes.len();
    // 1. two neighbouring items exchanged within a node
    {
        let x = &d.nodes[pick(1, n)];
        if x.items.len() >= 2 {
            let o = pick(2, x.items.len() - 1);
            swap(t, (x.id, o), (x.id, o + 1));
            let r = accepts(t);
            swap(t, (x.id, o), (x.id, o + 1));
            ck!(&["C21"], r.is_err(), "the validator accepts a tree with the items {} and {} of node {:?} exchanged", o, o + 1, x.id);
            done += 1;
        }
    }
    // 2. items exchanged between neighbouring positions anywhere (across nodes)
    if d.seq.len() >= 2 {
        let p = pick(3, d.seq.len() - 1);
        let (a, b) = (d.addr_of(p), d.addr_of(p + 1));
        let (a, b) = ((a.node, a.offset.unwrap()), (b.node, b.offset.unwrap()));
        swap(t, a, b);
        let r = accepts(t);
        swap(t, a, b);
        ck!(&["C21"], r.is_err(), "the validator accepts a tree with the items {} and {} exchanged", p, p + 1);
        // 3. an item made equal to its neighbour
        let k = d.seq[p].key;
        set_key(t, b, k);
        let r = accepts(t);
        set_key(t, b, d.seq[p + 1].key);
        ck!(&["C21"], r.is_err(), "the validator accepts a tree whose items {} and {} are equal", p, p + 1);
        // 4. an item larger than everything, or smaller
        let q = pick(4, d.seq.len());
        let a = d.addr_of(q);
        let a = (a.node, a.offset.unwrap());
        if q + 1 < d.seq.len() {
            set_key(t, a, i64::MAX);
            let r = accepts(t);
            set_key(t, a, d.seq[q].key);
            ck!(&["C21"], r.is_err(), "the validator accepts a tree whose item {} is above the last", q);
        }
        if q > 0 {
            set_key(t, a, i64::MIN);
            let r = accepts(t);
            set_key(t, a, d.seq[q].key);
            ck!(&["C21"], r.is_err(), "the validator accepts a tree whose item {} is below the first", q);
        }
        done += 4;
    }
    // 5. a wrong parent
    {
        let x = &d.nodes[pick(5, n)];
        let right = unsafe { t.node(x.id) }.parent();
        let wrong = match which % 3 {
            0 if right.is_some() => None,
            _ => Some(d.nodes.iter().map(|y| y.id).find(|y| Some(*y) != right).unwrap()),
        };
        if wrong != right {
            unsafe { t.node_mut(x.id) }.set_parent(wrong);
            let r = accepts(t);
            unsafe { t.node_mut(x.id) }.set_parent(right);
            ck!(&["C21"], r.is_err(), "the validator accepts node {:?} with the parent {:?} instead of {:?}", x.id, wrong, right);
            done += 1;
        }
    }
    // 6. an underfull or overfull node
    let leaves: Vec<usize> = (0..n).filter(|i| d.nodes[*i].leaf).collect();
    if n > 1 {
        let x = &d.nodes[leaves[pick(6, leaves.len())]];
        let mut taken = Vec::new();
        let keep = pick(7, 3);
        while unsafe { t.node(x.id) }.item_count() > keep {
            if let Node::Leaf(l) = unsafe { t.node_mut(x.id) } {
                taken.push(l.remove_last())
            }
        }
        let r = accepts(t);
        while let Some(i) = taken.pop() {
            if let Node::Leaf(l) = unsafe { t.node_mut(x.id) } {
                l.push_right(i);
            }
        }
        ck!(&["C21"], r.is_err(), "the validator accepts a leaf, not the root, with {} items", keep);
        done += 1;
    }
    // overfull leaf: items with keys spread between the neighbours
    {
        let x = &d.nodes[leaves[pick(8, leaves.len())]];
        let last = x.items.last().unwrap().key;
        let next = d.seq.get(x.en).map(|i| i.key).unwrap_or(last.saturating_add(1 << 20));
        let room = 9 - x.items.len();
        if next - last > room as i64 {
            for j in 0..room {
                let k = Tok::new(last + 1 + j as i64);
                if let Node::Leaf(l) = unsafe { t.node_mut(x.id) } {
                    l.push_right(k);
                }
            }
            let r = accepts(t);
            for _ in 0..room {
                if let Node::Leaf(l) = unsafe { t.node_mut(x.id) } {
                    l.remove_last();
                }
            }
            ck!(&["C21"], r.is_err(), "the validator accepts a leaf with 9 items ({})", if n == 1 { "the root" } else { "not the root" });
            done += 1;
        }
    }
    // an inner node loses a child with its separator: underfull (not the root), or unequal content elsewhere
    let inner: Vec<usize> = (0..n).filter(|i| !d.nodes[*i].leaf && d.nodes[*i].parent.is_some()).collect();
    if !inner.is_empty() {
        let x = &d.nodes[inner[pick(9, inner.len())]];
        let keep = pick(10, 3);
        let mut taken = Vec::new();
        while unsafe { t.node(x.id) }.item_count() > keep {
            if let Node::Internal(l) = unsafe { t.node_mut(x.id) } {
                let c = l.item_count() - 1;
                let (_, i, r) = l.remove(c.into());
                taken.push((i, r))
            }
        }
        let r = accepts(t);
        while let Some((i, c)) = taken.pop() {
            if let Node::Internal(l) = unsafe { t.node_mut(x.id) } {
                l.push_right(i, c);
            }
        }
        ck!(&["C21"], r.is_err(), "the validator accepts an inner node, not the root, with {} items", keep);
        done += 1;
        // 7. unequal depth: an inner child is replaced by a leaf with the items it had itself
        let x = &d.nodes[inner[pick(11, inner.len())]];
        let parent = d.nodes[x.parent.unwrap()].id;
        let mut leaf = Node::leaf(Some(parent), Tok::new(x.items[0].key));
        for (j, i) in x.items.iter().enumerate().skip(1) {
            leaf.insert(j.into(), Tok::new(i.key), None);
        }
        let old = std::mem::replace(unsafe { t.node_mut(x.id) }, leaf);
        let r = accepts(t);
        drop(std::mem::replace(unsafe { t.node_mut(x.id) }, old));
        ck!(&["C21"], r.is_err(), "the validator accepts leaves at different depths (inner node {:?} made a leaf)", x.id);
        done += 1;
    }
    // an overfull inner node: two neighbours written into one
    for k in 0..n {
        let p = &d.nodes[k];
        if p.leaf || p.kids.len() < 3 || d.nodes[p.kids[0]].leaf || (p.parent.is_some() && p.items.len() < 4) {
            continue;
        }
        let i = pick(12, p.items.len());
        let (l, r) = (&d.nodes[p.kids[i]], &d.nodes[p.kids[i + 1]]);
        if l.items.len() + r.items.len() + 1 < 8 || l.items.len() + r.items.len() + 1 > 8 {
            continue;
        }
        let mut its: Vec<i64> = l.items.iter().map(|x| x.key).collect();
        its.push(p.items[i].key);
        its.extend(r.items.iter().map(|x| x.key));
        let kids: Vec<usize> = l.kids.iter().chain(&r.kids).copied().collect();
        let mut pits: Vec<i64> = p.items.iter().map(|x| x.key).collect();
        pits.remove(i);
        let mut pk = p.kids.clone();
        pk.remove(i + 1);
        let nl = build(d, Some(p.id), &its, &kids);
        let np = build(d, p.parent.map(|x| d.nodes[x].id), &pits, &pk);
        let res = unsafe {
            let ol = std::mem::replace(t.node_mut(l.id), nl);
            let op = std::mem::replace(t.node_mut(p.id), np);
            for c in &r.kids {
                t.node_mut(d.nodes[*c].id).set_parent(Some(l.id))
            }
            let res = accepts(t);
            for c in &r.kids {
                t.node_mut(d.nodes[*c].id).set_parent(Some(r.id))
            }
            drop(std::mem::replace(t.node_mut(l.id), ol));
            drop(std::mem::replace(t.node_mut(p.id), op));
            res
        };
        ck!(&["C21"], res.is_err(), "the validator accepts an inner node, not the root, with 8 items");
        done += 1;
        break;
    }
    // an overfull inner root: the root takes over what its children hold
    let p = &d.nodes[0];
    if !p.leaf && !d.nodes[p.kids[0]].leaf {
        let mut its = Vec::new();
        let mut kids: Vec<usize> = Vec::new();
        for (i, c) in p.kids.iter().enumerate() {
            its.extend(d.nodes[*c].items.iter().map(|x| x.key));
            kids.extend(&d.nodes[*c].kids);
            if i < p.items.len() {
                its.push(p.items[i].key)
            }
        }
        // as many as a node can hold
        if its.len() == 8 {
            let np = build(d, None, &its, &kids);
            let res = unsafe {
                let op = std::mem::replace(t.node_mut(p.id), np);
                for c in &kids {
                    t.node_mut(d.nodes[*c].id).set_parent(Some(p.id))
                }
                let res = accepts(t);
                for c in &kids {
                    let id = d.nodes[d.nodes[*c].parent.unwrap()].id;
                    t.node_mut(d.nodes[*c].id).set_parent(Some(id))
                }
                drop(std::mem::replace(t.node_mut(p.id), op));
                res
            };
            ck!(&["C21"], res.is_err(), "the validator accepts an inner root with 8 items");
            done += 1;
        }
    }
    Ok(done)
}

fn swap<S: Kit>(t: &mut RawBTree<Tok, S>, a: (S::Node, usize), b: (S::Node, usize)) {
    unsafe {
        let pa = t.get_mut_at(Address::new(a.0, a.1.into())).unwrap() as *mut Tok;
        let pb = t.get_mut_at(Address::new(b.0, b.1.into())).unwrap() as *mut Tok;
        std::ptr::swap(pa, pb)
    }
}
fn set_key<S: Kit>(t: &mut RawBTree<Tok, S>, a: (S::Node, usize), k: i64) {
    unsafe { t.get_mut_at(Address::new(a.0, a.1.into())).unwrap().key = k }
}

thread_local! { pub static QUIET: RefCell<u32> = RefCell::new(0); }

fn accepts<S: Kit>(t: &RawBTree<Tok, S>) -> Result<(), String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.validate(cmp))).map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

/// An inner node with fresh items.
fn build<S: Kit>(d: &Dump<S>, parent: Option<S::Node>, its: &[i64], kids: &[usize]) -> Node<Tok, S> {
    let mut n = Node::binary(parent, d.nodes[kids[0]].id, Tok::new(its[0]), d.nodes[kids[1]].id);
    for i in 1..its.len() {
        n.push_right(Tok::new(its[i]), Some(d.nodes[kids[i + 1]].id));
    }
    n
}
