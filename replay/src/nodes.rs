//! Single nodes, offsets and keyed items, for every size and every offset.
use crate::ck;
use crate::hist::{fail, Ctx, R};
use crate::tok::{self, cmp, cmpk, It, Rng, Tok};
use raw_btree::node::{Balance, InternalNode, LeafNode, Offset};
use raw_btree::storage::Dropper;
use raw_btree::{Item, Node, Storage};
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Null;
unsafe impl Storage<Tok> for Null {
    type Node = u32;
    type Dropper = NullDropper;
    fn allocate_node(&mut self, _: Node<Tok, Self>) -> u32 {
        unreachable!()
    }
    unsafe fn release_node(&mut self, _: u32) -> Node<Tok, Self> {
        unreachable!()
    }
    fn start_dropping(&self) -> Option<NullDropper> {
        None
    }
    unsafe fn get(&self, _: u32) -> &Node<Tok, Self> {
        unreachable!()
    }
    unsafe fn get_mut(&mut self, _: u32) -> &mut Node<Tok, Self> {
        unreachable!()
    }
}
pub struct NullDropper;
unsafe impl Dropper<Tok, Null> for NullDropper {
    unsafe fn drop_node(&mut self, _: u32) {}
}

type N = Node<Tok, Null>;

#[derive(Clone, PartialEq, Debug)]
struct Mo {
    leaf: bool,
    its: Vec<It>,
    kids: Vec<u32>,
    par: Option<u32>,
}

fn view(n: &N) -> Mo {
    let c = n.item_count();
    let leaf = matches!(n, Node::Leaf(_));
    Mo {
        leaf,
        its: (0..c).map(|i| n.item(i.into()).map(|x| x.view()).unwrap_or(It { key: -999, pay: 0, id: 0 })).collect(),
        kids: if leaf { vec![] } else { (0..=c).map(|i| n.child_id(i)).collect() },
        par: n.parent(),
    }
}

fn mk(leaf: bool, n: usize, par: Option<u32>, base: i64) -> N {
    let mut x: N = if leaf { Node::Leaf(LeafNode::from_item(par, Tok::new(base))) } else { Node::Internal(InternalNode::binary(par, base as u32 + 500, Tok::new(base), base as u32 + 501)) };
    if n == 0 {
        match &mut x {
            Node::Leaf(l) => drop(l.remove(0.into())),
            Node::Internal(l) => drop(l.remove(0.into())),
        }
    }
    for i in 1..n {
        let k = base + 10 * i as i64;
        let c = if leaf { None } else { Some(base as u32 + 501 + i as u32) };
        x.insert(i.into(), Tok::new(k), c);
    }
    x
}

fn bal(m: &Mo) -> &'static str {
    let n = m.its.len();
    if n > if m.leaf { 8 } else { 7 } {
        "Overflow"
    } else if n < 3 {
        if n == 0 {
            "Underflow(true)"
        } else {
            "Underflow(false)"
        }
    } else {
        "Balanced"
    }
}
fn balname(b: Balance) -> &'static str {
    match b {
        Balance::Balanced => "Balanced",
        Balance::Overflow => "Overflow",
        Balance::Underflow(true) => "Underflow(true)",
        Balance::Underflow(false) => "Underflow(false)",
    }
}

fn caught<X>(f: impl FnOnce() -> X) -> Option<X> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

type Out = Option<(u64, String, Vec<String>)>;

pub fn run(focus: &'static str, seed: u64, cx: &mut Ctx) -> R<Out> {
    let mut n = 0u64;
    tok::reset();
    let r = catch_unwind(AssertUnwindSafe(|| -> R<Option<String>> {
        Ok(Some(match focus {
            "C15" | "C22" => {
                moves(focus, &mut n, cx)?;
                format!("every node operation on leaves of 0..=9 and inner nodes of 0..=8 items, at every offset")
            }
            "C16" => {
                search(&mut n, cx)?;
                "lookups in leaves of 0..=9 and inner nodes of 0..=8 items, for every stored key and every gap; repeated keys included".into()
            }
            "C18" => {
                offsets(&mut n, seed, cx)?;
                "pairs of offsets from the ends of the range, the small values and random ones".into()
            }
            "C20" => {
                lists(&mut n, cx)?;
                "children listings of leaves of 0..=9 and inner nodes of 0..=8 items".into()
            }
            "C23" => {
                items(&mut n, seed, cx)?;
                "pairs of keyed items over a small domain and random ones".into()
            }
            _ => return Ok(None),
        }))
    }));
    let r = match r {
        Ok(r) => r?,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return fail(&[focus], format!("panic in a node operation: {}", m));
        }
    };
    if let Some((_, m)) = tok::take_log().into_iter().next() {
        if r.is_some() {
            return fail(&[focus], m);
        }
    }
    if r.is_some() {
        ck!(&[focus], tok::alive() == 0, "{} items alive after the node operations", tok::alive());
    }
    cx.evals += n;
    Ok(r.map(|r| (n, r, vec!["inner node of 5 items: pop_right".to_string()])))
}

fn moves(focus: &'static str, n: &mut u64, cx: &mut Ctx) -> R {
    let t: &[&'static str] = if focus == "C22" { &["C22"] } else { &["C15"] };
    let par = Some(7u32);
    for leaf in [true, false] {
        let cap = if leaf { 9 } else { 8 };
        for c in 0..=cap {
            let mk0 = || mk(leaf, c, par, 100);
            macro_rules! sub {
                ($x:expr, $e:expr, $($m:tt)*) => {{
                    *n += 1;
                    cx.seen.insert((line!() as u64) << 32 | (c as u64) << 8 | leaf as u64);
                    let (got, exp) = (&$x, &$e);
                    ck!(t, *got == *exp, "{} with {} items: {}: {:?}, expected {:?}", if leaf { "leaf" } else { "inner node" }, c, format!($($m)*), got, exp);
                }};
            }
            // reading
            {
                let x = mk0();
                let m = view(&x);
                let ei: Vec<i64> = (0..c as i64).map(|i| 100 + 10 * i).collect();
                let ek: Vec<u32> = if leaf { vec![] } else { (0..=c as u32).map(|i| 600 + i).collect() };
                sub!(m.its.iter().map(|i| i.key).collect::<Vec<_>>(), ei, "items");
                sub!(m.kids, ek, "children");
                sub!(x.parent(), par, "parent");
                sub!(balname(x.balance()), bal(&m), "balance");
                sub!(x.is_overflowing(), bal(&m) == "Overflow", "is_overflowing");
                sub!(x.is_underflowing(), bal(&m).starts_with('U'), "is_underflowing");
                sub!(x.child_count(), if leaf { 0 } else { c + 1 }, "child_count");
                for o in [c, c + 1, 100, usize::MAX - 1] {
                    sub!(x.item(o.into()).is_none(), true, "item({})", o);
                }
                sub!(x.item(Offset::before()).is_none(), true, "item(before)");
            }
            {
                let mut x = mk0();
                let mut m = view(&x);
                x.set_parent(Some(9));
                m.par = Some(9);
                sub!(view(&x), m, "set_parent");
                x.set_parent(None);
                m.par = None;
                sub!(view(&x), m, "set_parent");
                for o in 0..c {
                    match x.item_mut(o.into()) {
                        Some(y) => y.pay = 77 + o as u32,
                        None => return fail(t, format!("item_mut({}) is nothing in a node of {}", o, c)),
                    }
                    m.its[o].pay = 77 + o as u32;
                    sub!(view(&x), m, "item_mut({})", o);
                }
                sub!(x.item_mut(Offset::before()).is_none(), true, "item_mut(before)");
                sub!(x.item_mut(c.into()).is_none(), true, "item_mut(past the end)");
                // by key
                for o in 0..c {
                    let k = 100 + 10 * o as i64;
                    let g = match x.get(cmpk, &k) {
                        Ok(g) => g.map(|y| y.view()),
                        Err(_) => None,
                    };
                    sub!(g, Some(m.its[o]), "get({})", k);
                    if let Ok(Some(y)) = x.get_mut(cmpk, &k) {
                        y.pay += 1000;
                        m.its[o].pay += 1000;
                    }
                    sub!(view(&x), m, "get_mut({})", k);
                }
                for o in 0..=c {
                    let k = 95 + 10 * o as i64;
                    let g = match x.get(cmpk, &k) {
                        Ok(g) => Ok(g.map(|y| y.view())),
                        Err(c) => Err(c),
                    };
                    let e = if leaf { Ok(None) } else { Err(600 + o as u32) };
                    sub!(g, e, "get({})", k);
                    let g = match x.get_mut(cmpk, &k) {
                        Ok(g) => Ok(g.map(|y| y.view())),
                        Err(c) => Err(*c),
                    };
                    sub!(g, e, "get_mut({})", k);
                }
            }
            // insertion by key
            if c < cap {
                for o in 0..=c {
                    let k = 95 + 10 * o as i64;
                    let mut x = mk0();
                    let mut m = view(&x);
                    let y = Tok::new(k);
                    let v = y.view();
                    match x.insert_by_key(cmp, y) {
                        Ok((off, old)) => {
                            sub!(leaf, true, "insert_by_key({})", k);
                            sub!((off, old.map(|z| z.view())), (Offset::from(o), None::<It>), "insert_by_key({})", k);
                            m.its.insert(o, v);
                        }
                        Err(e) => {
                            sub!(leaf, false, "insert_by_key({})", k);
                            sub!((e.item.view(), e.child_offset, e.child_id), (v, o, 600 + o as u32), "insert_by_key({})", k);
                        }
                    }
                    sub!(view(&x), m, "insert_by_key({})", k);
                }
            }
            for o in 0..c {
                let k = 100 + 10 * o as i64;
                let mut x = mk0();
                let mut m = view(&x);
                let y = Tok::new(k);
                let v = y.view();
                match x.insert_by_key(cmp, y) {
                    Ok((off, old)) => {
                        let e = std::mem::replace(&mut m.its[o], v);
                        sub!((off, old.map(|z| z.view())), (Offset::from(o), Some(e)), "insert_by_key({})", k);
                    }
                    Err(_) => return fail(t, format!("insert_by_key({}) refused, the key is stored", k)),
                }
                sub!(view(&x), m, "insert_by_key({})", k);
            }
            // insertion and removal at an offset
            if c < cap {
                for o in 0..=c {
                    let mut x = mk0();
                    let mut m = view(&x);
                    let y = Tok::new(1);
                    m.its.insert(o, y.view());
                    if !leaf {
                        m.kids.insert(o + 1, 42)
                    }
                    x.insert(o.into(), y, if leaf { None } else { Some(42) });
                    sub!(view(&x), m, "insert({})", o);
                }
                let mut x = mk0();
                let mut m = view(&x);
                let y = Tok::new(1);
                m.its.push(y.view());
                if !leaf {
                    m.kids.push(42)
                }
                let o = x.push_right(y, if leaf { None } else { Some(42) });
                sub!(o, Offset::from(c), "push_right");
                sub!(view(&x), m, "push_right");
                let mut x = mk0();
                let mut m = view(&x);
                let y = Tok::new(1);
                m.its.insert(0, y.view());
                if !leaf {
                    m.kids.insert(0, 42)
                }
                x.push_left(y, if leaf { None } else { Some(42) });
                sub!(view(&x), m, "push_left");
            } else {
                // a full node refuses
                let mut x = mk0();
                let m = view(&x);
                let r = caught(|| x.insert(0.into(), Tok::new(1), Some(42)));
                sub!(r.is_none(), true, "insertion into a full node is refused");
                sub!(view(&x), m, "after the refusal");
            }
            for o in 0..c {
                let mut x = mk0();
                let mut m = view(&x);
                match &mut x {
                    Node::Leaf(l) => {
                        let y = l.remove(o.into());
                        let e = m.its.remove(o);
                        sub!(y.view(), e, "remove({})", o);
                    }
                    Node::Internal(l) => {
                        let (lc, y, rc) = l.remove(o.into());
                        let e = (m.kids[o], m.its.remove(o), m.kids.remove(o + 1));
                        sub!((lc, y.view(), rc), e, "remove({})", o);
                    }
                }
                sub!(view(&x), m, "remove({})", o);
                let mut x = mk0();
                let mut m = view(&x);
                match x.leaf_remove(o.into()) {
                    Some(Ok(y)) => {
                        sub!(leaf, true, "leaf_remove({})", o);
                        let e = m.its.remove(o);
                        sub!(y.view(), e, "leaf_remove({})", o);
                    }
                    Some(Err(k)) => {
                        sub!(leaf, false, "leaf_remove({})", o);
                        sub!(k, m.kids[o], "leaf_remove({})", o);
                    }
                    None => return fail(t, format!("leaf_remove({}) finds nothing in a node of {}", o, c)),
                }
                sub!(view(&x), m, "leaf_remove({})", o);
                if !leaf {
                    let mut x = mk0();
                    let mut m = view(&x);
                    let y = Tok::new(5);
                    let e = std::mem::replace(&mut m.its[o], y.view());
                    let old = x.replace(o.into(), y);
                    sub!(old.view(), e, "replace({})", o);
                    sub!(view(&x), m, "replace({})", o);
                    let mut x = mk0();
                    let mut m = view(&x);
                    let (i, l, r, s, b) = x.merge(o);
                    let e = (o, m.kids[o], m.kids.remove(o + 1), m.its.remove(o));
                    sub!((i, l, r, s.view()), e, "merge({})", o);
                    sub!(balname(b), bal(&m), "merge({})", o);
                    sub!(view(&x), m, "merge({})", o);
                }
            }
            for o in [Offset::before(), c.into(), (c + 1).into()] {
                let mut x = mk0();
                let m = view(&x);
                sub!(x.leaf_remove(o).is_none(), true, "leaf_remove({:?})", o);
                sub!(view(&x), m, "leaf_remove({:?})", o);
            }
            if !leaf || c > 0 {
                let mut x = mk0();
                let mut m = view(&x);
                match x.remove_rightmost_leaf() {
                    Ok(y) => {
                        sub!(leaf, true, "remove_rightmost_leaf");
                        sub!(y.view(), m.its.pop().unwrap(), "remove_rightmost_leaf");
                    }
                    Err(k) => {
                        sub!(leaf, false, "remove_rightmost_leaf");
                        sub!(k, *m.kids.last().unwrap(), "remove_rightmost_leaf");
                    }
                }
                sub!(view(&x), m, "remove_rightmost_leaf");
            }
            // pops
            let spare = c > 3;
            {
                let mut x = mk0();
                let mut m = view(&x);
                match x.pop_left() {
                    Ok((y, k)) => {
                        sub!(spare, true, "pop_left allowed");
                        let ek = if leaf { None } else { Some(m.kids.remove(0)) };
                        sub!((y.view(), k), (m.its.remove(0), ek), "pop_left");
                    }
                    Err(_) => sub!(spare, false, "pop_left refused"),
                }
                sub!(view(&x), m, "pop_left");
                let mut x = mk0();
                let mut m = view(&x);
                match x.pop_right() {
                    Ok((o, y, k)) => {
                        sub!(spare, true, "pop_right allowed");
                        let ek = if leaf { None } else { m.kids.pop() };
                        sub!((o, y.view(), k), (Offset::from(c - 1), m.its.pop().unwrap(), ek), "pop_right");
                    }
                    Err(_) => sub!(spare, false, "pop_right refused"),
                }
                sub!(view(&x), m, "pop_right");
            }
            // split
            if bal(&view(&mk0())) == "Overflow" {
                let mut x = mk0();
                let m = view(&x);
                let (o, y, r) = x.split();
                let (l, rr) = (view(&x), view(&r));
                let mut all = l.its.clone();
                all.push(y.view());
                all.extend(rr.its.iter().copied());
                let mut kids = l.kids.clone();
                kids.extend(&rr.kids);
                sub!((all, kids, l.leaf, rr.leaf, l.par, rr.par), (m.its, m.kids, m.leaf, m.leaf, m.par, m.par), "split");
                sub!(o, l.its.len(), "split: the offset of the median");
                sub!((bal(&l), bal(&rr)), ("Balanced", "Balanced"), "split");
            }
            // append
            for c2 in 0..=cap {
                if c + 1 + c2 > cap {
                    continue;
                }
                let mut x = mk0();
                let y = mk(leaf, c2, Some(3), 3000);
                let (mut m, m2) = (view(&x), view(&y));
                let s = Tok::new(2000);
                m.its.push(s.view());
                m.its.extend(m2.its);
                m.kids.extend(m2.kids);
                let o = x.append(s, y);
                sub!(o, Offset::from(c), "append of {}", c2);
                sub!(view(&x), m, "append of {}", c2);
            }
            // constructors
            if c == 1 {
                let y = Tok::new(9);
                let v = y.view();
                let x: N = if leaf { Node::leaf(par, y) } else { Node::binary(par, 1, y, 2) };
                sub!(view(&x), Mo { leaf, its: vec![v], kids: if leaf { vec![] } else { vec![1, 2] }, par }, "constructor");
            }
            if leaf {
                let mut x = mk0();
                let a0 = tok::alive();
                x.forget();
                sub!(x.item_count(), 0, "forget");
                sub!(tok::alive(), a0, "forget runs no destructor");
                // the forgotten items stay alive: forget the bookkeeping as well
                drop(x);
                sub!(tok::alive(), a0, "forget runs no destructor");
                tok::reset();
                if let Node::Leaf(l) = mk0() {
                    sub!(l.iter().map(|i| i.key).collect::<Vec<_>>(), (0..c as i64).map(|i| 100 + 10 * i).collect::<Vec<_>>(), "iter");
                    sub!(l.items().len(), c, "items");
                }
            } else {
                let mut x = mk0();
                let a0 = tok::alive();
                x.forget();
                drop(x);
                sub!(tok::alive(), a0, "forget runs no destructor");
                tok::reset();
                if let Node::Internal(l) = mk0() {
                    sub!(l.first_child_id(), 600, "first_child_id");
                    sub!(l.branches().iter().map(|b| (b.item.key, b.child)).collect::<Vec<_>>(), (0..c as i64).map(|i| (100 + 10 * i, 601 + i as u32)).collect::<Vec<_>>(), "branches");
                }
            }
        }
    }
    Ok(())
}

fn search(n: &mut u64, cx: &mut Ctx) -> R {
    let t = &["C16"];
    for leaf in [true, false] {
        let cap = if leaf { 9 } else { 8 };
        for c in 0..=cap {
            let x = mk(leaf, c, None, 100);
            for k in 0..=2 * c as i64 {
                let key = 95 + 5 * k;
                // items not above the key
                let r = (0..c as i64).filter(|i| 100 + 10 * i <= key).count();
                let eq = r > 0 && 100 + 10 * (r as i64 - 1) == key;
                *n += 1;
                cx.seen.insert((c as u64) << 20 | (k as u64) << 1 | leaf as u64);
                let got = caught(|| x.offset_of(cmpk, &key));
                let exp = if eq {
                    Ok(Offset::from(r - 1))
                } else {
                    Err((r, if leaf { None } else { Some(600 + r as u32) }))
                };
                ck!(t, got.is_some(), "offset_of panics in a {} of {} items", if leaf { "leaf" } else { "node" }, c);
                ck!(t, got == Some(exp), "offset_of({}) in a {} of the items 100, 110, ... ({}) is {:?}, expected {:?}", key, if leaf { "leaf" } else { "node" }, c, got, exp);
            }
        }
    }
    Ok(())
}

fn lists(n: &mut u64, cx: &mut Ctx) -> R {
    let t = &["C20"];
    for leaf in [true, false] {
        let cap = if leaf { 9 } else { 8 };
        for c in 0..=cap {
            let x = mk(leaf, c, None, 100);
            let m = view(&x);
            *n += 1;
            cx.seen.insert((c as u64) << 1 | leaf as u64);
            let mut i = x.children();
            let l: Vec<u32> = i.by_ref().collect();
            ck!(t, l == m.kids, "children: {:?}, expected {:?}", l, m.kids);
            ck!(t, i.next().is_none() && i.next().is_none(), "children goes on after the last");
            let mut i = x.children_with_separators();
            let l: Vec<_> = i.by_ref().map(|(a, c, b)| (a.map(|x| x.view()), c, b.map(|x| x.view()))).collect();
            let e: Vec<_> = m.kids.iter().enumerate().map(|(i, c)| (if i > 0 { Some(m.its[i - 1]) } else { None }, *c, m.its.get(i).copied())).collect();
            ck!(t, l == e, "children_with_separators: {:?}, expected {:?}", l, e);
            ck!(t, i.next().is_none(), "children_with_separators goes on after the last");
            for (i, k) in m.kids.iter().enumerate() {
                ck!(t, x.child_index(*k) == Some(i), "child_index({}) is {:?}, expected {}", k, x.child_index(*k), i);
                let s = x.separators(i);
                ck!(t, (s.0.map(|x| x.view()), s.1.map(|x| x.view())) == (if i > 0 { Some(m.its[i - 1]) } else { None }, m.its.get(i).copied()), "separators({})", i);
                ck!(t, x.child_id_opt(i) == Some(*k) && x.child_id(i) == *k, "child {}", i);
            }
            ck!(t, x.child_index(31337).is_none(), "child_index of a stranger");
            ck!(t, x.child_id_opt(m.kids.len()).is_none(), "a child past the last");
        }
    }
    Ok(())
}

fn offsets(n: &mut u64, seed: u64, cx: &mut Ctx) -> R {
    let t = &["C18"];
    let mut rng = Rng::new(seed);
    let mut v: Vec<usize> = (0..12).collect();
    for i in 1..6 {
        v.push(usize::MAX - i);
        v.push((1 << (10 * i)) - 1);
        v.push(1 << (10 * i));
        v.push(usize::MAX / 2 + i);
    }
    for _ in 0..40 {
        v.push((rng.next() >> rng.below(60)) as usize)
    }
    v.retain(|x| *x != usize::MAX);
    let off = |x: Option<usize>| match x {
        None => Offset::before(),
        Some(x) => Offset::from(x),
    };
    let mut o: Vec<Option<usize>> = v.iter().map(|x| Some(*x)).collect();
    o.push(None);
    for a in &o {
        let x = off(*a);
        ck!(t, x.value() == *a, "value of {:?} is {:?}", a, x.value());
        ck!(t, x.is_before() == a.is_none(), "is_before of {:?}", a);
        match a {
            Some(i) => ck!(t, caught(|| x.unwrap()) == Some(*i), "unwrap of {:?}", a),
            None => ck!(t, caught(|| x.unwrap()).is_none(), "unwrap of before"),
        }
        // Offset(MAX - 1) has no successor
        if *a != Some(usize::MAX - 1) {
            let mut y = x;
            y.incr();
            let e = a.map(|i| i + 1).unwrap_or(0);
            ck!(t, y.value() == Some(e), "incr of {:?} is {:?}", a, y);
            y.decr();
            ck!(t, y == x, "incr then decr of {:?} is {:?}", a, y);
        }
        if let Some(i) = a {
            let mut y = x;
            y.decr();
            ck!(t, y.value() == i.checked_sub(1), "decr of {:?} is {:?}", a, y);
            y.incr();
            ck!(t, y == x, "decr then incr of {:?} is {:?}", a, y);
        }
        for b in &o {
            *n += 1;
            let y = off(*b);
            // None is the least Option
            let e = a.cmp(b);
            cx.seen.insert((a.unwrap_or(3) as u64).wrapping_mul(31) ^ b.unwrap_or(7) as u64);
            ck!(t, x.cmp(&y) == e && x.partial_cmp(&y) == Some(e), "{:?} against {:?}: {:?}", a, b, x.cmp(&y));
            ck!(t, (x == y) == (e == Ordering::Equal), "{:?} == {:?}", a, b);
            ck!(t, (x < y, x <= y, x > y, x >= y) == (e.is_lt(), e.is_le(), e.is_gt(), e.is_ge()), "{:?} < {:?}", a, b);
            if let Some(j) = b {
                ck!(t, x.partial_cmp(j) == Some(e), "{:?} against the index {}: {:?}", a, j, x.partial_cmp(j));
                ck!(t, (x == *j) == (e == Ordering::Equal), "{:?} == index {}", a, j);
                ck!(t, (x < *j, x <= *j, x > *j, x >= *j) == (e.is_lt(), e.is_le(), e.is_gt(), e.is_ge()), "{:?} < index {}", a, j);
            } else {
                // the largest index is no offset
                ck!(t, x < usize::MAX && x != usize::MAX, "{:?} against the largest index", a);
            }
        }
    }
    Ok(())
}

fn items(n: &mut u64, seed: u64, cx: &mut Ctx) -> R {
    let t = &["C23"];
    let mut rng = Rng::new(seed);
    let mut v: Vec<(i64, i64)> = Vec::new();
    for k in -2..3 {
        for x in -1..3 {
            v.push((k, x));
        }
    }
    for _ in 0..30 {
        v.push((rng.next() as i64, rng.next() as i64))
    }
    v.push((i64::MAX, 0));
    v.push((i64::MIN, 0));
    for a in &v {
        let x = Item::new(a.0, a.1);
        ck!(t, x.key == a.0 && x.value == a.1, "new{:?}", a);
        ck!(t, x.as_pair() == (&a.0, &a.1), "as_pair of {:?}", a);
        ck!(t, x.clone().into_pair() == *a, "into_pair of {:?}", a);
        ck!(t, std::ptr::eq(x.as_ref(), &x), "as_ref");
        for b in &v {
            *n += 1;
            cx.seen.insert((a.0 as u64).rotate_left(32) ^ b.0 as u64);
            let y = Item::new(b.0, b.1);
            let e = a.0.cmp(&b.0);
            ck!(t, (x == y) == (e == Ordering::Equal) && (x != y) == (e != Ordering::Equal), "{:?} == {:?}", a, b);
            ck!(t, x.cmp(&y) == e && x.partial_cmp(&y) == Some(e), "{:?} against {:?}: {:?}", a, b, x.cmp(&y));
            ck!(t, (x < y, x <= y, x > y, x >= y) == (e.is_lt(), e.is_le(), e.is_gt(), e.is_ge()), "{:?} < {:?}", a, b);
            ck!(t, x.key_cmp(&b.0) == e, "{:?} against the key {}: {:?}", a, b.0, x.key_cmp(&b.0));
        }
    }
    // an owned key looked up by a borrowed one; a partial order
    let w = ["", "a", "ab", "b", "ba"];
    for a in w {
        for b in w {
            *n += 1;
            let x = Item::new(a.to_string(), 1);
            ck!(t, x.key_cmp(b) == a.cmp(b), "{:?} against the key {:?}", a, b);
            ck!(t, x.cmp(&Item::new(b.to_string(), 0)) == a.cmp(b), "{:?} against {:?}", a, b);
        }
    }
    // sizeless keys and values
    ck!(t, Item::new((), ()) == Item::new((), ()) && Item::new((), ()).cmp(&Item::new((), ())) == Ordering::Equal, "items without size");
    ck!(t, Item::new(1u8, ()) != Item::new(2u8, ()) && Item::new((), 1) == Item::new((), 2), "items with a part without size");
    let f = [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY];
    for a in f {
        for b in f {
            *n += 1;
            let (x, y) = (Item::new(a, 1), Item::new(b, 2));
            ck!(t, x.partial_cmp(&y) == a.partial_cmp(&b), "{:?} against {:?}", a, b);
            ck!(t, (x == y) == (a == b), "{:?} == {:?}", a, b);
        }
    }
    Ok(())
}
