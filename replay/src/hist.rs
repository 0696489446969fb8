//! Histories of operations on a tree, compared step by step with a sequence of items.
use crate::store::{self, Kit, BUDGET};
use crate::tok::{self, cmp, cmpk, It, Rng, Tok};
use raw_btree::{node::Offset, Address, Node, RawBTree};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Insert(i64),
    Remove(i64),
    /// insert at the n-th item or back address
    InsertAt(u32),
    /// insert at the n-th leaf gap, exactly
    InsertExact(u32),
    /// remove at the n-th valid address, then reinsert if the flag is set
    RemoveAt(u32, bool),
    ReplaceAt(u32),
    /// change the payload through get_mut / get_mut_at / first_mut / last_mut / iter_mut
    Mutate(u8, u32),
    Clear,
    Forget,
    /// replace the tree by its clone; the original is changed and dropped
    CloneSwap(u32),
    /// consume the tree: pattern of ends, number of steps
    Consume(u64, u32),
    /// drop the tree and start with an empty one
    Drop,
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub tags: Vec<&'static str>,
    pub msg: String,
}
pub type R<X = ()> = Result<X, Fail>;

pub fn fail<X>(tags: &[&'static str], msg: String) -> R<X> {
    Err(Fail { tags: tags.to_vec(), msg })
}
#[macro_export]
macro_rules! ck {
    ($tags:expr, $c:expr, $($m:tt)*) => { if !$c { return $crate::hist::fail($tags, format!($($m)*)); } };
}

/// One node of the dump.
pub struct DN<S: Kit> {
    pub id: S::Node,
    pub key: usize,
    pub leaf: bool,
    pub items: Vec<It>,
    pub kids: Vec<usize>, // indexes in the dump
    pub parent: Option<usize>,
    pub index: usize,
    /// items before the subtree, and before its end
    pub st: usize,
    pub en: usize,
    /// position of the item (or of the gap, at the last) at each offset
    pub pos: Vec<usize>,
    pub depth: usize,
}

pub struct Dump<S: Kit> {
    pub nodes: Vec<DN<S>>,
    pub seq: Vec<It>,
    pub problems: Vec<String>,
    pub disordered: Option<String>,
}

impl<S: Kit> Dump<S> {
    pub fn of(t: &RawBTree<Tok, S>) -> Dump<S> {
        let mut d = Dump { nodes: Vec::new(), seq: Vec::new(), problems: Vec::new(), disordered: None };
        if let Some(r) = t.root() {
            d.walk(t, r, None, 0, 0);
            let depths: Vec<usize> = d.nodes.iter().filter(|n| n.leaf).map(|n| n.depth).collect();
            if depths.iter().any(|x| *x != depths[0]) {
                d.problems.push(format!("leaves at depths {:?}", depths));
            }
        }
        for w in d.seq.windows(2) {
            if w[0].key >= w[1].key {
                d.disordered = Some(format!("{:?} before {:?}", w[0], w[1]));
            }
        }
        d
    }

    fn walk(&mut self, t: &RawBTree<Tok, S>, id: S::Node, parent: Option<usize>, index: usize, depth: usize) -> Option<usize> {
        let key = S::key(id);
        if depth > 40 || self.nodes.len() > 100_000 {
            self.problems.push("endless descent".into());
            return None;
        }
        let me = self.nodes.len();
        let node = unsafe { t.node(id) };
        if self.nodes.iter().any(|n| n.key == key) {
            self.problems.push(format!("node {:?} is linked twice", id));
            return None;
        }
        let exp = parent.map(|p| self.nodes[p].id);
        if node.parent() != exp {
            self.problems.push(format!("node {:?} records the parent {:?}, not {:?}", id, node.parent(), exp));
        }
        let n = node.item_count();
        let leaf = matches!(node, Node::Leaf(_));
        let items: Vec<It> = (0..n)
            .map(|i| match node.item(i.into()) {
                Some(x) => x.view(),
                None => {
                    tok::log("C15", format!("item_count is {} but there is no item {}", n, i));
                    It { key: i64::MIN, pay: 0, id: u32::MAX }
                }
            })
            .collect();
        let (lo, hi) = if leaf { (3, 8) } else { (3, 7) };
        let lo = if parent.is_none() { 1 } else { lo };
        if n < lo || n > hi {
            self.problems.push(format!("{} node {:?} has {} items", if leaf { "leaf" } else { "inner" }, id, n));
        }
        self.nodes.push(DN { id, key, leaf, items: items.clone(), kids: vec![], parent, index, st: self.seq.len(), en: 0, pos: vec![], depth });
        let mut kids = Vec::new();
        let mut pos = Vec::new();
        for i in 0..=n {
            if !leaf {
                match node.child_id_opt(i) {
                    Some(c) => {
                        if let Some(k) = self.walk(t, c, Some(me), i, depth + 1) {
                            kids.push(k)
                        }
                    }
                    None => self.problems.push(format!("node {:?} has no child {}", id, i)),
                }
            }
            pos.push(self.seq.len());
            if i < n {
                self.seq.push(items[i]);
            }
        }
        self.nodes[me].kids = kids;
        self.nodes[me].pos = pos;
        self.nodes[me].en = self.seq.len();
        Some(me)
    }

    /// Item addresses by position, then gap addresses: (address, is item, number of items before).
    pub fn addrs(&self) -> Vec<(Address<S::Node>, bool, usize)> {
        let mut v: Vec<(Address<S::Node>, bool, usize)> = Vec::new();
        for n in &self.nodes {
            for (o, p) in n.pos.iter().enumerate() {
                v.push((Address::new(n.id, o.into()), o < n.items.len(), *p));
            }
        }
        v.sort_by_key(|x| (!x.1, x.2));
        v
    }

    pub fn befores(&self) -> Vec<(Address<S::Node>, usize)> {
        self.nodes.iter().map(|n| (Address::new(n.id, Offset::before()), n.st)).collect()
    }

    pub fn addr_of(&self, pos: usize) -> Address<S::Node> {
        self.addrs()[pos].0
    }

    pub fn leaf_gaps(&self) -> Vec<(Address<S::Node>, usize)> {
        let mut v = Vec::new();
        for n in self.nodes.iter().filter(|n| n.leaf) {
            for (o, p) in n.pos.iter().enumerate() {
                v.push((Address::new(n.id, o.into()), *p));
            }
        }
        v
    }

    /// The back addresses in order: the items and the ends of the nodes.
    pub fn backs(&self) -> Vec<Address<S::Node>> {
        let mut v = Vec::new();
        if !self.nodes.is_empty() {
            self.backs_of(0, &mut v)
        }
        v
    }
    fn backs_of(&self, k: usize, v: &mut Vec<Address<S::Node>>) {
        let n = &self.nodes[k];
        for i in 0..=n.items.len() {
            if !n.leaf {
                self.backs_of(n.kids[i], v)
            }
            v.push(Address::new(n.id, i.into()))
        }
    }
    /// The front addresses in order: the beginnings of the nodes and the items.
    pub fn fronts(&self) -> Vec<Address<S::Node>> {
        let mut v = Vec::new();
        if !self.nodes.is_empty() {
            self.fronts_of(0, &mut v)
        }
        v
    }
    fn fronts_of(&self, k: usize, v: &mut Vec<Address<S::Node>>) {
        let n = &self.nodes[k];
        v.push(Address::new(n.id, Offset::before()));
        for i in 0..=n.items.len() {
            if !n.leaf {
                self.fronts_of(n.kids[i], v)
            }
            if i < n.items.len() {
                v.push(Address::new(n.id, i.into()))
            }
        }
    }
}

/// A history: how the storage behaves, then the operations.
#[derive(Clone, Debug)]
pub struct History {
    /// 0 checking storage with fresh ids, 1 with reused ids, 2 without dropper, 3 `BoxStorage`
    pub mode: u8,
    pub ops: Vec<Op>,
}

pub struct Ctx {
    pub focus: &'static str,
    pub evals: u64,
    pub ops: u64,
    pub max_height: usize,
    pub max_len: usize,
    pub rng: Rng,
    /// distinct (operation, tree shape) pairs met
    pub seen: std::collections::HashSet<u64>,
}

fn tag_of(op: &Op) -> &'static [&'static str] {
    match op {
        Op::Insert(_) => &["C01", "C22"],
        Op::Remove(_) => &["C03", "C22"],
        Op::InsertAt(_) | Op::InsertExact(_) => &["C10", "C22"],
        Op::RemoveAt(..) | Op::ReplaceAt(_) => &["C11", "C22"],
        Op::Mutate(0 | 1, _) => &["C02", "C22"],
        Op::Mutate(2, _) => &["C11", "C22"],
        Op::Mutate(3 | 4, _) => &["C05", "C22"],
        Op::Mutate(..) => &["C07", "C22"],
        Op::Clear | Op::Drop => &["C12", "C13", "C22"],
        Op::Forget => &["C12", "C13", "C22"],
        Op::CloneSwap(_) => &["C14", "C22"],
        Op::Consume(..) => &["C07", "C22"],
    }
}

pub struct Run<'c, S: Kit> {
    pub t: Option<RawBTree<Tok, S>>,
    pub m: Vec<It>,
    /// items handed out that we still hold
    pub held: usize,
    /// items whose destructor must never run (forgotten)
    pub forgotten: usize,
    pub cx: &'c mut Ctx,
    pub base: i64,
}

fn it(t: &Tok) -> It {
    t.view()
}

impl<'c, S: Kit> Run<'c, S> {
    pub fn new(cx: &'c mut Ctx) -> Self {
        let base = S::active();
        Run { t: Some(RawBTree::new()), m: Vec::new(), held: 0, forgotten: 0, cx, base }
    }
    pub fn tree(&mut self) -> &mut RawBTree<Tok, S> {
        self.t.as_mut().unwrap()
    }

    /// The full comparison after an operation. `tag` is the property of the operation.
    fn compare(&mut self, op: &'static [&'static str], structural: &[&'static str]) -> R<Dump<S>> {
        BUDGET.with(|b| b.set(u64::MAX));
        let t = self.t.as_ref().unwrap();
        let d = Dump::of(t);
        self.drain_log(op)?;
        let own = &op[..op.len() - 1];
        ck!(own, d.seq == self.m, "content is {:?}, expected {:?}", d.seq, self.m);
        ck!(structural, d.problems.is_empty(), "ill-formed tree: {}", d.problems.join("; "));
        let mut lentags = own.to_vec();
        lentags.push("C05");
        ck!(&lentags, t.len() == self.m.len(), "len() is {} for {} items", t.len(), self.m.len());
        ck!(&["C05"], t.is_empty() == self.m.is_empty(), "is_empty() is {} for {} items", t.is_empty(), self.m.len());
        ck!(structural, t.root().is_some() != self.m.is_empty(), "root is {:?} for {} items", t.root(), self.m.len());
        ck!(&["C05"], t.first().map(it) == self.m.first().copied(), "first() is {:?}", t.first());
        ck!(&["C05"], t.last().map(it) == self.m.last().copied(), "last() is {:?}", t.last());
        let act = S::active() - self.base;
        ck!(&["C12"], act == d.nodes.len() as i64, "{} active nodes, the tree has {}", act, d.nodes.len());
        let alive = tok::alive();
        let exp = self.m.len() + self.held + self.forgotten;
        let mut ownt = own.to_vec();
        ownt.push("C13");
        ck!(&ownt, alive == exp, "{} items alive, expected {} ({} in the tree)", alive, exp, self.m.len());
        self.drain_log(op)?;
        let h = d.nodes.iter().map(|n| n.depth + 1).max().unwrap_or(0);
        self.cx.max_height = self.cx.max_height.max(h);
        self.cx.max_len = self.cx.max_len.max(self.m.len());
        Ok(d)
    }

    fn drain_log(&self, _op: &'static [&'static str]) -> R {
        if let Some((tag, msg)) = tok::take_log().into_iter().next() {
            return fail(&[tag], msg);
        }
        Ok(())
    }

    /// Runs `f`, turning a panic into a failure.
    pub fn guard<X>(&mut self, tags: &[&'static str], f: impl FnOnce(&mut Self) -> R<X>) -> R<X> {
        BUDGET.with(|b| b.set(400_000));
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        BUDGET.with(|b| b.set(u64::MAX));
        match r {
            Ok(x) => {
                if let Some((tag, msg)) = tok::take_log().into_iter().next() {
                    return fail(&[tag], msg);
                }
                x
            }
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                let logs = tok::take_log();
                let mut tags = tags.to_vec();
                for (t, _) in &logs {
                    tags.push(t);
                }
                let extra: Vec<String> = logs.into_iter().map(|l| l.1).collect();
                if m == store::HANG {
                    return fail(&tags, "the operation does not finish".into());
                }
                fail(&tags, format!("panic: {} {}", m, extra.join("; ")))
            }
        }
    }

    /// An operation of the part that only builds the tree: no comparison afterwards.
    pub fn quick_op(&mut self, op: Op) -> R {
        let tags = tag_of(&op);
        self.guard(tags, |me| me.act(op, None, tags))?;
        Ok(())
    }

    pub fn op(&mut self, op: Op) -> R<Option<Dump<S>>> {
        self.cx.ops += 1;
        let tags = tag_of(&op);
        let before = match op {
            Op::InsertAt(_) | Op::InsertExact(_) | Op::RemoveAt(..) | Op::ReplaceAt(_) | Op::Mutate(..) => Some(Dump::of(self.t.as_ref().unwrap())),
            _ => None,
        };
        let done = self.guard(tags, |me| me.act(op, before, tags))?;
        if !done {
            return Ok(None);
        }
        let structural: &[&'static str] = match op {
            Op::CloneSwap(_) => &["C14", "C04"],
            _ => &["C04"],
        };
        let d = match catch_unwind(AssertUnwindSafe(|| self.compare(tags, structural))) {
            Ok(x) => x?,
            Err(_) => {
                let logs = tok::take_log();
                let mut tg: Vec<&'static str> = structural.to_vec();
                tg.push("C22");
                tg.extend(logs.iter().map(|l| l.0));
                return fail(&tg, format!("the tree cannot be read any more: {:?}", logs));
            }
        };
        self.cx.evals += 1;
        // shape signature
        let mut h = match op {
            Op::Insert(_) => 1u64,
            Op::Remove(_) => 2,
            Op::InsertAt(_) => 3,
            Op::RemoveAt(..) => 4,
            Op::ReplaceAt(_) => 5,
            Op::Mutate(k, _) => 6 + k as u64,
            Op::Clear => 20,
            Op::Forget => 21,
            Op::CloneSwap(_) => 22,
            Op::Consume(..) => 23,
            Op::Drop => 24,
            Op::InsertExact(_) => 25,
        };
        for n in &d.nodes {
            h = (h ^ (n.items.len() as u64 + 16 * n.depth as u64)).wrapping_mul(0x100000001b3).rotate_left(7);
        }
        self.cx.seen.insert(h);
        Ok(Some(d))
    }

    fn act(&mut self, op: Op, before: Option<Dump<S>>, tags: &'static [&'static str]) -> R<bool> {
        let own = &tags[..1];
        match op {
            Op::Insert(k) => {
                let tk = Tok::new(k);
                let v = tk.view();
                let r = self.tree().insert(cmp, tk);
                let exp = match self.m.binary_search_by(|x| x.key.cmp(&k)) {
                    Ok(i) => Some(std::mem::replace(&mut self.m[i], v)),
                    Err(i) => {
                        self.m.insert(i, v);
                        None
                    }
                };
                ck!(own, r.as_ref().map(it) == exp, "insert({}) returned {:?}, expected {:?}", k, r.as_ref().map(it), exp);
            }
            Op::Remove(k) => {
                let r = self.tree().remove(cmpk, &k);
                let exp = match self.m.binary_search_by(|x| x.key.cmp(&k)) {
                    Ok(i) => Some(self.m.remove(i)),
                    Err(_) => None,
                };
                ck!(own, r.as_ref().map(it) == exp, "remove({}) returned {:?}, expected {:?}", k, r.as_ref().map(it), exp);
            }
            Op::InsertAt(i) => {
                let d = before.unwrap();
                let al = d.addrs();
                let (addr, pos) = if al.is_empty() {
                    (None, 0)
                } else {
                    let (a, _, p) = al[i as usize % al.len()];
                    (Some(a), p)
                };
                return self.insert_pos(addr, pos, false);
            }
            Op::InsertExact(i) => {
                let d = before.unwrap();
                let al = d.leaf_gaps();
                let (addr, pos) = if al.is_empty() {
                    (None, 0)
                } else {
                    let (a, p) = al[i as usize % al.len()];
                    (Some(a), p)
                };
                return self.insert_pos(addr, pos, true);
            }
            Op::RemoveAt(i, back) => {
                let d = before.unwrap();
                let mut al = d.addrs();
                for (b, p) in d.befores() {
                    al.push((b, false, p))
                }
                if al.is_empty() {
                    return Ok(false);
                }
                let (a, item, p) = al[i as usize % al.len()];
                let r = unsafe { self.tree().remove_at(a) };
                if !item {
                    ck!(own, r.is_none(), "remove_at({:?}), which holds no item, returned {:?}", a, r.map(|x| x.0.view()));
                    return Ok(true);
                }
                let exp = self.m.remove(p);
                match r {
                    None => return fail(own, format!("remove_at({:?}) returned nothing", a)),
                    Some((x, na)) => {
                        ck!(own, x.view() == exp, "remove_at({:?}) returned {:?}, expected {:?}", a, x.view(), exp);
                        ck!(own, na.is_none() == self.m.is_empty(), "remove_at returned the address {:?} with {} items left", na, self.m.len());
                        if back {
                            // reinserting there restores the sequence
                            self.m.insert(p, exp);
                            let t = self.t.as_mut().unwrap();
                            let b = unsafe { t.insert_at(na, x) };
                            let got = b.and_then(|b| unsafe { t.get_at(b) }.map(it));
                            ck!(&["C11", "C10"], got == Some(exp), "reinserting at {:?} reported {:?}, which holds {:?}", na, b, got);
                        } else {
                            drop(x)
                        }
                    }
                }
            }
            Op::ReplaceAt(i) => {
                let d = before.unwrap();
                let al = d.addrs();
                if self.m.is_empty() {
                    return Ok(false);
                }
                let (a, _, p) = al[i as usize % self.m.len()];
                let tk = Tok::new(self.m[p].key);
                let v = tk.view();
                let r = unsafe { self.tree().replace_at(a, tk) };
                let exp = std::mem::replace(&mut self.m[p], v);
                ck!(own, r.view() == exp, "replace_at returned {:?}, expected {:?}", r.view(), exp);
            }
            Op::Mutate(kind, i) => {
                let d = before.unwrap();
                if self.m.is_empty() {
                    let t = self.t.as_mut().unwrap();
                    ck!(&["C05"], t.first_mut().is_none() && t.last_mut().is_none(), "an end of the empty tree");
                    ck!(&["C02"], t.get_mut(cmpk, &0).is_none(), "get_mut on the empty tree");
                    return Ok(false);
                }
                let n = self.m.len();
                let p = i as usize % n;
                let pay = self.m[p].pay.wrapping_add(i + 1);
                let key = self.m[p].key;
                let t = self.t.as_mut().unwrap();
                match kind {
                    0 | 1 => match t.get_mut(cmpk, &key) {
                        Some(x) => {
                            x.pay = pay;
                            self.m[p].pay = pay
                        }
                        None => return fail(&["C02"], format!("get_mut({}) found nothing", key)),
                    },
                    2 => match unsafe { t.get_mut_at(d.addr_of(p)) } {
                        Some(x) => {
                            x.pay = pay;
                            self.m[p].pay = pay
                        }
                        None => return fail(&["C08", "C11"], format!("get_mut_at found nothing at item {}", p)),
                    },
                    3 => match t.first_mut() {
                        Some(x) => {
                            x.pay = pay;
                            self.m[0].pay = pay
                        }
                        None => return fail(&["C05"], "first_mut() found nothing".into()),
                    },
                    4 => match t.last_mut() {
                        Some(x) => {
                            x.pay = pay;
                            self.m[n - 1].pay = pay
                        }
                        None => return fail(&["C05"], "last_mut() found nothing".into()),
                    },
                    _ => {
                        // mutable iteration with a pattern of ends
                        let mut bits = (i as u64).wrapping_mul(0x9E3779B97F4A7C15);
                        let (mut f, mut b) = (0, n);
                        {
                            let mut iter = if kind == 5 { t.iter_mut() } else { (&mut *t).into_iter() };
                            loop {
                                ck!(own, iter.size_hint() == (b - f, Some(b - f)) && iter.len() == b - f, "size_hint {:?}, {} items left", iter.size_hint(), b - f);
                                bits = bits.rotate_left(1) ^ (f as u64);
                                let front = bits & 1 == 0;
                                let r = if front { iter.next() } else { iter.next_back() };
                                if f == b {
                                    ck!(own, r.is_none(), "mutable iteration yields {:?} after the last item", r);
                                    ck!(own, iter.next().is_none() && iter.next_back().is_none(), "mutable iteration is not fused");
                                    break;
                                }
                                let q = if front {
                                    f += 1;
                                    f - 1
                                } else {
                                    b -= 1;
                                    b
                                };
                                match r {
                                    None => return fail(own, format!("mutable iteration stops with {} items left", b - f + 1)),
                                    Some(x) => {
                                        ck!(own, x.view() == self.m[q], "mutable iteration yields {:?}, expected {:?}", x.view(), self.m[q]);
                                        if q % 3 == p % 3 {
                                            x.pay = x.pay.wrapping_add(q as u32 + 7);
                                            self.m[q].pay = x.pay;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Op::Clear => {
                self.tree().clear();
                self.m.clear();
            }
            Op::Forget => {
                self.tree().forget();
                self.forgotten += self.m.len();
                self.m.clear();
            }
            Op::Drop => {
                self.t = None;
                self.m.clear();
                let a = S::active() - self.base;
                ck!(&["C12"], a == 0, "{} nodes active after the drop of the tree", a);
                self.t = Some(Default::default());
            }
            Op::CloneSwap(x) => {
                let t = self.t.take().unwrap();
                let d0 = Dump::of(&t);
                let c = t.clone();
                let d = Dump::of(&t);
                ck!(own, d.seq == self.m && t.len() == self.m.len(), "cloning changed the original to {:?}", d.seq);
                ck!(own, d.nodes.len() == d0.nodes.len() && d.nodes.iter().zip(&d0.nodes).all(|(a, b)| a.key == b.key), "cloning changed the nodes of the original");
                let dc = Dump::of(&c);
                ck!(own, dc.problems.is_empty(), "the clone is ill-formed: {}", dc.problems.join("; "));
                ck!(own, dc.nodes.iter().all(|n| d.nodes.iter().all(|o| o.key != n.key)), "the clone shares a node");
                ck!(own, dc.seq.len() == self.m.len() && dc.seq.iter().zip(&self.m).all(|(a, b)| a.key == b.key && a.pay == b.pay), "the clone holds {:?}, the original {:?}", dc.seq, self.m);
                ck!(own, dc.seq.iter().all(|a| self.m.iter().all(|b| a.id != b.id)), "the clone shares an item");
                ck!(own, c.len() == self.m.len(), "the clone has length {}", c.len());
                let act = S::active() - self.base;
                ck!(&["C12", "C14"], act == (d.nodes.len() + dc.nodes.len()) as i64, "{} active nodes for {} + {}", act, d.nodes.len(), dc.nodes.len());
                // change one, look at the other
                let (mut a, b, bm) = if x & 1 == 0 { (t, c, dc.seq.clone()) } else { (c, t, self.m.clone()) };
                if x & 2 == 0 {
                    for i in 0..bm.len() {
                        if i % 2 == (x as usize >> 2) % 2 {
                            drop(a.remove(cmpk, &bm[i].key));
                        }
                    }
                } else {
                    for i in 0..10 {
                        drop(a.insert(cmp, Tok::new(i * 7 + 1)));
                    }
                }
                let db = Dump::of(&b);
                ck!(own, db.seq == bm, "changing one of the two trees changed the other to {:?}", db.seq);
                if x & 8 == 0 {
                    drop(a);
                } else {
                    a.clear();
                }
                let db = Dump::of(&b);
                ck!(own, db.seq == bm, "dropping one of the two trees changed the other to {:?}", db.seq);
                self.t = Some(b);
                self.m = bm;
            }
            Op::Consume(mut bits, steps) => {
                let t = self.t.take().unwrap();
                let n = self.m.len();
                let mut iter = t.into_iter();
                let (mut f, mut b) = (0, n);
                let mut got = Vec::new();
                for _ in 0..steps {
                    ck!(own, iter.size_hint() == (b - f, Some(b - f)) && iter.len() == b - f, "size_hint {:?}, {} items left", iter.size_hint(), b - f);
                    let front = bits & 1 == 0;
                    bits = bits.rotate_right(1);
                    let r = if front { iter.next() } else { iter.next_back() };
                    if f == b {
                        ck!(own, r.is_none(), "consuming iteration yields an item after the last");
                        continue;
                    }
                    let q = if front {
                        f += 1;
                        f - 1
                    } else {
                        b -= 1;
                        b
                    };
                    match r {
                        None => return fail(own, format!("consuming iteration stops with {} items left", b - f + 1)),
                        Some(x) => {
                            ck!(own, x.view() == self.m[q], "consuming iteration yields {:?}, expected {:?}", x.view(), self.m[q]);
                            got.push(x);
                        }
                    }
                }
                drop(iter);
                let alive = tok::alive();
                ck!(&["C13"], alive == got.len() + self.held + self.forgotten, "{} items alive after consuming, {} were handed out", alive, got.len());
                let a = S::active() - self.base;
                ck!(&["C12"], a == 0, "{} nodes active after consuming the tree", a);
                drop(got);
                self.m.clear();
                self.t = Some(RawBTree::new());
            }
        }
        Ok(true)
    }

    fn insert_pos(&mut self, addr: Option<Address<S::Node>>, pos: usize, exact: bool) -> R<bool> {
        // a key between the neighbours
        let lo = if pos == 0 { None } else { Some(self.m[pos - 1].key) };
        let hi = self.m.get(pos).map(|x| x.key);
        let key = match (lo, hi) {
            (None, None) => 0,
            (Some(l), None) => l + (1 << 20),
            (None, Some(h)) => h - (1 << 20),
            (Some(l), Some(h)) => {
                if h - l < 2 {
                    return Ok(false);
                }
                l + (h - l) / 2
            }
        };
        let tk = Tok::new(key);
        let v = tk.view();
        let t = self.t.as_mut().unwrap();
        let r = unsafe {
            if exact {
                t.insert_exactly_at(addr, tk, None)
            } else {
                t.insert_at(addr, tk)
            }
        };
        self.m.insert(pos, v);
        let got = match r {
            Some(a) => {
                // the address must be one of the tree
                let d = Dump::of(&*t);
                ck!(&["C10"], d.nodes.iter().any(|n| n.id == a.node), "insert_at({:?}) reported {:?}, which is not in the tree", addr, a);
                unsafe { t.get_at(a) }.map(it)
            }
            None => None,
        };
        ck!(&["C10"], got == Some(v), "insert_at({:?}) reported the address {:?}, which holds {:?}, not the item", addr, r, got);
        Ok(true)
    }

    pub fn finish(&mut self) -> R {
        self.guard(&["C12", "C13", "C22"], |me| {
            me.t = None;
            me.m.clear();
            Ok(())
        })?;
        let a = S::active() - self.base;
        ck!(&["C12"], a == 0, "{} nodes active after the drop of the tree", a);
        ck!(&["C13"], tok::alive() == self.held + self.forgotten, "{} items alive at the end, expected {}", tok::alive(), self.forgotten);
        Ok(())
    }
}
