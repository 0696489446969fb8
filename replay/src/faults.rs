//! Panics that start inside user code: each operation on trees of many shapes, with a panic at each call of a
//! comparison, a clone or a destructor in it. No item may be destroyed twice, and what is left of the tree is
//! used and dropped.
use crate::hist::{fail, Ctx, R};
use crate::store::{self, CheckStorage, Kit};
use crate::tok::{self, Rng, Tok};
use raw_btree::RawBTree;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug)]
pub struct Case {
    /// 0, 1: checking storage; 3: the crate's own
    pub mode: u8,
    pub n: usize,
    pub order: u8,
    pub thin: u64,
    pub op: u8,
    pub a: u64,
    pub b: u64,
    pub kind: u8,
    pub at: u64,
}

/// operation, the kind of call that may panic in it
const OPS: [(&str, u8); 12] = [
    ("insert a key", 1),
    ("remove a key", 1),
    ("get_mut", 1),
    ("get", 1),
    ("clone", 2),
    ("clear", 3),
    ("drop", 3),
    ("consume and drop the iterator", 3),
    ("clone, drop the copy", 3),
    ("validate", 1),
    ("forget", 3),
    ("remove a key", 3),
];

pub fn text(c: &Case) -> String {
    format!(
        "# fault case\n# tree of {} keys, then: {}, a panic at call {} of {}\nfault {} {} {} {} {} {} {} {} {}\n",
        c.n,
        OPS[c.op as usize].0,
        c.at,
        ["", "the comparison", "clone", "the destructor"][c.kind as usize],
        c.mode,
        c.n,
        c.order,
        c.thin,
        c.op,
        c.a,
        c.b,
        c.kind,
        c.at
    )
}

pub fn parse(s: &str) -> Option<Case> {
    let l = s.lines().find(|l| l.starts_with("fault "))?;
    let w: Vec<u64> = l.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
    Some(Case { mode: w[0] as u8, n: w[1] as usize, order: w[2] as u8, thin: w[3], op: w[4] as u8, a: w[5], b: w[6], kind: w[7] as u8, at: w[8] })
}

fn build<S: Kit>(c: &Case) -> RawBTree<Tok, S> {
    let mut t: RawBTree<Tok, S> = RawBTree::new();
    let mut rng = Rng::new(c.thin.wrapping_add(5));
    let mut keys: Vec<i64> = (0..c.n as i64).map(|i| i * 10).collect();
    match c.order {
        0 => (),
        1 => keys.reverse(),
        _ => {
            for i in (1..keys.len()).rev() {
                let j = rng.below(i + 1);
                keys.swap(i, j)
            }
        }
    }
    for k in keys {
        t.insert(tok::cmp, Tok::new(k));
    }
    if c.thin % 3 == 1 {
        for _ in 0..rng.below(c.n / 2 + 1) {
            let k = rng.below(c.n) as i64 * 10;
            t.remove(tok::cmpk, &k);
        }
    }
    t
}

fn keys<S: Kit>(t: &RawBTree<Tok, S>) -> Vec<i64> {
    t.iter().take(5000).map(|x| x.view().key).collect()
}

/// What the caller may still do with a tree after the panic.
fn usable<S: Kit>(t: &mut RawBTree<Tok, S>, before: &[i64], changed: bool) -> R {
    let now = keys(t);
    if now.len() != t.len() {
        return fail(&["C24"], format!("after the panic the tree gives {} items and says {}", now.len(), t.len()));
    }
    for x in t.iter() {
        if !tok::is_alive(x.view().id) {
            return fail(&["C24"], "after the panic the tree gives a destroyed item".into());
        }
    }
    if !changed && now != before {
        return fail(&["C24"], format!("after the panic the tree gives {:?} instead of {:?}", now, before));
    }
    let mut back = Vec::new();
    let mut it = t.iter();
    while let Some(x) = it.next_back() {
        back.push(x.view().key);
        if back.len() > 5000 {
            break;
        }
    }
    back.reverse();
    if back != now {
        return fail(&["C24"], format!("after the panic the tree gives {:?} forwards and {:?} backwards", now, back));
    }
    let mut want = now;
    for k in [3i64, -7, 100_003, 55, 31, 3] {
        let had = want.binary_search(&k);
        let r = t.insert(tok::cmp, Tok::new(k));
        if r.is_some() != had.is_ok() {
            return fail(&["C24"], format!("after the panic inserting {} gave {:?}", k, r.map(|x| x.view())));
        }
        if let Err(i) = had {
            want.insert(i, k)
        }
    }
    for k in [3i64, 20, 40, 0, 55, 90] {
        let had = want.binary_search(&k);
        let r = t.remove(tok::cmpk, &k);
        if r.is_some() != had.is_ok() {
            return fail(&["C24"], format!("after the panic removing {} gave {:?}", k, r.map(|x| x.view())));
        }
        if let Ok(i) = had {
            want.remove(i);
        }
    }
    if keys(t) != want || t.len() != want.len() {
        return fail(&["C24"], format!("used after the panic the tree gives {:?} instead of {:?}", keys(t), want));
    }
    #[cfg(debug_assertions)]
    t.validate(tok::cmp);
    Ok(())
}

/// Number of calls met (when `at` is out of their range, of all).
fn play<S: Kit>(c: &Case) -> R<u64> {
    tok::reset();
    store::reset(c.mode);
    let mut tree: Option<RawBTree<Tok, S>> = Some(build::<S>(c));
    let before = keys(tree.as_ref().unwrap());
    let key = c.a as i64;
    let mut rng = Rng::new(c.b);
    let new = (c.op == 0).then(|| Tok::new(key));
    let mut held: Vec<Tok> = Vec::with_capacity(before.len() + 1);
    let mut calls = 0;
    store::BUDGET.with(|b| b.set(2_000_000));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let t = tree.as_mut().unwrap();
        match c.op {
            0 => {
                tok::arm(c.kind, c.at);
                held.extend(t.insert(tok::cmp, new.unwrap()));
            }
            1 | 11 => {
                tok::arm(c.kind, c.at);
                let r = t.remove(tok::cmpk, &key);
                calls = tok::disarm();
                held.extend(r);
            }
            2 => {
                tok::arm(c.kind, c.at);
                if let Some(x) = t.get_mut(tok::cmpk, &key) {
                    x.pay = 1
                }
            }
            3 => {
                tok::arm(c.kind, c.at);
                if let Some(x) = t.get(tok::cmpk, &key) {
                    x.view();
                }
            }
            4 => {
                tok::arm(c.kind, c.at);
                let u = t.clone();
                calls = tok::disarm();
                drop(u);
            }
            5 => {
                tok::arm(c.kind, c.at);
                t.clear();
            }
            6 => {
                let t = tree.take().unwrap();
                tok::arm(c.kind, c.at);
                drop(t);
            }
            7 => {
                let mut i = tree.take().unwrap().into_iter();
                for _ in 0..c.a {
                    let x = if rng.below(2) == 0 { i.next() } else { i.next_back() };
                    held.extend(x);
                }
                tok::arm(c.kind, c.at);
                drop(i);
            }
            8 => {
                let u = t.clone();
                tok::arm(c.kind, c.at);
                drop(u);
            }
            9 => {
                tok::arm(c.kind, c.at);
                #[cfg(debug_assertions)]
                t.validate(tok::cmp);
            }
            _ => {
                tok::arm(c.kind, c.at);
                t.forget();
            }
        }
    }));
    calls = calls.max(tok::disarm());
    store::BUDGET.with(|b| b.set(2_000_000));
    if let Err(p) = r {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if m != tok::INJECTED {
            std::mem::forget(tree);
            let logs = tok::take_log();
            return fail(&["C24"], format!("the operation ended with another panic: {} {:?}", m, logs));
        }
        // what was handed out is still there
        for x in &held {
            if !tok::is_alive(x.view().id) {
                std::mem::forget(tree);
                std::mem::forget(held);
                return fail(&["C24"], "an item that was handed out was destroyed".into());
            }
        }
        drop(held);
        if let Some(mut t) = tree {
            let r = catch_unwind(AssertUnwindSafe(|| usable(&mut t, &before, matches!(c.op, 5 | 10))));
            let r = match r {
                Ok(r) => r,
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    fail(&["C24"], format!("using the tree after the panic: {}", m))
                }
            };
            if r.is_err() {
                std::mem::forget(t);
                return r.map(|_| 0);
            }
            if let Err(p) = catch_unwind(AssertUnwindSafe(move || drop(t))) {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let logs = tok::take_log();
                return fail(&["C24"], format!("dropping the tree after the panic: {} {:?}", m, logs));
            }
        }
        for (tag, m) in tok::take_log() {
            // nodes and items may be leaked
            if tag == "C13" || !m.contains("dropped with") {
                return fail(&["C24"], m);
            }
        }
    } else {
        let _ = catch_unwind(AssertUnwindSafe(move || drop((tree, held))));
        tok::take_log();
    }
    Ok(calls)
}

pub fn run_case(c: &Case) -> R<u64> {
    match c.mode {
        3 => play::<raw_btree::storage::BoxStorage>(c),
        _ => play::<CheckStorage<Tok>>(c),
    }
}

/// (cases, rule, samples); the case under way is in the file, in case it ends the process
pub fn search(cx: &mut Ctx, seed: u64, limit: Duration, crumb: &str) -> Result<(u64, String, Vec<String>), (Case, crate::hist::Fail)> {
    let t0 = Instant::now();
    let mut rng = Rng::new(seed ^ 0xc24);
    let mut count = 0;
    let mut samples = Vec::new();
    let mut round = 0u64;
    'all: loop {
        // first the small trees one by one, then any
        let n = if round < 50 { round as usize } else { [9, 12, 30, 60, 120, 300][rng.below(6)] + rng.below(12) };
        for op in 0..OPS.len() as u8 {
            for variant in 0..3u64 {
                if t0.elapsed() > limit {
                    break 'all;
                }
                let a = match op {
                    7 => rng.below(n + 1) as u64,
                    _ => rng.below(n * 2 + 1) as u64 * 5,
                };
                let c = Case { mode: [0, 3, 1][variant as usize], n, order: rng.below(3) as u8, thin: rng.next() >> 40, op, a, b: rng.next() >> 32, kind: OPS[op as usize].1, at: u64::MAX };
                let _ = std::fs::write(crumb, text(&c));
                let calls = run_case(&c).map_err(|f| (c, f))?;
                // every call of a small number, else the first, the last and some
                let mut ats: Vec<u64> = if calls <= 60 { (0..calls).collect() } else { (0..10).chain(calls - 10..calls).collect() };
                while calls > 60 && ats.len() < 40 {
                    ats.push(rng.below(calls as usize) as u64)
                }
                for at in ats {
                    let c = Case { at, ..c };
                    let _ = std::fs::write(crumb, text(&c));
                    count += 1;
                    cx.evals += 1;
                    cx.max_len = cx.max_len.max(n);
                    run_case(&c).map_err(|f| (c, f))?;
                    cx.seen.insert((op as u64) << 56 ^ (n as u64) << 40 ^ (c.mode as u64) << 36 ^ at);
                    if count % 4999 == 7 && samples.len() < 6 {
                        samples.push(text(&c).replace('\n', "; "));
                    }
                }
            }
        }
        round += 1;
    }
    let _ = std::fs::remove_file(crumb);
    Ok((count, "each operation that calls user code, on trees of 0 to 49 keys and some of up to 300, with a panic at each call of a comparison, clone or destructor in it (40 of them when there are more than 60), on the checking storage and on BoxStorage; then the tree is compared, used, validated and dropped; distinct by operation, size, storage and call".into(), samples))
}
