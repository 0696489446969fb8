//! replay-array C17|C16 <tier> <seed> <report.json> <failing-case-file>
//! The real node buffer and the real in-node search (`/repo/src/utils`), against a sequence:
//! every operation at every length and index, and random sequences of operations.
#[path = "/repo/src/utils/mod.rs"]
#[allow(dead_code, unused_imports)]
mod utils;
#[allow(dead_code)]
mod tok;

use std::panic::{catch_unwind, AssertUnwindSafe};
use tok::{It, Rng, Tok};
use utils::Array;

type R = Result<(), String>;
macro_rules! ck {
    ($c:expr, $($m:tt)*) => { if !$c { return Err(format!($($m)*)); } };
}

fn view<const N: usize>(a: &Array<Tok, N>) -> Vec<It> {
    a.as_slice().iter().map(|x| x.view()).collect()
}

fn fill<const N: usize>(n: usize) -> (Array<Tok, N>, Vec<It>) {
    let mut a = Array::new();
    let mut m = Vec::new();
    for i in 0..n {
        let t = Tok::new(i as i64);
        m.push(t.view());
        a.push(t);
    }
    (a, m)
}

fn after<const N: usize>(what: &str, a: &Array<Tok, N>, m: &[It], held: usize) -> R {
    ck!(view(a) == m, "{}: {:?}, expected {:?}", what, view(a), m);
    ck!(a.len() == m.len() && a.is_empty() == m.is_empty(), "{}: len() {}", what, a.len());
    ck!(tok::alive() == m.len() + held, "{}: {} elements alive, expected {}", what, tok::alive(), m.len() + held);
    logs(what)
}

fn logs(what: &str) -> R {
    match tok::take_log().into_iter().next() {
        Some((_, m)) => Err(format!("{}: {}", what, m)),
        None => Ok(()),
    }
}

fn gone(what: &str) -> R {
    ck!(tok::alive() == 0, "{}: {} elements alive at the end", what, tok::alive());
    logs(what)
}

fn all<const N: usize>(n: &mut u64) -> R {
    for c in 0..=N {
        *n += 1;
        tok::reset();
        // reading
        {
            let (mut a, m) = fill::<N>(c);
            after("push", &a, &m, 0)?;
            for i in 0..=c + 1 {
                ck!(a.get(i).map(|x| x.view()) == m.get(i).copied(), "get({}) of {}", i, c);
            }
            ck!(a.iter().map(|x| x.view()).collect::<Vec<_>>() == m, "iter of {}", c);
            ck!((&a).into_iter().map(|x| x.view()).collect::<Vec<_>>() == m, "iter of {}", c);
            ck!(a.as_slice_mut().len() == c && a.as_ref().len() == c, "slices of {}", c);
            for x in a.iter_mut() {
                x.pay = 3
            }
            let m2: Vec<It> = m.iter().map(|x| It { pay: 3, ..*x }).collect();
            after("iter_mut", &a, &m2, 0)?;
            let d: Array<Tok, N> = Default::default();
            after("default", &d, &[], c)?;
        }
        gone("drop")?;
        // push
        {
            let (mut a, mut m) = fill::<N>(c);
            let t = Tok::new(-1);
            let v = t.view();
            let r = catch_unwind(AssertUnwindSafe(|| a.push(t)));
            ck!(r.is_ok() == (c < N), "push onto {} of {}: {}", c, N, if r.is_ok() { "accepted" } else { "refused" });
            if r.is_ok() {
                m.push(v)
            }
            after("push", &a, &m, 0)?;
        }
        gone("push")?;
        // pop
        {
            let (mut a, mut m) = fill::<N>(c);
            let r = a.pop();
            ck!(r.as_ref().map(|x| x.view()) == m.pop(), "pop of {}", c);
            after("pop", &a, &m, r.is_some() as usize)?;
        }
        gone("pop")?;
        for i in 0..=c + 2 {
            *n += 1;
            {
                let (mut a, mut m) = fill::<N>(c);
                let t = Tok::new(-1);
                let v = t.view();
                let ok = i <= c && c < N;
                let r = catch_unwind(AssertUnwindSafe(|| a.insert(i, t)));
                ck!(r.is_ok() == ok, "insert({}) into {} of {}: {}", i, c, N, if r.is_ok() { "accepted" } else { "refused" });
                if ok {
                    m.insert(i, v)
                }
                after("insert", &a, &m, 0)?;
            }
            gone("insert")?;
            {
                let (mut a, mut m) = fill::<N>(c);
                let r = a.remove(i);
                let e = if i < c { Some(m.remove(i)) } else { None };
                ck!(r.as_ref().map(|x| x.view()) == e, "remove({}) of {}: {:?}", i, c, r);
                after("remove", &a, &m, r.is_some() as usize)?;
            }
            gone("remove")?;
        }
        // append
        for d in 0..=N {
            if c + d > N {
                continue;
            }
            *n += 1;
            {
                let (mut a, mut m) = fill::<N>(c);
                let (mut b, mut m2) = fill::<N>(d);
                a.append(&mut b);
                m.append(&mut m2);
                after("append", &a, &m, 0)?;
                after("append", &b, &[], m.len())?;
            }
            gone("append")?;
            {
                let (mut a, mut m) = fill::<N>(c);
                let (b, mut m2) = fill::<N>(d);
                a.extend(b);
                m.append(&mut m2);
                after("extend", &a, &m, 0)?;
            }
            gone("extend")?;
        }
        // too many collected
        {
            let (a, m) = fill::<N>(c);
            let b: Array<Tok, N> = a.into_iter().collect();
            after("collect", &b, &m, 0)?;
        }
        gone("collect")?;
        {
            let v: Vec<Tok> = (0..N as i64 + 1).map(Tok::new).collect();
            let r = catch_unwind(AssertUnwindSafe(|| v.into_iter().collect::<Array<Tok, N>>()));
            ck!(r.is_err(), "collecting {} into a buffer of {}", N + 1, N);
        }
        gone("collecting too many")?;
        // clone
        {
            let (a, m) = fill::<N>(c);
            let b = a.clone();
            ck!(view(&a) == m, "clone changed the original");
            ck!(b.len() == c && view(&b).iter().zip(&m).all(|(x, y)| x.key == y.key && x.id != y.id), "clone of {}: {:?}", c, view(&b));
            ck!(tok::alive() == 2 * c, "clone: {} alive", tok::alive());
            drop(a);
            ck!(b.as_slice().iter().all(|x| tok::is_alive(x.id)), "dropping the original destroys the clone's elements");
        }
        gone("clone")?;
        // clear
        {
            let (mut a, _) = fill::<N>(c);
            a.clear();
            after("clear", &a, &[], 0)?;
            if N > 0 {
                a.push(Tok::new(1));
                ck!(a.len() == 1, "push after clear");
            }
        }
        gone("clear")?;
        // raw parts
        {
            let (a, m) = fill::<N>(c);
            let (l, b) = a.into_raw_parts();
            ck!(l == c, "into_raw_parts: {}", l);
            for i in 0..l {
                let t = unsafe { b[i].assume_init_read() };
                ck!(t.view() == m[i], "into_raw_parts [{}]", i);
            }
        }
        gone("into_raw_parts")?;
        // owning iteration, from both ends, stopped anywhere
        for steps in 0..=c + 1 {
            for pat in 0..1u32 << steps.min(6) {
                *n += 1;
                {
                    let (a, m) = fill::<N>(c);
                    let mut it = a.into_iter();
                    let (mut f, mut b) = (0, c);
                    let mut held = Vec::new();
                    for s in 0..steps {
                        ck!(it.size_hint() == (b - f, Some(b - f)) && it.len() == b - f, "size_hint {:?}, {} left", it.size_hint(), b - f);
                        let front = pat >> (s % 6) & 1 == 0;
                        let r = if front { it.next() } else { it.next_back() };
                        let e = if f == b {
                            None
                        } else if front {
                            f += 1;
                            Some(m[f - 1])
                        } else {
                            b -= 1;
                            Some(m[b])
                        };
                        ck!(r.as_ref().map(|x| x.view()) == e, "into_iter of {}: {:?}, expected {:?}", c, r, e);
                        held.extend(r);
                    }
                    drop(it);
                    ck!(tok::alive() == held.len(), "into_iter of {} stopped after {}: {} alive", c, steps, tok::alive());
                }
                gone("into_iter")?;
            }
        }
        // draining every range, from both ends, stopped anywhere
        for i in 0..=c {
            for j in i..=c {
                for steps in 0..=(j - i) + 1 {
                    for pat in [0u32, !0, 0b01010101010101, 0b0011001100110011] {
                        *n += 1;
                        {
                            let (mut a, mut m) = fill::<N>(c);
                            let mut held = Vec::new();
                            {
                                let mut d = a.drain(i..j);
                                let (mut f, mut b) = (i, j);
                                for s in 0..steps {
                                    ck!(d.size_hint() == (b - f, Some(b - f)) && d.len() == b - f, "drain: size_hint {:?}, {} left", d.size_hint(), b - f);
                                    let front = pat >> s & 1 == 0;
                                    let r = if front { d.next() } else { d.next_back() };
                                    let e = if f == b {
                                        None
                                    } else if front {
                                        f += 1;
                                        Some(m[f - 1])
                                    } else {
                                        b -= 1;
                                        Some(m[b])
                                    };
                                    ck!(r.as_ref().map(|x| x.view()) == e, "drain({}..{}) of {}: {:?}, expected {:?}", i, j, c, r, e);
                                    held.extend(r);
                                }
                            }
                            m.drain(i..j);
                            after("drain", &a, &m, held.len())?;
                        }
                        gone("drain")?;
                    }
                }
                // the other kinds of range
                {
                    let (mut a, mut m) = fill::<N>(c);
                    if j == c {
                        drop(a.drain(i..));
                    } else {
                        drop(a.drain(i..=j));
                    }
                    if j == c {
                        m.drain(i..);
                    } else {
                        m.drain(i..=j);
                    }
                    after("drain", &a, &m, 0)?;
                    drop(a);
                    let (mut a, mut m2) = fill::<N>(c);
                    drop(a.drain(..j));
                    m2.drain(..j);
                    after("drain", &a, &m2, 0)?;
                    drop(a.drain(..));
                    after("drain", &a, &[], 0)?;
                }
                gone("drain")?;
            }
        }
    }
    Ok(())
}

fn random<const N: usize>(n: &mut u64, rng: &mut Rng, rounds: usize) -> R {
    for _ in 0..rounds {
        tok::reset();
        {
            let (mut a, mut m) = fill::<N>(rng.below(N + 1));
            for _ in 0..40 {
                *n += 1;
                let i = rng.below(m.len() + 1);
                match rng.below(7) {
                    0 | 1 if m.len() < N => {
                        let t = Tok::new(9);
                        m.insert(i, t.view());
                        a.insert(i, t);
                    }
                    2 if m.len() < N => {
                        let t = Tok::new(9);
                        m.push(t.view());
                        a.push(t);
                    }
                    3 if i < m.len() => {
                        m.remove(i);
                        a.remove(i);
                    }
                    4 => {
                        m.pop();
                        a.pop();
                    }
                    5 => {
                        let j = i + rng.below(m.len() - i + 1);
                        m.drain(i..j);
                        let k = rng.below(j - i + 2);
                        let back = rng.below(2) == 0;
                        let mut d = a.drain(i..j);
                        for _ in 0..k {
                            if back {
                                d.next_back();
                            } else {
                                d.next();
                            }
                        }
                    }
                    6 => {
                        let b: Array<Tok, N> = a.drain(i..).collect();
                        after("drain and collect", &a, &m[..i], m.len() - i)?;
                        let mut b = b;
                        a.append(&mut b);
                    }
                    _ => (),
                }
                after("random operations", &a, &m, 0)?;
            }
        }
        gone("random operations")?;
    }
    Ok(())
}

fn search(n: &mut u64) -> R {
    for len in 0..=40usize {
        for key in -1..=2 * len as i64 {
            *n += 1;
            let v: Vec<i64> = (0..len as i64).map(|i| 2 * i).collect();
            let r = catch_unwind(|| utils::binary_search_min(|a: &i64, b: &i64| a.cmp(b), &v, &key));
            let c = v.iter().filter(|x| **x <= key).count();
            let e = if c == 0 { None } else { Some((c - 1, v[c - 1] == key)) };
            match r {
                Err(_) => return Err(format!("the search of {} items panics", len)),
                Ok(r) => ck!(r == e, "binary_search_min of {} in {:?} is {:?}, expected {:?}", key, v, r, e),
            }
        }
    }
    // items that compare equal to one another: some of the equal ones is found
    for len in 1..=12usize {
        for a in 0..=len {
            for b in a..=len {
                *n += 1;
                let v: Vec<i64> = (0..len).map(|i| if i < a { -1 } else if i < b { 0 } else { 1 }).collect();
                let r = catch_unwind(|| utils::binary_search_min(|a: &i64, b: &i64| a.cmp(b), &v, &0));
                match r {
                    Err(_) => return Err(format!("the search of {} items panics", len)),
                    Ok(None) => ck!(b == 0, "binary_search_min of 0 in {:?} is None", v),
                    Ok(Some((i, true))) => ck!(v.get(i) == Some(&0), "binary_search_min of 0 in {:?} says equal at {}", v, i),
                    Ok(Some((i, false))) => ck!(a == b && i + 1 == a, "binary_search_min of 0 in {:?} says not equal at {}", v, i),
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let thorough = a[2] == "thorough";
    let mut rng = Rng::new(a[3].parse().unwrap());
    let mut n = 0;
    // a crash leaves this behind
    std::fs::write(&a[5], "# node buffer: the exhaustive enumeration of replay/src/array_main.rs crashed\n").unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| -> R {
        if a[1] == "C16" {
            return search(&mut n);
        }
        all::<0>(&mut n)?;
        all::<1>(&mut n)?;
        all::<4>(&mut n)?;
        all::<8>(&mut n)?;
        all::<9>(&mut n)?;
        let k = if thorough { 60000 } else { 3000 };
        random::<8>(&mut n, &mut rng, k)?;
        random::<9>(&mut n, &mut rng, k)
    }))
    .unwrap_or_else(|p| Err(format!("panic: {:?}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())))));
    let esc = |s: &str| format!("{:?}", s);
    let msg = r.as_ref().err().cloned().unwrap_or_default();
    let sample = if a[1] == "C16" { "search of 7 among [0, 2, 4, 6, 8, 10, 12, 14, 16]" } else { "drain(2..5) of a buffer of 8, one element taken from the back, then dropped" };
    let rule = if a[1] == "C16" { "search of every key between and on the items of slices of up to 40 items, and slices with runs of equal items up to 12" } else { "every buffer operation at every length, index, range and early stop for capacities 0, 1, 4, 8 and 9, then random sequences of operations; each case is distinct by construction of the enumeration" };
    std::fs::write(
        &a[4],
        format!("{{\"histories\": {n}, \"operations\": {n}, \"evaluations\": {n}, \"distinct_nontrivial\": {n}, \"max_height\": 0, \"max_len\": 9, \"rule\": {}, \"samples\": [{}], \"wall_s\": 0, \"failed\": {}, \"message\": {}}}", esc(rule), esc(sample), r.is_err(), esc(&msg)),
    )
    .unwrap();
    if let Err(m) = r {
        std::fs::write(&a[5], format!("# node buffer case\n# {}\n", m)).unwrap();
        println!("{}", m);
        std::process::exit(10)
    }
    let _ = std::fs::remove_file(&a[5]);
}
