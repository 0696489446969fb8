//! replay <property> <quick|thorough> <seed> <report.json> <failing-history-file>
//! replay --rerun <property> <failing-history-file>
//!
//! Runs the real crate on concrete histories and compares it with a sequence. Exit 0: no difference
//! that concerns the property. Exit 10: a difference, the history is in the file. It stands in for the functions
//! that are outside the deductive proof, and looks for a failing input when an obligation fails.
mod faults;
mod heap;
mod hist;
mod nodes;
mod probe;
mod store;
mod tok;

use hist::{Ctx, Dump, Fail, History, Op, Run, R};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};
use store::{CheckStorage, Kit};
use tok::{Rng, Tok};

#[global_allocator]
static ALLOC: heap::Count = heap::Count;

/// The questions asked after an operation.
fn probes<S: Kit>(run: &mut Run<S>, d: &Dump<S>, focus: &str, all: bool) -> R {
    let want = |p: &str| all || focus == p;
    let mut n = 0;
    let mut rng = run.cx.rng.clone();
    let which = rng.next();
    run.cx.rng = rng.clone();
    macro_rules! ask {
        ($p:literal, $e:expr) => {
            if want($p) {
                n += run.guard(&[$p, "C22"], |run| {
                    let _ = &run;
                    #[allow(clippy::redundant_closure_call)]
                    $e(run)
                })?;
            }
        };
    }
    ask!("C02", |r: &mut Run<S>| probe::lookups(r.t.as_ref().unwrap(), d, &r.m));
    ask!("C08", |r: &mut Run<S>| probe::steps(r.t.as_ref().unwrap(), d, &r.m));
    ask!("C09", |r: &mut Run<S>| probe::gaps(r.t.as_ref().unwrap(), d, &r.m));
    ask!("C06", |r: &mut Run<S>| probe::iters(r.t.as_ref().unwrap(), &r.m, &mut rng));
    ask!("C19", |r: &mut Run<S>| probe::visits(r.t.as_mut().unwrap(), d));
    ask!("C20", |r: &mut Run<S>| probe::children(r.t.as_ref().unwrap(), d));
    if !all {
        ask!("C21", |r: &mut Run<S>| probe::validator(r, d, which));
    } else if cfg!(debug_assertions) {
        n += run.guard(&["C21", "C22"], |r| {
            r.t.as_ref().unwrap().validate(tok::cmp);
            Ok(1)
        })?;
    }
    run.cx.evals += n;
    if n > 0 {
        // a question changes nothing
        let d2 = Dump::of(run.t.as_ref().unwrap());
        if d2.seq != run.m || !d2.problems.is_empty() || run.t.as_ref().unwrap().len() != run.m.len() {
            let tag: &'static str = PROPS.iter().find(|p| **p == focus).unwrap();
            return hist::fail(&[tag], format!("asking changed the tree to {:?}: {:?}", d2.seq, d2.problems));
        }
    }
    Ok(())
}

pub const PROPS: [&str; 26] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
    "C23", "C24", "C25", "C26",
];

/// How much of a history is looked at: every step, or the end only.
fn play<S: Kit>(h: &History, cx: &mut Ctx, from: usize) -> R {
    tok::reset();
    store::reset(h.mode);
    let focus = cx.focus;
    let all = focus == "C22";
    let mut run: Run<S> = Run::new(cx);
    let r = (|| {
        for (i, op) in h.ops.iter().enumerate() {
            if i < from {
                run.quick_op(*op)?;
            } else if let Some(d) = run.op(*op)? {
                probes(&mut run, &d, focus, all)?;
            }
        }
        if h.ops.is_empty() {
            let d = Dump::of(run.t.as_ref().unwrap());
            probes(&mut run, &d, focus, all)?;
        }
        run.finish()
    })();
    if r.is_err() {
        // the tree cannot be trusted
        std::mem::forget(run.t.take());
    }
    r
}

fn play_any(h: &History, cx: &mut Ctx, from: usize) -> R {
    let r = catch_unwind(AssertUnwindSafe(|| match h.mode {
        3 => play::<raw_btree::storage::BoxStorage>(h, cx, from),
        _ => play::<CheckStorage<Tok>>(h, cx, from),
    }));
    match r {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            let logs = tok::take_log();
            let mut tags: Vec<&'static str> = vec!["C22"];
            tags.extend(logs.iter().map(|l| l.0));
            hist::fail(&tags, format!("panic outside an operation: {} {:?}", m, logs))
        }
    }
}

// ---------------------------------------------------------------- generation

fn build(n: usize, order: u8, rng: &mut Rng) -> Vec<Op> {
    let mut keys: Vec<i64> = (0..n as i64).map(|i| i * 1000).collect();
    match order {
        0 => (),
        1 => keys.reverse(),
        2 => {
            // from both ends to the middle
            let mut v = Vec::new();
            let (mut i, mut j) = (0, keys.len());
            while i < j {
                v.push(keys[i]);
                i += 1;
                if i < j {
                    j -= 1;
                    v.push(keys[j]);
                }
            }
            keys = v
        }
        _ => {
            for i in (1..keys.len()).rev() {
                let j = rng.below(i + 1);
                keys.swap(i, j)
            }
        }
    }
    keys.into_iter().map(Op::Insert).collect()
}

/// Builds a tree, then thins it out or fills it, so that nodes of every size occur.
fn shaped(n: usize, order: u8, rng: &mut Rng) -> Vec<Op> {
    let mut v = build(n, order, rng);
    match rng.below(4) {
        0 => {
            for _ in 0..rng.below(n / 2 + 1) {
                v.push(Op::Remove(rng.below(n.max(1)) as i64 * 1000))
            }
        }
        1 => {
            for _ in 0..rng.below(n / 2 + 1) {
                v.push(Op::Insert(rng.below(n.max(1)) as i64 * 1000 + 1 + rng.below(999) as i64))
            }
        }
        2 => {
            let a = rng.below(n.max(1));
            let b = a + rng.below(n / 3 + 1);
            for k in a..b {
                v.push(Op::Remove(k as i64 * 1000))
            }
        }
        _ => (),
    }
    v
}

fn random_op(focus: &str, rng: &mut Rng, dom: usize, grow: bool) -> Op {
    let k = rng.below(dom) as i64 * 1000;
    let r = rng.next() as u32;
    let special = rng.below(100);
    let heavy = |p: usize| special < p;
    match focus {
        "C02" if heavy(15) => return Op::Mutate(0, r),
        "C05" if heavy(25) => return Op::Mutate(3 + (r % 2) as u8, r),
        "C07" if heavy(25) => return if r % 5 == 0 { Op::Consume(rng.next(), r >> 8 & 127) } else { Op::Mutate(5 + (r % 2) as u8, r) },
        "C10" if heavy(50) => return if r % 4 == 0 { Op::InsertExact(r >> 4) } else { Op::InsertAt(r >> 4) },
        "C11" if heavy(50) => return match r % 8 {
            0 => Op::ReplaceAt(r >> 4),
            1 => Op::Mutate(2, r >> 4),
            2..=5 => Op::RemoveAt(r >> 4, true),
            _ => Op::RemoveAt(r >> 4, false),
        },
        "C14" if heavy(20) => return Op::CloneSwap(r),
        "C12" | "C13" if heavy(8) => {
            return match r % 6 {
                0 => Op::Clear,
                1 => Op::Forget,
                2 => Op::CloneSwap(r >> 4),
                3 => Op::Drop,
                _ => Op::Consume(rng.next(), r >> 8 & 127),
            }
        }
        "C22" | "C04" | "C05" if special > 96 => {
            return match r % 12 {
                0 => Op::Clear,
                1 => Op::Forget,
                2 | 3 => Op::CloneSwap(r >> 4),
                4 => Op::Consume(rng.next(), r >> 8 & 127),
                _ => Op::Mutate((r >> 3) as u8 % 7, r >> 8),
            }
        }
        _ => (),
    }
    let by_addr = matches!(focus, "C04" | "C12" | "C13" | "C22" | "C05" | "C10" | "C11") && rng.below(100) < 45;
    let ins = rng.below(100) < if grow { 70 } else { 25 };
    if by_addr {
        if ins {
            if r % 4 == 0 {
                Op::InsertExact(r >> 4)
            } else {
                Op::InsertAt(r >> 4)
            }
        } else {
            match r % 10 {
                0 => Op::ReplaceAt(r >> 4),
                1 | 2 => Op::RemoveAt(r >> 4, true),
                _ => Op::RemoveAt(r >> 4, false),
            }
        }
    } else if ins {
        Op::Insert(k)
    } else {
        Op::Remove(k)
    }
}

/// The operations of the systematic part: each applied at every place of small trees.
fn singles(focus: &str, n: usize) -> Vec<Op> {
    let mut v = Vec::new();
    let items = n as u32;
    let places = n as u32 + n as u32 / 2 + 4;
    match focus {
        "C01" => {
            for i in 0..=n as i64 {
                v.push(Op::Insert(i * 1000));
                v.push(Op::Insert(i * 1000 - 500));
            }
        }
        "C03" => {
            for i in 0..n as i64 {
                v.push(Op::Remove(i * 1000));
            }
            v.push(Op::Remove(-5));
            v.push(Op::Remove(n as i64 * 500 + 3));
        }
        "C10" => {
            for i in 0..places {
                v.push(Op::InsertAt(i));
                v.push(Op::InsertExact(i));
            }
        }
        "C11" => {
            for i in 0..places + 4 {
                v.push(Op::RemoveAt(i, true));
                v.push(Op::RemoveAt(i, false));
            }
            for i in 0..items {
                v.push(Op::ReplaceAt(i));
                v.push(Op::Mutate(2, i));
            }
        }
        "C07" => {
            for i in 0..(n as u32 + 2) {
                v.push(Op::Consume(0x5555_5555_5555_5555, i));
                v.push(Op::Consume(u64::MAX << (i / 2), i));
                v.push(Op::Consume(0, i));
                v.push(Op::Mutate(5, i));
            }
        }
        "C12" | "C13" => {
            for i in 0..(n as u32 + 2) {
                v.push(Op::Consume(0x9999_5555_3333_5555, i));
                v.push(Op::RemoveAt(i, false));
                v.push(Op::InsertAt(i));
                v.push(Op::Remove(i as i64 * 1000));
                v.push(Op::ReplaceAt(i));
                v.push(Op::Insert(i as i64 * 1000));
            }
            v.extend([Op::Clear, Op::Forget, Op::Drop, Op::CloneSwap(0), Op::CloneSwap(8)]);
        }
        "C14" => {
            for i in 0..16 {
                v.push(Op::CloneSwap(i))
            }
        }
        "C05" => {
            for i in 0..7 {
                v.push(Op::Mutate(i, 3))
            }
            v.extend([Op::Clear, Op::Forget, Op::CloneSwap(1), Op::Remove(0), Op::Insert(-1), Op::Remove(n as i64 * 1000 - 1000), Op::Insert(n as i64 * 1000)]);
        }
        "C02" => {
            for i in 0..items {
                v.push(Op::Mutate(0, i))
            }
            v.push(Op::Insert(n as i64 * 500 + 1))
        }
        "C04" | "C22" => {
            for i in 0..places {
                v.push(Op::InsertAt(i));
                v.push(Op::RemoveAt(i, i % 3 == 0));
                v.push(Op::Remove(i as i64 * 1000));
                v.push(Op::Insert(i as i64 * 1000 + 500));
            }
            v.push(Op::CloneSwap(3));
        }
        _ => {
            v.push(Op::Insert(n as i64 * 500 + 1));
            v.push(Op::Remove(n as i64 / 2 * 1000));
        }
    }
    v
}

struct Found {
    h: History,
    f: Fail,
}

fn search(cx: &mut Ctx, seed: u64, limit: Duration, modes: &[u8], crumb: Option<&str>) -> (Option<Found>, u64, Vec<String>) {
    let t0 = Instant::now();
    let focus = cx.focus;
    let mut rng = Rng::new(seed);
    let mut count = 0u64;
    let mut samples = Vec::new();
    let mut others = 0u64;
    let mut try_one = |h: History, from: usize, cx: &mut Ctx, count: &mut u64| -> Option<Found> {
        *count += 1;
        if *count % 9973 == 3 || (samples.len() < 3 && h.ops.len() > 5 && h.ops.len() < 40) {
            if samples.len() < 6 {
                samples.push(text(&h).replace('\n', "; "));
            }
        }
        if let Some(c) = crumb {
            let _ = std::fs::write(c, text(&h));
        }
        match play_any(&h, cx, from) {
            Ok(()) => None,
            Err(f) => {
                if f.tags.contains(&focus) {
                    Some(Found { h, f })
                } else {
                    others += 1;
                    None
                }
            }
        }
    };
    // systematic part: every operation at every place of small trees
    let sysmax = 44;
    'sys: for n in 0..=sysmax {
        for order in 0..4u8 {
            let ops = build(n, order, &mut rng);
            for (q, s) in singles(focus, n).into_iter().enumerate() {
                let mode = modes[q % modes.len()];
                let mut o = ops.clone();
                let from = o.len();
                o.push(s);
                if let Some(f) = try_one(History { mode, ops: o }, from, cx, &mut count) {
                    return (Some(f), count, samples);
                }
            }
            if t0.elapsed() > limit / 2 {
                break 'sys;
            }
        }
    }
    // random part
    let mut round = 0usize;
    while t0.elapsed() < limit {
        round += 1;
        let mode = modes[round % modes.len()];
        let big = round % 12 == 0;
        let dom = [6, 14, 30, 60, 120, 240, 700][rng.below(if big { 7 } else { 5 })];
        let mut ops = Vec::new();
        if rng.below(2) == 0 {
            let n = rng.below(dom);
            ops = shaped(n, rng.below(4) as u8, &mut rng);
        }
        let from = ops.len();
        let phases = 1 + rng.below(4);
        let mut grow = rng.below(3) != 0;
        for _ in 0..phases {
            for _ in 0..rng.below(dom.min(160) + 4) {
                ops.push(random_op(focus, &mut rng, dom, grow));
            }
            grow = !grow;
        }
        if let Some(f) = try_one(History { mode, ops }, from, cx, &mut count) {
            return (Some(f), count, samples);
        }
    }
    let _ = others;
    (None, count, samples)
}

/// Leaves out operations as long as the failure stays.
fn shrink(mut x: Found, cx: &mut Ctx) -> Found {
    let t0 = Instant::now();
    let mut chunk = (x.h.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < x.h.ops.len() {
            if t0.elapsed() > Duration::from_secs(15) {
                return x;
            }
            let mut h = x.h.clone();
            let j = (i + chunk).min(h.ops.len());
            h.ops.drain(i..j);
            match play_any(&h, cx, 0) {
                Err(f) if f.tags.contains(&cx.focus) => {
                    x = Found { h, f };
                    changed = true
                }
                _ => i += chunk,
            }
        }
        if chunk == 1 && !changed {
            return x;
        }
        if !changed {
            chunk /= 2
        }
    }
}

// ---------------------------------------------------------------- text of a history

fn text(h: &History) -> String {
    let mut s = format!("mode {}\n", h.mode);
    for o in &h.ops {
        s += &match o {
            Op::Insert(k) => format!("insert {}", k),
            Op::Remove(k) => format!("remove {}", k),
            Op::InsertAt(i) => format!("insert_at {}", i),
            Op::InsertExact(i) => format!("insert_exactly_at {}", i),
            Op::RemoveAt(i, b) => format!("remove_at {} {}", i, *b as u8),
            Op::ReplaceAt(i) => format!("replace_at {}", i),
            Op::Mutate(k, i) => format!("mutate {} {}", k, i),
            Op::Clear => "clear".into(),
            Op::Forget => "forget".into(),
            Op::CloneSwap(x) => format!("clone {}", x),
            Op::Consume(b, n) => format!("consume {} {}", b, n),
            Op::Drop => "drop".into(),
        };
        s.push('\n');
    }
    s
}

fn parse(s: &str) -> History {
    let mut h = History { mode: 0, ops: vec![] };
    for l in s.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() || w[0].starts_with('#') {
            continue;
        }
        let a = |i: usize| w[i].parse::<i64>().unwrap();
        let u = |i: usize| w[i].parse::<u64>().unwrap();
        h.ops.push(match w[0] {
            "mode" => {
                h.mode = a(1) as u8;
                continue;
            }
            "insert" => Op::Insert(a(1)),
            "remove" => Op::Remove(a(1)),
            "insert_at" => Op::InsertAt(u(1) as u32),
            "insert_exactly_at" => Op::InsertExact(u(1) as u32),
            "remove_at" => Op::RemoveAt(u(1) as u32, u(2) == 1),
            "replace_at" => Op::ReplaceAt(u(1) as u32),
            "mutate" => Op::Mutate(u(1) as u8, u(2) as u32),
            "clear" => Op::Clear,
            "forget" => Op::Forget,
            "clone" => Op::CloneSwap(u(1) as u32),
            "consume" => Op::Consume(u(1), u(2) as u32),
            "drop" => Op::Drop,
            x => panic!("unknown operation {}", x),
        });
    }
    h
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let rerun = a[1] == "--rerun";
    let pid = if rerun { &a[2] } else { &a[1] };
    let focus: &'static str = PROPS.iter().find(|p| *p == pid).expect("property");
    let mut cx = Ctx { focus, evals: 0, ops: 0, max_height: 0, max_len: 0, rng: Rng::new(1), seen: Default::default() };
    if rerun {
        let s = std::fs::read_to_string(&a[3]).unwrap();
        if s.contains("# node-level case") {
            match nodes::run(focus, 1, &mut cx) {
                Err(f) => {
                    println!("{}", f.msg);
                    std::process::exit(10)
                }
                Ok(_) => println!("no difference"),
            }
            return;
        }
        if let Some(c) = faults::parse(&s) {
            match faults::run_case(&c) {
                Err(f) => {
                    println!("{:?}: {}", f.tags, f.msg);
                    std::process::exit(10)
                }
                Ok(_) => println!("no difference"),
            }
            return;
        }
        let h = parse(&s);
        match play_any(&h, &mut cx, 0) {
            Err(f) => {
                println!("{:?}: {}", f.tags, f.msg);
                std::process::exit(10)
            }
            Ok(()) => println!("no difference"),
        }
        return;
    }
    let thorough = a[2] == "thorough";
    let seed: u64 = a[3].parse().unwrap();
    let t0 = Instant::now();
    cx.rng = Rng::new(seed ^ 0xabcdef);
    let secs = |q: u64, t: u64| Duration::from_secs(if thorough { t } else { q });
    let mut count = 0;
    let mut samples: Vec<String> = Vec::new();
    let mut found: Option<(String, Fail)> = None;
    let mut rules = Vec::new();
    if focus == "C24" {
        match faults::search(&mut cx, seed, secs(20, 240), &a[5]) {
            Ok((n, rule, s)) => {
                count += n;
                rules.push(rule);
                samples = s;
            }
            Err((c, f)) => found = Some((format!("# {}\n{}", f.msg.replace('\n', " "), faults::text(&c)), f)),
        }
    }
    // node-level part
    match if focus == "C24" { Ok(None) } else { nodes::run(focus, seed, &mut cx) } {
        Ok(None) => (),
        Ok(Some((n, rule, mut s))) => {
            count += n;
            rules.push(rule);
            samples.append(&mut s);
        }
        Err(f) => found = Some((format!("# node-level case\n# {}\n", f.msg.replace('\n', " ")), f)),
    }
    let tree = !matches!(focus, "C16" | "C17" | "C18" | "C23" | "C24");
    if found.is_none() && tree {
        let lim = match focus {
            "C15" => secs(3, 20),
            _ => secs(14, 240),
        };
        let (f, n, s) = search(&mut cx, seed, lim * 2 / 3, &[0, 1, 0, 2], None);
        count += n;
        samples.extend(s);
        if let Some(f) = f {
            let f = shrink(f, &mut cx);
            found = Some((format!("# {}\n{}", f.f.msg.replace('\n', " "), text(&f.h)), f.f));
        } else {
            // the crate's own storage: a crash leaves the history in the file
            std::fs::write(&a[5], "").unwrap();
            let (f, n, s) = search(&mut cx, seed ^ 77, lim / 3, &[3], Some(&a[5]));
            let _ = std::fs::remove_file(&a[5]);
            count += n;
            samples.extend(s);
            if let Some(f) = f {
                let f = shrink(f, &mut cx);
                found = Some((format!("# {}\n{}", f.f.msg.replace('\n', " "), text(&f.h)), f.f));
            }
        }
        rules.push("histories of operations on trees, systematic (each operation at each place of small trees built in four orders) and random (growing and shrinking phases, up to 700 keys), on a checking storage in three modes and on BoxStorage; a case counts as distinct and non-trivial when its pair of operation and tree shape is new".into());
    }
    samples.truncate(6);
    let rep = format!(
        "{{\"histories\": {}, \"operations\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}, \"max_height\": {}, \"max_len\": {}, \"rule\": {}, \"samples\": [{}], \"wall_s\": {:.2}, \"failed\": {}, \"message\": {}}}",
        count,
        cx.ops,
        cx.evals,
        cx.seen.len(),
        cx.max_height,
        cx.max_len,
        esc(&rules.join(" | ")),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        t0.elapsed().as_secs_f64(),
        found.is_some(),
        esc(found.as_ref().map(|f| f.1.msg.as_str()).unwrap_or(""))
    );
    std::fs::write(&a[4], rep).unwrap();
    if let Some((t, f)) = found {
        std::fs::write(&a[5], &t).unwrap();
        println!("{}", f.msg);
        std::process::exit(10)
    }
}
