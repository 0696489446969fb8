//! Items whose life is tracked, and the bookkeeping of violations seen outside a return value.
use std::cell::RefCell;
use std::cmp::Ordering;

#[derive(Default)]
struct Reg {
    state: Vec<u8>, // 1 alive, 2 destroyed
    log: Vec<(&'static str, String)>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

pub fn reset() {
    REG.with(|r| *r.borrow_mut() = Reg::default())
}
pub fn log(tag: &'static str, msg: String) {
    REG.with(|r| r.borrow_mut().log.push((tag, msg)))
}
pub fn take_log() -> Vec<(&'static str, String)> {
    REG.with(|r| std::mem::take(&mut r.borrow_mut().log))
}
/// Ids of the items which are alive.
pub fn alive() -> usize {
    REG.with(|r| r.borrow().state.iter().filter(|s| **s == 1).count())
}
pub fn is_alive(id: u32) -> bool {
    REG.with(|r| r.borrow().state.get(id as usize) == Some(&1))
}

thread_local! {
    /// Which calls of user code are counted (1 comparison, 2 clone, 3 destructor), how many were met, and at
    /// which of them a panic starts.
    static FAULT: RefCell<(u8, u64, u64)> = RefCell::new((0, 0, u64::MAX));
}
pub const INJECTED: &str = "INJECTED";

/// Counts the calls of this kind from now on; the one with number `at` panics.
pub fn arm(kind: u8, at: u64) {
    FAULT.with(|f| *f.borrow_mut() = (kind, 0, at))
}
/// Ends that; the number of calls met.
pub fn disarm() -> u64 {
    FAULT.with(|f| {
        let n = f.borrow().1;
        *f.borrow_mut() = (0, 0, u64::MAX);
        n
    })
}
fn call(kind: u8) {
    let now = FAULT.with(|f| {
        let mut f = f.borrow_mut();
        if f.0 != kind || std::thread::panicking() {
            return false;
        }
        f.1 += 1;
        f.1 - 1 == f.2
    });
    if now {
        panic!("{}", INJECTED)
    }
}

const MAGIC: u64 = 0x5afe_c0de_1234_9876;

// The alignment makes the heap layout of a node recognisable (see heap.rs).
#[derive(Debug)]
#[repr(align(32))]
pub struct Tok {
    pub key: i64,
    pub pay: u32,
    pub id: u32,
    magic: u64,
}

impl Tok {
    pub fn new(key: i64) -> Tok {
        let id = REG.with(|r| {
            let mut r = r.borrow_mut();
            r.state.push(1);
            r.state.len() as u32 - 1
        });
        Tok { key, pay: 0, id, magic: MAGIC }
    }
    pub fn view(&self) -> It {
        if self.magic != MAGIC {
            log("C13", format!("uninitialised or destroyed item read: {:?}", (self.key, self.id)));
        }
        It { key: self.key, pay: self.pay, id: self.id }
    }
}

impl Clone for Tok {
    fn clone(&self) -> Tok {
        let _ = self.view();
        call(2);
        let mut t = Tok::new(self.key);
        t.pay = self.pay;
        t
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            log("C13", format!("destructor run on something that is not a live item (id {})", self.id));
            return;
        }
        let id = self.id as usize;
        REG.with(|r| {
            let mut r = r.borrow_mut();
            if id >= r.state.len() || r.state[id] != 1 {
                let m = format!("item {} (key {}) destroyed twice", id, self.key);
                r.log.push(("C13", m));
            } else {
                r.state[id] = 2;
            }
        });
        call(3);
    }
}

/// What the model remembers of an item.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct It {
    pub key: i64,
    pub pay: u32,
    pub id: u32,
}

pub fn cmp(a: &Tok, b: &Tok) -> Ordering {
    call(1);
    a.view().key.cmp(&b.view().key)
}
pub fn cmpk(a: &Tok, b: &i64) -> Ordering {
    call(1);
    a.view().key.cmp(b)
}

/// Deterministic generator.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
}
