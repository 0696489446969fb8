//! A node storage that honours the documented contract and checks its user.
use crate::tok::log;
use raw_btree::storage::Dropper;
use raw_btree::{Node, Storage};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::HashMap;
use std::rc::Rc;

thread_local! {
    /// 0: fresh identifiers, 1: released identifiers are reused at once, 2: no dropper.
    pub static MODE: Cell<u8> = Cell::new(0);
    static NEXT: Cell<u32> = Cell::new(0);
    static SERIAL: Cell<u32> = Cell::new(0);
    /// Active identifiers of all the storages.
    pub static ACTIVE: Cell<i64> = Cell::new(0);
    /// Identifiers released by a storage of mode 1.
    static FREE: RefCell<Vec<u32>> = RefCell::new(Vec::new());
    /// Accesses left before an operation is said not to finish.
    pub static BUDGET: Cell<u64> = Cell::new(u64::MAX);
    /// Number of storages alive.
    pub static STORES: Cell<i64> = Cell::new(0);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct CId(pub u32);

struct Inner<T> {
    active: UnsafeCell<HashMap<u32, Box<Node<T, CheckStorage<T>>>>>,
    serial: u32,
    mode: u8,
}

pub struct CheckStorage<T>(Rc<Inner<T>>);

pub const STOP: &str = "STORAGE-CONTRACT";
pub const HANG: &str = "ACCESS-BUDGET";

fn misuse(m: String) -> ! {
    log("C12", m);
    panic!("{}", STOP)
}

fn tick() {
    BUDGET.with(|b| {
        let v = b.get();
        if v == 0 {
            panic!("{}", HANG)
        }
        b.set(v - 1)
    })
}

impl<T> Default for CheckStorage<T> {
    fn default() -> Self {
        STORES.with(|s| s.set(s.get() + 1));
        CheckStorage(Rc::new(Inner {
            active: UnsafeCell::new(HashMap::new()),
            serial: SERIAL.with(|n| {
                n.set(n.get() + 1);
                n.get()
            }),
            mode: MODE.with(|m| m.get()),
        }))
    }
}

impl<T> CheckStorage<T> {
    #[allow(clippy::mut_from_ref)]
    fn map(&self) -> &mut HashMap<u32, Box<Node<T, CheckStorage<T>>>> {
        unsafe { &mut *self.0.active.get() }
    }
}

impl<T> Drop for CheckStorage<T> {
    fn drop(&mut self) {
        STORES.with(|s| s.set(s.get() - 1));
        let n = self.map().len();
        ACTIVE.with(|a| a.set(a.get() - n as i64));
        if n > 0 && self.0.mode != 2 && !std::thread::panicking() {
            log("C12", format!("storage {} dropped with {} active node(s)", self.0.serial, n));
        }
        if self.0.mode == 2 {
            self.map().clear();
        } else {
            for (_, b) in self.map().drain() {
                std::mem::forget(b)
            }
        }
    }
}

unsafe impl<T> Storage<T> for CheckStorage<T> {
    type Node = CId;
    type Dropper = CheckDropper<T>;

    fn allocate_node(&mut self, node: Node<T, Self>) -> CId {
        tick();
        let reuse = if self.0.mode == 1 { FREE.with(|f| f.borrow_mut().pop()) } else { None };
        let id = reuse.unwrap_or_else(|| {
            NEXT.with(|n| {
                n.set(n.get() + 1);
                n.get()
            })
        });
        if self.map().insert(id, Box::new(node)).is_some() {
            panic!("harness: identifier given twice")
        }
        ACTIVE.with(|a| a.set(a.get() + 1));
        CId(id)
    }

    unsafe fn release_node(&mut self, id: CId) -> Node<T, Self> {
        tick();
        match self.map().remove(&id.0) {
            Some(b) => {
                ACTIVE.with(|a| a.set(a.get() - 1));
                if self.0.mode == 1 {
                    FREE.with(|f| f.borrow_mut().push(id.0))
                }
                *b
            }
            None => misuse(format!("release of the inactive node {:?}", id)),
        }
    }

    fn start_dropping(&self) -> Option<CheckDropper<T>> {
        if self.0.mode == 2 {
            None
        } else {
            Some(CheckDropper(self.0.clone()))
        }
    }

    unsafe fn get(&self, id: CId) -> &Node<T, Self> {
        tick();
        match self.map().get(&id.0) {
            Some(b) => b,
            None => misuse(format!("read of the inactive node {:?}", id)),
        }
    }

    unsafe fn get_mut(&mut self, id: CId) -> &mut Node<T, Self> {
        tick();
        match self.map().get_mut(&id.0) {
            Some(b) => b,
            None => misuse(format!("write of the inactive node {:?}", id)),
        }
    }
}

pub struct CheckDropper<T>(Rc<Inner<T>>);

unsafe impl<T> Dropper<T, CheckStorage<T>> for CheckDropper<T> {
    unsafe fn drop_node(&mut self, id: CId) {
        tick();
        match (*self.0.active.get()).remove(&id.0) {
            Some(b) => {
                ACTIVE.with(|a| a.set(a.get() - 1));
                if self.0.mode == 1 {
                    FREE.with(|f| f.borrow_mut().push(id.0))
                }
                drop(b)
            }
            None => misuse(format!("drop of the inactive node {:?}", id)),
        }
    }
}

pub fn reset(mode: u8) {
    MODE.with(|m| m.set(mode));
    NEXT.with(|n| n.set(0));
    SERIAL.with(|n| n.set(0));
    FREE.with(|f| f.borrow_mut().clear());
    BUDGET.with(|b| b.set(u64::MAX));
    STORES.with(|s| s.set(0));
    ACTIVE.with(|a| a.set(0));
}

/// What the engine needs to know of a storage.
pub trait Kit: Storage<crate::tok::Tok> + 'static {
    fn key(id: Self::Node) -> usize;
    /// Nodes allocated and not released.
    fn active() -> i64;
}
impl Kit for CheckStorage<crate::tok::Tok> {
    fn key(id: CId) -> usize {
        id.0 as usize
    }
    fn active() -> i64 {
        ACTIVE.with(|a| a.get())
    }
}
impl Kit for raw_btree::storage::BoxStorage {
    fn key(id: raw_btree::storage::BoxPtr<crate::tok::Tok>) -> usize {
        id.into()
    }
    fn active() -> i64 {
        crate::heap::LIVE.load(std::sync::atomic::Ordering::Relaxed)
    }
}
