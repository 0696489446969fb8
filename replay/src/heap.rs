//! Counts the live heap blocks which have the size of a node, to see what `BoxStorage` leaks.
use crate::tok::Tok;
use raw_btree::{storage::BoxStorage, Node};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub struct Count;

fn is_node(l: Layout) -> bool {
    l == Layout::new::<Node<Tok, BoxStorage>>()
}

unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if is_node(l) {
            LIVE.fetch_add(1, Ordering::Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if is_node(l) {
            LIVE.fetch_sub(1, Ordering::Relaxed);
            // make a later use visible
            for i in 0..l.size() / 8 {
                std::ptr::write_volatile((p as *mut u64).add(i), 0xA5A5_A5A5_A5A5_A5A5);
            }
        }
        System.dealloc(p, l)
    }
}
