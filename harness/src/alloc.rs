//! Counts what the library allocates and does not free (only while asked to).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Mutex;

struct Counting;

#[global_allocator]
static A: Counting = Counting;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: Mutex<Option<HashMap<usize, usize>>> = Mutex::new(None);

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

fn with(f: impl FnOnce(&mut HashMap<usize, usize>)) {
    let _ = INSIDE.try_with(|i| {
        if !i.replace(true) {
            f(LIVE.lock().unwrap().get_or_insert_with(HashMap::new));
            i.set(false);
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(SeqCst) && crate::sched::active() {
            with(|m| {
                m.insert(p as usize, l.size());
            });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(SeqCst) {
            with(|m| {
                m.remove(&(p as usize));
            });
        }
        System.dealloc(p, l)
    }
}

pub fn start() {
    with(|m| m.clear());
    ON.store(true, SeqCst);
}

/// The bytes that library calls have allocated since `start` and nobody has freed.
pub fn stop() -> usize {
    ON.store(false, SeqCst);
    let mut n = 0;
    with(|m| n = m.drain().map(|x| x.1).sum());
    n
}
