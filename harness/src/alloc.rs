//! Allocator that counts the bytes each thread holds and stops the process
//! (exit code 77) when a case asks for absurd amounts of memory.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

const HUGE: usize = 1 << 30;
const LIMIT: i64 = 4 << 30;

pub const EXIT_MEMORY: i32 = 77;

pub struct Counting;

thread_local! {
    /// Family and index of the case this thread runs.
    pub static CASE: Cell<Option<(usize, u64)>> = const { Cell::new(None) };
}

/// Where to note the case that asked for too much (line 64 of the slots).
pub static SLOTS: AtomicI32 = AtomicI32::new(-1);

fn too_much() -> ! {
    if let Ok(Some((f, i))) = CASE.try_with(|c| c.get()) {
        let mut b = [b' '; 64];
        b[63] = b'\n';
        let mut put = |mut end: usize, mut v: u64| loop {
            end -= 1;
            b[end] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        };
        put(20, f as u64);
        put(60, i);
        unsafe { libc::pwrite(SLOTS.load(SeqCst), b.as_ptr() as *const _, 64, 64 * 64) };
    }
    unsafe { libc::_exit(EXIT_MEMORY) }
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if v > LIMIT {
            too_much()
        }
    });
}

/// Bytes held by the current thread (blocks of 1 GiB and more are not counted).
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() < HUGE {
            add(l.size() as i64);
        } else if l.size() > 2 * HUGE {
            too_much()
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        // Zeroed memory that is never touched costs nothing.
        if l.size() < HUGE {
            add(l.size() as i64);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() < HUGE {
            add(-(l.size() as i64));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() < HUGE {
            add(-(l.size() as i64));
        }
        if n < HUGE {
            add(n as i64);
        } else if n > 2 * HUGE && n > l.size() {
            too_much()
        }
        System.realloc(p, l, n)
    }
}
