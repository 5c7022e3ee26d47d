//! The heap of the simulated program. Inside a run everything the code under test
//! allocates comes from a region at a fixed address, handed out in a fixed order:
//! code that behaves differently depending on where an object lies (parking_lot hashes
//! the addresses of locks) is then part of the deterministic execution, whatever the
//! worker process did before it forked.
use crate::raw::sc;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

const BASE: usize = 0x5000_0000_0000;
const SIZE: usize = 64 << 30;
const CHUNK: usize = 4 << 20;

pub struct Heap;
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static TOP: AtomicUsize = AtomicUsize::new(BASE);
static END: AtomicUsize = AtomicUsize::new(BASE);
static mut FREE: [usize; 48] = [0; 48];

/// Called in a fresh child, before any simulated thread exists.
pub fn start() {
    unsafe {
        let r = sc(
            libc::SYS_mmap,
            BASE,
            SIZE,
            libc::PROT_NONE as usize,
            (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE) as usize,
            usize::MAX,
            0,
        );
        if r == BASE as i64 {
            ON.store(true, SeqCst);
        } else {
            crate::raw::exit_now(95);
        }
    }
}
fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(16);
    n.next_power_of_two().trailing_zeros() as usize
}
unsafe fn take(c: usize) -> *mut u8 {
    let n = 1usize << c;
    let f = FREE[c];
    if f != 0 {
        FREE[c] = *(f as *const usize);
        return f as *mut u8;
    }
    let at = (TOP.load(Relaxed) + n.min(4096) - 1) & !(n.min(4096) - 1);
    let to = at + n;
    if to > BASE + SIZE {
        return std::ptr::null_mut();
    }
    let e = END.load(Relaxed);
    if to > e {
        let e2 = (to + CHUNK - 1) & !(CHUNK - 1);
        if sc(libc::SYS_mprotect, e, e2 - e, (libc::PROT_READ | libc::PROT_WRITE) as usize, 0, 0, 0) != 0 {
            return std::ptr::null_mut();
        }
        END.store(e2, Relaxed);
    }
    TOP.store(to, Relaxed);
    at as *mut u8
}
fn locked<R>(f: impl FnOnce() -> R) -> R {
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f();
    LOCK.store(false, Release);
    r
}
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) || !crate::world::active() || l.align() > 4096 {
            return System.alloc(l);
        }
        let c = class(&l);
        locked(|| take(c))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !(BASE..BASE + SIZE).contains(&a) {
            return System.dealloc(p, l);
        }
        let c = class(&l);
        locked(|| {
            *(a as *mut usize) = FREE[c];
            FREE[c] = a;
        })
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let a = p as usize;
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let inside = (BASE..BASE + SIZE).contains(&a);
        if !inside && (!ON.load(Relaxed) || !crate::world::active()) {
            return System.realloc(p, l, n);
        }
        if inside && class(&l) == class(&nl) {
            return p;
        }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
