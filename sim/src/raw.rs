//! Raw system calls: the simulator's own needs, never intercepted.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering};

#[inline(always)]
pub unsafe fn sc(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

/// libc convention: -1 and errno.
#[inline(always)]
pub unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r >= -4095 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        sc(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as usize, v as usize, 0, 0, 0);
    }
}
pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        sc(libc::SYS_futex, a as *const _ as usize, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}
/// Binary semaphore.
pub fn sem_wait(a: &AtomicU32) {
    while a.swap(0, Ordering::SeqCst) == 0 {
        futex_wait(a, 0);
    }
}
pub fn sem_post(a: &AtomicU32) {
    a.store(1, Ordering::SeqCst);
    futex_wake(a);
}
pub fn exit_now(code: i32) -> ! {
    unsafe {
        sc(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sc(libc::SYS_write, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if r <= 0 {
            if r == -(libc::EINTR as i64) {
                continue;
            }
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn real_secs() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        sc(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}
