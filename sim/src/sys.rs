//! The seam: the libc symbols through which the program reaches threads, time,
//! randomness, files, standard streams and sockets.  On a simulated thread they
//! are served by the simulator; elsewhere they fall through to the kernel.
#![allow(clippy::missing_safety_doc)]
use crate::raw::{ret, sc, set_errno};
use crate::rng::{hash_bytes, Rng};
use crate::spec::*;
use crate::vfs::*;
use crate::world::*;
use libc::{c_char, c_int, c_long, c_void, off64_t, size_t, ssize_t};
use std::ffi::{CStr, CString};
use std::sync::atomic::{AtomicUsize, Ordering};

type P = *mut c_void;

pub fn next(slot: &AtomicUsize, name: &str) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let c = CString::new(name).unwrap();
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, c.as_ptr()) } as usize;
    slot.store(p, Ordering::Relaxed);
    p
}
macro_rules! real {
    ($name:expr, $t:ty) => {{
        static S: AtomicUsize = AtomicUsize::new(0);
        let p = next(&S, $name);
        std::mem::transmute::<usize, $t>(p)
    }};
}
unsafe fn cstr(p: *const c_char) -> String {
    let b = CStr::from_ptr(p).to_bytes();
    // bytes that are no UTF-8 are kept as characters of their own
    b.utf8_chunks().map(|c| c.valid().to_string() + &c.invalid().iter().map(|x| char::from_u32(ODD + *x as u32).unwrap()).collect::<String>()).collect()
}
/// A file name's byte `b` that is no UTF-8 is kept as the character ODD + b.
const ODD: u32 = 0x10fe00;
fn name_bytes(n: &str) -> Vec<u8> {
    let mut o = vec![];
    for c in n.chars() {
        match (c as u32).checked_sub(ODD) {
            Some(x @ 0x80..=0xff) => o.push(x as u8),
            _ => o.extend(c.to_string().bytes()),
        }
    }
    o
}
fn fail(e: i32) -> i64 {
    unsafe { set_errno(e) };
    -1
}

/// Directory a relative path starts from.
fn base(w: &World, dirfd: i32) -> Result<Ino, i32> {
    if dirfd == libc::AT_FDCWD {
        return Ok(w.cwd);
    }
    let o = *w.fds.get(&dirfd).ok_or(libc::EBADF)?;
    match w.ofds[o].kind {
        Kind::Dir { ino } => Ok(ino),
        _ => Err(libc::ENOTDIR),
    }
}
fn show(w: &World, b: Ino, path: &str) -> String {
    if path.starts_with('/') {
        return path.to_string();
    }
    let d = w.vfs.path_of(b).unwrap_or_default();
    format!("{}/{}", d.trim_end_matches('/'), path.trim_start_matches("./"))
}
/// A fault point for a metadata operation; Err(errno) when a fault strikes.
fn meta(w: &mut World, op: &str, path: &str) -> Result<(), i32> {
    let a = w.point(op, path, 0);
    if w.crash_here().is_some() {
        w.crash();
    }
    if w.is_killed() && !matches!(op, "open-read" | "stat" | "opendir" | "readdir") {
        return Err(libc::EIO);
    }
    match a {
        Some(Act::Err(e)) => {
            w.fired(&format!("{}:{}", op, ename(e)));
            Err(e)
        }
        Some(Act::DiskFull(_)) => {
            w.full = true;
            Ok(())
        }
        _ => Ok(()),
    }
}
pub fn ename(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EACCES => "EACCES",
        libc::EINTR => "EINTR",
        libc::EMFILE => "EMFILE",
        libc::ENOENT => "ENOENT",
        libc::EPIPE => "EPIPE",
        libc::EROFS => "EROFS",
        libc::EDQUOT => "EDQUOT",
        libc::ESTALE => "ESTALE",
        libc::ENFILE => "ENFILE",
        _ => "ERR",
    }
}
/// Does creating something need space on a full disk?
fn need_space(w: &mut World) -> Result<(), i32> {
    if w.full {
        w.fired("disk-full:create");
        return Err(libc::ENOSPC);
    }
    Ok(())
}

unsafe fn do_open(dirfd: i32, path: *const c_char, flags: i32, _mode: u32) -> i64 {
    let _g = Sys::enter();
    let w = w();
    w.step();
    let p = cstr(path);
    let r = (|| -> Result<i32, i32> {
        let b = base(w, dirfd)?;
        let sp = show(w, b, &p);
        let wr = flags & libc::O_ACCMODE != libc::O_RDONLY;
        meta(w, if wr { "open-write" } else { "open-read" }, &sp)?;
        match w.vfs.lookup(b, &p) {
            Ok(ino) => {
                if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                    return Err(libc::EEXIST);
                }
                if w.vfs.nodes[&ino].dir.is_some() {
                    if wr {
                        return Err(libc::EISDIR);
                    }
                    return Ok(w.new_fd(Kind::Dir { ino }, flags));
                }
                if flags & libc::O_DIRECTORY != 0 || p.ends_with('/') {
                    return Err(libc::ENOTDIR);
                }
                if wr && w.vfs.nodes[&ino].mode & 0o222 == 0 || flags & libc::O_ACCMODE != libc::O_WRONLY && w.vfs.nodes[&ino].mode & 0o444 == 0 {
                    return Err(libc::EACCES);
                }
                if flags & libc::O_TRUNC != 0 && wr && !w.vfs.nodes[&ino].data.is_empty() {
                    let t = w.wall();
                    w.fs(FsOp::Trunc { ino, len: 0, t });
                }
                Ok(w.new_fd(Kind::File { ino }, flags))
            }
            Err(libc::ENOENT) if flags & libc::O_CREAT != 0 => {
                if p.ends_with('/') {
                    return Err(libc::EISDIR);
                }
                let (dir, name) = w.vfs.parent(b, &p)?;
                if w.vfs.nodes[&dir].mode & 0o222 == 0 {
                    return Err(libc::EACCES);
                }
                need_space(w)?;
                let ino = w.vfs.next;
                let t = w.wall();
                w.fs(FsOp::Create { dir, name, ino, t });
                Ok(w.new_fd(Kind::File { ino }, flags))
            }
            Err(e) => Err(e),
        }
    })();
    match r {
        Ok(f) => f as i64,
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    }
    do_open(libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_openat, d as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int;
    }
    do_open(d, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    openat64(d, path, flags, mode)
}

fn short_len(w: &mut World, n: usize, what: &str) -> usize {
    let p = w.run.sched.short;
    if n > 1 && p > 0.0 && w.rio.chance(p) {
        w.fired(&format!("short-{}", what));
        match w.rio.below(3) {
            0 => 1,
            1 => w.rio.range(1, n.min(7)),
            _ => w.rio.range(1, n),
        }
    } else {
        n
    }
}
fn eintr(w: &mut World, what: &str) -> bool {
    let p = w.run.sched.eintr;
    if p > 0.0 && w.rio.chance(p) {
        w.fired(&format!("EINTR-{}", what));
        true
    } else {
        false
    }
}

unsafe fn do_read(fd: i32, buf: *mut u8, n: usize, at: Option<u64>) -> i64 {
    let _g = Sys::enter();
    let w = w();
    w.step();
    let o = match w.fds.get(&fd) {
        Some(o) => *o,
        None => return fail(libc::EBADF),
    };
    match w.ofds[o].kind {
        Kind::File { ino } => {
            let path = w.vfs.path_of(ino).unwrap_or_default();
            let a = w.point("read", &path, n);
            if w.crash_here().is_some() {
                w.crash();
            }
            let mut lim = n;
            match a {
                Some(Act::Err(e)) => {
                    w.fired(&format!("read:{}", ename(e)));
                    return fail(e);
                }
                Some(Act::Short(k)) => {
                    w.fired("read:short");
                    lim = lim.min(k.max(1));
                }
                _ => {}
            }
            if eintr(w, "read") {
                return fail(libc::EINTR);
            }
            let off = at.unwrap_or(w.ofds[o].off) as usize;
            let avail = w.vfs.nodes.get(&ino).map_or(0, |x| x.data.len().saturating_sub(off));
            let mut k = lim.min(avail);
            k = short_len(w, k, "read");
            let d = &w.vfs.nodes[&ino].data;
            if k > 0 {
                std::ptr::copy_nonoverlapping(d[off..].as_ptr(), buf, k);
            }
            if at.is_none() {
                w.ofds[o].off = (off + k) as u64;
            }
            k as i64
        }
        Kind::Dir { .. } => fail(libc::EISDIR),
        Kind::Stdin => loop {
            if w.inq.is_empty() {
                if w.eof {
                    return 0;
                }
                w.block(St::Stdin, u64::MAX);
                continue;
            }
            if eintr(w, "stdin") {
                return fail(libc::EINTR);
            }
            let c = w.inq.front_mut().unwrap();
            let k = n.min(c.len());
            std::ptr::copy_nonoverlapping(c.as_ptr(), buf, k);
            c.drain(..k);
            if c.is_empty() {
                w.inq.pop_front();
            }
            return k as i64;
        },
        Kind::Event(v) => {
            if n < 8 {
                return fail(libc::EINVAL);
            }
            if v == 0 {
                return fail(libc::EAGAIN);
            }
            *(buf as *mut u64) = v;
            w.ofds[o].kind = Kind::Event(0);
            8
        }
        Kind::Sock(s) => match w.net_recv(s, std::slice::from_raw_parts_mut(buf, n)) {
            Ok(k) => k as i64,
            Err(e) => fail(e),
        },
        Kind::Pair => fail(libc::EAGAIN),
        _ => fail(libc::EBADF),
    }
}

unsafe fn do_write(fd: i32, buf: *const u8, n: usize, at: Option<u64>) -> i64 {
    let _g = Sys::enter();
    let w = w();
    w.step();
    let o = match w.fds.get(&fd) {
        Some(o) => *o,
        None => return fail(libc::EBADF),
    };
    let b = std::slice::from_raw_parts(buf, n);
    match w.ofds[o].kind {
        Kind::File { ino } => {
            if w.ofds[o].flags & libc::O_ACCMODE == libc::O_RDONLY {
                return fail(libc::EBADF);
            }
            let path = w.vfs.path_of(ino).unwrap_or_default();
            let a = w.point("write", &path, n);
            let off = if w.ofds[o].flags & libc::O_APPEND != 0 {
                w.vfs.nodes[&ino].data.len() as u64
            } else {
                at.unwrap_or(w.ofds[o].off)
            };
            let t = w.wall();
            if let Some(c) = w.crash_here() {
                let k = (n as u64 * c.torn.min(1000) / 1000) as usize;
                if k > 0 {
                    w.fired("crash:torn-write");
                    w.fs(FsOp::Write { ino, off, data: b[..k].to_vec(), t });
                }
                w.crash();
            }
            if w.is_killed() {
                return fail(libc::EIO);
            }
            let mut lim = n;
            match a {
                Some(Act::Err(e)) => {
                    w.fired(&format!("write:{}", ename(e)));
                    return fail(e);
                }
                Some(Act::Short(k)) => {
                    w.fired("write:short");
                    lim = lim.min(k.max(1));
                }
                Some(Act::DiskFull(k)) => {
                    w.full = true;
                    w.fired("write:disk-full");
                    if k == 0 || n == 0 {
                        return fail(libc::ENOSPC);
                    }
                    let k = k.min(n);
                    w.fs(FsOp::Write { ino, off, data: b[..k].to_vec(), t });
                    if at.is_none() {
                        w.ofds[o].off = off + k as u64;
                    }
                    return k as i64;
                }
                None => {}
            }
            if w.full && n > 0 {
                w.fired("write:ENOSPC");
                return fail(libc::ENOSPC);
            }
            if eintr(w, "write") {
                return fail(libc::EINTR);
            }
            let k = short_len(w, lim, "write");
            if k > 0 {
                w.fs(FsOp::Write { ino, off, data: b[..k].to_vec(), t });
            }
            if at.is_none() {
                w.ofds[o].off = off + k as u64;
            }
            k as i64
        }
        Kind::Out(f) => {
            let a = w.point(if f == 1 { "stdout" } else { "stderr" }, "", n);
            if w.crash_here().is_some() {
                w.crash();
            }
            if w.is_killed() {
                return n as i64;
            }
            let mut lim = n;
            if f == 1 {
                match a {
                    Some(Act::Err(e)) => {
                        w.fired(&format!("stdout:{}", ename(e)));
                        return fail(e);
                    }
                    Some(Act::Short(k)) => {
                        w.fired("stdout:short");
                        lim = lim.min(k.max(1));
                    }
                    _ => {}
                }
                if w.run.out.stall > 0 && w.rio.chance(0.3) {
                    let d = w.now + w.rio.below(w.run.out.stall as usize * 1000) as u64;
                    w.fired("stdout-blocked");
                    w.block(St::Sleep, d);
                }
                if eintr(w, "stdout") {
                    return fail(libc::EINTR);
                }
                lim = short_len(w, lim, "stdout");
                if let Some((l, e)) = w.run.out.limit {
                    let left = l.saturating_sub(w.outlen) as usize;
                    if left == 0 && n > 0 {
                        w.fired(&format!("stdout-gone:{}", ename(e)));
                        return fail(e);
                    }
                    lim = lim.min(left);
                }
                w.outlen += lim as u64;
            }
            let (node, t) = (w.node(), w.now);
            w.log(&Rec::Out { node, fd: f, data: b[..lim].to_vec(), t });
            lim as i64
        }
        Kind::Event(v) => {
            if n < 8 {
                return fail(libc::EINVAL);
            }
            let k = *(buf as *const u64);
            w.ofds[o].kind = Kind::Event(v.saturating_add(k));
            w.notify(o);
            8
        }
        Kind::Sock(s) => match w.net_send(s, b) {
            Ok(k) => k as i64,
            Err(e) => fail(e),
        },
        Kind::Pair => n as i64,
        _ => fail(libc::EBADF),
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: P, n: size_t) -> ssize_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_read, fd as usize, b as usize, n, 0, 0, 0)) as ssize_t;
    }
    do_read(fd, b as *mut u8, n, None) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: P, n: size_t, off: off64_t) -> ssize_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_pread64, fd as usize, b as usize, n, off as usize, 0, 0)) as ssize_t;
    }
    do_read(fd, b as *mut u8, n, Some(off as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_write, fd as usize, b as usize, n, 0, 0, 0)) as ssize_t;
    }
    do_write(fd, b as *const u8, n, None) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_pwrite64, fd as usize, b as usize, n, off as usize, 0, 0)) as ssize_t;
    }
    do_write(fd, b as *const u8, n, Some(off as u64)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0)) as ssize_t;
    }
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return do_read(fd, x.iov_base as *mut u8, x.iov_len, None) as ssize_t;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0)) as ssize_t;
    }
    let mut all = vec![];
    for i in 0..n as usize {
        let x = &*v.add(i);
        all.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
    }
    do_write(fd, all.as_ptr(), all.len(), None) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0));
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let o = match w.fds.get(&fd) {
        Some(o) => *o,
        None => return fail(libc::EBADF),
    };
    if let Kind::File { ino } = w.ofds[o].kind {
        let b = match wh {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => w.ofds[o].off as i64,
            libc::SEEK_END => w.vfs.nodes[&ino].data.len() as i64,
            _ => return fail(libc::EINVAL),
        };
        if b + off < 0 {
            return fail(libc::EINVAL);
        }
        w.ofds[o].off = (b + off) as u64;
        return b + off;
    }
    fail(libc::ESPIPE)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, wh: c_int) -> off64_t {
    lseek64(fd, off, wh)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    match w.close_fd(fd) {
        Ok(()) => 0,
        Err(e) => fail(e) as c_int,
    }
}

// ---- metadata -------------------------------------------------------------
struct Meta {
    mode: u32,
    size: u64,
    mtime: u64,
    ino: u64,
}
fn meta_of(w: &World, ino: Ino) -> Meta {
    let n = &w.vfs.nodes[&ino];
    Meta {
        mode: if n.dir.is_some() { libc::S_IFDIR } else { libc::S_IFREG } | n.mode,
        size: n.data.len() as u64,
        mtime: n.mtime,
        ino,
    }
}
fn meta_path(d: i32, p: &str) -> Result<Meta, i32> {
    let w = w();
    w.step();
    let b = base(w, d)?;
    let sp = show(w, b, p);
    meta(w, "stat", &sp)?;
    let ino = w.vfs.lookup(b, p)?;
    if p.is_empty() {
        return Err(libc::ENOENT);
    }
    Ok(meta_of(w, ino))
}
fn meta_fd(fd: i32) -> Result<Meta, i32> {
    let w = w();
    w.step();
    let o = *w.fds.get(&fd).ok_or(libc::EBADF)?;
    match w.ofds[o].kind {
        Kind::File { ino } | Kind::Dir { ino } => Ok(meta_of(w, ino)),
        Kind::Stdin | Kind::Out(_) => Ok(Meta { mode: libc::S_IFIFO | 0o600, size: 0, mtime: 0, ino: 0 }),
        _ => Ok(Meta { mode: libc::S_IFSOCK | 0o600, size: 0, mtime: 0, ino: 0 }),
    }
}
unsafe fn fill(st: *mut libc::stat64, m: Result<Meta, i32>) -> c_int {
    match m {
        Err(e) => fail(e) as c_int,
        Ok(m) => {
            let mut s: libc::stat64 = std::mem::zeroed();
            s.st_mode = m.mode;
            s.st_size = m.size as i64;
            s.st_ino = m.ino;
            s.st_dev = 1;
            s.st_nlink = 1;
            s.st_blksize = 4096;
            s.st_blocks = (m.size as i64 + 511) / 512;
            s.st_mtime = (m.mtime / 1_000_000_000) as i64;
            s.st_mtime_nsec = (m.mtime % 1_000_000_000) as i64;
            s.st_ctime = s.st_mtime;
            s.st_atime = s.st_mtime;
            *st = s;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    fill(st, meta_fd(fd))
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, st: *mut libc::stat64) -> c_int {
    fstat64(fd, st)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_newfstatat, libc::AT_FDCWD as usize, p as usize, st as usize, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    fill(st, meta_path(libc::AT_FDCWD, &cstr(p)))
}
#[no_mangle]
pub unsafe extern "C" fn stat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_newfstatat, libc::AT_FDCWD as usize, p as usize, st as usize, libc::AT_SYMLINK_NOFOLLOW as usize, 0, 0)) as c_int;
    }
    stat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(p: *const c_char, st: *mut libc::stat64) -> c_int {
    lstat64(p, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, st: *mut libc::stat64, fl: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_newfstatat, d as usize, p as usize, st as usize, fl as usize, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let p = cstr(p);
    fill(st, if p.is_empty() && fl & libc::AT_EMPTY_PATH != 0 { meta_fd(d) } else { meta_path(d, &p) })
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, sx: *mut libc::statx) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_statx, d as usize, p as usize, fl as usize, mask as usize, sx as usize, 0)) as c_int;
    }
    let _g = Sys::enter();
    if sx.is_null() || p.is_null() {
        return fail(libc::EFAULT) as c_int;
    }
    let p = cstr(p);
    let m = if p.is_empty() && fl & libc::AT_EMPTY_PATH != 0 { meta_fd(d) } else { meta_path(d, &p) };
    match m {
        Err(e) => fail(e) as c_int,
        Ok(m) => {
            let mut s: libc::statx = std::mem::zeroed();
            s.stx_mask = 0x7ff;
            s.stx_mode = m.mode as u16;
            s.stx_size = m.size;
            s.stx_ino = m.ino;
            s.stx_nlink = 1;
            s.stx_blksize = 4096;
            s.stx_mtime.tv_sec = (m.mtime / 1_000_000_000) as i64;
            s.stx_mtime.tv_nsec = (m.mtime % 1_000_000_000) as u32;
            s.stx_atime = s.stx_mtime;
            s.stx_ctime = s.stx_mtime;
            s.stx_dev_minor = 1;
            *sx = s;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_access, p as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    match meta_path(libc::AT_FDCWD, &cstr(p)) {
        Ok(_) => 0,
        Err(e) => fail(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, fl: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_faccessat, d as usize, p as usize, m as usize, fl as usize, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    match meta_path(d, &cstr(p)) {
        Ok(_) => 0,
        Err(e) => fail(e) as c_int,
    }
}

fn name_op(op: &str, d: i32, p: &str, f: impl FnOnce(&mut World, Ino) -> Result<(), i32>) -> c_int {
    let _g = Sys::enter();
    let w = w();
    w.step();
    let r = (|| {
        let b = base(w, d)?;
        let sp = show(w, b, p);
        meta(w, op, &sp)?;
        f(w, b)
    })();
    match r {
        Ok(()) => 0,
        Err(e) => fail(e) as c_int,
    }
}
unsafe fn do_mkdir(d: i32, p: *const c_char) -> c_int {
    let p = cstr(p);
    name_op("mkdir", d, &p, |w, b| {
        if w.vfs.lookup(b, &p).is_ok() {
            return Err(libc::EEXIST);
        }
        let (dir, name) = w.vfs.parent(b, &p)?;
        need_space(w)?;
        let (ino, t) = (w.vfs.next, w.wall());
        w.fs(FsOp::Mkdir { dir, name, ino, t });
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: u32) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_mkdir, p as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    do_mkdir(libc::AT_FDCWD, p)
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: u32) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_mkdirat, d as usize, p as usize, m as usize, 0, 0, 0)) as c_int;
    }
    do_mkdir(d, p)
}
unsafe fn do_unlink(d: i32, p: *const c_char, rmdir: bool) -> c_int {
    let p = cstr(p);
    name_op(if rmdir { "rmdir" } else { "unlink" }, d, &p, |w, b| {
        let ino = w.vfs.lookup(b, &p)?;
        let (dir, name) = w.vfs.parent(b, &p)?;
        match (&w.vfs.nodes[&ino].dir, rmdir) {
            (Some(_), false) => return Err(libc::EISDIR),
            (None, true) => return Err(libc::ENOTDIR),
            (Some(e), true) if !e.is_empty() => return Err(libc::ENOTEMPTY),
            _ => {}
        }
        w.fs(if rmdir { FsOp::Rmdir { dir, name } } else { FsOp::Unlink { dir, name } });
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    do_unlink(libc::AT_FDCWD, p, false)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_unlinkat, d as usize, p as usize, fl as usize, 0, 0, 0)) as c_int;
    }
    do_unlink(d, p, fl & libc::AT_REMOVEDIR != 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    do_unlink(libc::AT_FDCWD, p, true)
}
unsafe fn do_rename(d: i32, p: *const c_char, d2: i32, p2: *const c_char, fl: u32) -> c_int {
    let (p, p2) = (cstr(p), cstr(p2));
    name_op("rename", d, &p, |w, b| {
        let b2 = base(w, d2)?;
        let ino = w.vfs.lookup(b, &p)?;
        let (dir, name) = w.vfs.parent(b, &p)?;
        let (dir2, name2) = w.vfs.parent(b2, &p2)?;
        if let Ok(old) = w.vfs.lookup(b2, &p2) {
            if fl & 1 != 0 {
                return Err(libc::EEXIST);
            }
            if old == ino {
                return Ok(());
            }
            match (&w.vfs.nodes[&old].dir, w.vfs.nodes[&ino].dir.is_some()) {
                (Some(_), false) => return Err(libc::EISDIR),
                (None, true) => return Err(libc::ENOTDIR),
                (Some(e), true) if !e.is_empty() => return Err(libc::ENOTEMPTY),
                _ => {}
            }
        }
        w.fs(FsOp::Rename { dir, name, dir2, name2 });
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const c_char, p2: *const c_char) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_rename, p as usize, p2 as usize, 0, 0, 0, 0)) as c_int;
    }
    do_rename(libc::AT_FDCWD, p, libc::AT_FDCWD, p2, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, p: *const c_char, d2: c_int, p2: *const c_char) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_renameat, d as usize, p as usize, d2 as usize, p2 as usize, 0, 0)) as c_int;
    }
    do_rename(d, p, d2, p2, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, p: *const c_char, d2: c_int, p2: *const c_char, fl: u32) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_renameat2, d as usize, p as usize, d2 as usize, p2 as usize, fl as usize, 0)) as c_int;
    }
    do_rename(d, p, d2, p2, fl)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, p: *const c_char, d2: c_int, p2: *const c_char, fl: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_linkat, d as usize, p as usize, d2 as usize, p2 as usize, fl as usize, 0)) as c_int;
    }
    let (p, p2) = (cstr(p), cstr(p2));
    name_op("link", d, &p, |w, b| {
        let b2 = base(w, d2)?;
        let ino = w.vfs.lookup(b, &p)?;
        if w.vfs.lookup(b2, &p2).is_ok() {
            return Err(libc::EEXIST);
        }
        if w.vfs.nodes[&ino].dir.is_some() {
            return Err(libc::EPERM);
        }
        let (dir, name) = w.vfs.parent(b2, &p2)?;
        w.fs(FsOp::Link { dir, name, ino });
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn link(p: *const c_char, p2: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, p, libc::AT_FDCWD, p2, 0)
}
macro_rules! refuse {
    ($($name:ident = $num:expr, $e:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_int {
            if !active() {
                return ret(sc($num, a, b, c, d, e, f)) as c_int;
            }
            fail($e) as c_int
        }
    )*};
}
refuse! {
    symlink = libc::SYS_symlink, libc::EPERM;
    symlinkat = libc::SYS_symlinkat, libc::EPERM;
    mknod = libc::SYS_mknod, libc::EPERM;
    chroot = libc::SYS_chroot, libc::EPERM;
    mount = libc::SYS_mount, libc::EPERM;
    umount2 = libc::SYS_umount2, libc::EPERM;
    kill = libc::SYS_kill, libc::EPERM;
    chown = libc::SYS_chown, libc::EPERM;
    fchown = libc::SYS_fchown, libc::EPERM;
    lchown = libc::SYS_lchown, libc::EPERM;
    execve = libc::SYS_execve, libc::EPERM;
    bind = libc::SYS_bind, libc::EACCES;
    listen = libc::SYS_listen, libc::EACCES;
    accept4 = libc::SYS_accept4, libc::EINVAL;
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let o = match w.fds.get(&fd) {
        Some(o) => *o,
        None => return fail(libc::EBADF) as c_int,
    };
    let ino = match w.ofds[o].kind {
        Kind::File { ino } | Kind::Dir { ino } => ino,
        _ => return fail(libc::EINVAL) as c_int,
    };
    if op & libc::LOCK_UN != 0 {
        if w.flocks.get(&ino) == Some(&o) {
            w.flocks.remove(&ino);
        }
        return 0;
    }
    loop {
        match w.flocks.get(&ino) {
            Some(x) if *x != o && w.ofds[*x].refs > 0 => {
                if op & libc::LOCK_NB != 0 {
                    return fail(libc::EWOULDBLOCK) as c_int;
                }
                let d = w.now + 1_000_000;
                w.block(St::Sleep, d);
            }
            _ => {
                w.flocks.insert(ino, o);
                return 0;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> c_int {
    if active() {
        return fail(libc::EAGAIN) as c_int;
    }
    real!("fork", unsafe extern "C" fn() -> c_int)()
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: P, c: c_int, d: P, n: size_t, fl: u32) -> ssize_t {
    if !active() {
        return ret(sc(libc::SYS_copy_file_range, a as usize, b as usize, c as usize, d as usize, n, fl as usize)) as ssize_t;
    }
    fail(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: P, n: size_t) -> ssize_t {
    if !active() {
        return ret(sc(libc::SYS_sendfile, a as usize, b as usize, c as usize, n, 0, 0)) as ssize_t;
    }
    fail(libc::ENOSYS) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if !active() {
        return ret(sc(libc::SYS_readlink, p as usize, b as usize, n, 0, 0, 0)) as ssize_t;
    }
    let _g = Sys::enter();
    match meta_path(libc::AT_FDCWD, &cstr(p)) {
        Ok(_) => fail(libc::EINVAL) as ssize_t,
        Err(e) => fail(e) as ssize_t,
    }
}
unsafe fn do_chmod(b: Ino, p: &str, mode: u32) -> Result<(), i32> {
    let w = w();
    let ino = w.vfs.lookup(b, p)?;
    w.fs(FsOp::Chmod { ino, mode: mode & 0o7777 });
    Ok(())
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_chmod, p as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    let p = cstr(p);
    name_op("chmod", libc::AT_FDCWD, &p, |_, b| do_chmod(b, &p, m))
}
fn fd_op(fd: c_int, op: &str, f: impl FnOnce(&mut World, Ino) -> Result<(), i32>) -> c_int {
    let _g = Sys::enter();
    let w = w();
    w.step();
    let r = (|| {
        let o = *w.fds.get(&fd).ok_or(libc::EBADF)?;
        let ino = match w.ofds[o].kind {
            Kind::File { ino } | Kind::Dir { ino } => ino,
            _ => return Err(libc::EINVAL),
        };
        let path = w.vfs.path_of(ino).unwrap_or_default();
        meta(w, op, &path)?;
        f(w, ino)
    })();
    match r {
        Ok(()) => 0,
        Err(e) => fail(e) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, m: u32) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0)) as c_int;
    }
    fd_op(fd, "chmod", |w, ino| {
        w.fs(FsOp::Chmod { ino, mode: m & 0o7777 });
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    fd_op(fd, "fsync", |w, ino| {
        w.fs(FsOp::Fsync { ino });
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    if !active() {
        sc(libc::SYS_sync, 0, 0, 0, 0, 0, 0);
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int;
    }
    fd_op(fd, "truncate", |w, ino| {
        let t = w.wall();
        w.fs(FsOp::Trunc { ino, len: len as u64, t });
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_utimensat, fd as usize, 0, ts as usize, 0, 0, 0)) as c_int;
    }
    fd_op(fd, "utime", |w, ino| {
        let t = if ts.is_null() { w.wall() } else { (*ts.add(1)).tv_sec as u64 * 1_000_000_000 + (*ts.add(1)).tv_nsec as u64 };
        w.fs(FsOp::Utime { ino, t });
        Ok(())
    })
}

// ---- directories ----------------------------------------------------------
pub struct SimDir {
    fd: i32,
    ents: Vec<(String, u64, u8)>,
    pos: usize,
    path: String,
    ent: libc::dirent64,
}
unsafe fn mkdirstream(w: &mut World, ino: Ino, fd: i32) -> P {
    w.ndirs += 1;
    let path = w.vfs.path_of(ino).unwrap_or_default();
    let mut ents: Vec<(String, u64, u8)> =
        w.vfs.dir(ino).unwrap().iter().map(|(n, i)| (n.clone(), *i, if w.vfs.nodes[i].dir.is_some() { libc::DT_DIR } else { libc::DT_REG })).collect();
    ents.push((".".into(), ino, libc::DT_DIR));
    ents.push(("..".into(), ino, libc::DT_DIR));
    // the order is a function of the seed and the names, as on a hashed directory
    let mut r = Rng::new(w.run.sched.dir_seed ^ hash_bytes(0, path.as_bytes()));
    r.shuffle(&mut ents);
    Box::into_raw(Box::new(SimDir { fd, ents, pos: 0, path, ent: std::mem::zeroed() })) as P
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> P {
    if !active() {
        return real!("opendir", unsafe extern "C" fn(*const c_char) -> P)(p);
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let p = cstr(p);
    let b = w.cwd;
    let r = (|| {
        let sp = show(w, b, &p);
        meta(w, "opendir", &sp)?;
        if p.is_empty() {
            return Err(libc::ENOENT);
        }
        let ino = w.vfs.lookup(b, &p)?;
        if w.vfs.dir(ino).is_none() {
            return Err(libc::ENOTDIR);
        }
        Ok(ino)
    })();
    match r {
        Ok(ino) => {
            let fd = w.new_fd(Kind::Dir { ino }, 0);
            mkdirstream(w, ino, fd)
        }
        Err(e) => {
            fail(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> P {
    if !active_fd(fd) {
        return real!("fdopendir", unsafe extern "C" fn(c_int) -> P)(fd);
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    match base(w, fd) {
        Ok(ino) => mkdirstream(w, ino, fd),
        Err(e) => {
            fail(e);
            std::ptr::null_mut()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: P) -> *mut libc::dirent64 {
    if !active() {
        return real!("readdir64", unsafe extern "C" fn(P) -> *mut libc::dirent64)(d);
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let d = &mut *(d as *mut SimDir);
    if d.pos >= d.ents.len() {
        return std::ptr::null_mut();
    }
    let path = d.path.clone();
    if let Err(e) = meta(w, "readdir", &path) {
        fail(e);
        return std::ptr::null_mut();
    }
    let (n, i, t) = &d.ents[d.pos];
    d.pos += 1;
    d.ent.d_ino = *i;
    d.ent.d_type = *t;
    d.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
    let nb = name_bytes(n);
    for (k, x) in nb.iter().enumerate() {
        d.ent.d_name[k] = *x as c_char;
    }
    d.ent.d_name[nb.len()] = 0;
    &mut d.ent
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: P) -> *mut libc::dirent64 {
    readdir64(d)
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: P) -> c_int {
    if !active() {
        return real!("closedir", unsafe extern "C" fn(P) -> c_int)(d);
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let b = Box::from_raw(d as *mut SimDir);
    let _ = w.close_fd(b.fd);
    0
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: P) -> c_int {
    if !active() {
        return real!("dirfd", unsafe extern "C" fn(P) -> c_int)(d);
    }
    (*(d as *mut SimDir)).fd
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if !active() {
        return real!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(b, n);
    }
    let _g = Sys::enter();
    let w = w();
    let p = w.vfs.path_of(w.cwd).unwrap_or("/".into());
    if p.len() + 1 > n {
        fail(libc::ERANGE);
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(p.as_ptr() as *const c_char, b, p.len());
    *b.add(p.len()) = 0;
    b
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_chdir, p as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let p = cstr(p);
    name_op("chdir", libc::AT_FDCWD, &p, |w, b| {
        let i = w.vfs.lookup(b, &p)?;
        if w.vfs.dir(i).is_none() {
            return Err(libc::ENOTDIR);
        }
        w.cwd = i;
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if !active() {
        return real!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out);
    }
    let _g = Sys::enter();
    let p = cstr(p);
    match meta_path(libc::AT_FDCWD, &p) {
        Err(e) => {
            fail(e);
            std::ptr::null_mut()
        }
        Ok(m) => {
            let s = w().vfs.path_of(m.ino).unwrap_or("/".into());
            let o = if out.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, o, s.len());
            *o.add(s.len()) = 0;
            o
        }
    }
}

// ---- descriptors ----------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    let o = match w.fds.get(&fd) {
        Some(o) => *o,
        None => return fail(libc::EBADF) as c_int,
    };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
            w.ofds[o].refs += 1;
            w.fd_for(o)
        }
        libc::F_GETFD => libc::FD_CLOEXEC,
        libc::F_GETFL => w.ofds[o].flags,
        libc::F_SETFL => {
            w.ofds[o].flags = arg as i32;
            0
        }
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    fcntl(fd, libc::F_DUPFD, 0)
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: usize, arg: usize) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_ioctl, fd as usize, req, arg, 0, 0, 0)) as c_int;
    }
    if req == libc::FIONBIO as usize || req == libc::FIOCLEX as usize {
        return 0;
    }
    fail(libc::ENOTTY) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if !active_fd(fd) {
        let mut t = [0u8; 64];
        return (sc(libc::SYS_ioctl, fd as usize, 0x5401, t.as_mut_ptr() as usize, 0, 0, 0) == 0) as c_int;
    }
    fail(libc::ENOTTY);
    0
}

// ---- epoll, eventfd -------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn epoll_create1(fl: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_epoll_create1, fl as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    w.eps.push(Ep::default());
    let e = w.eps.len() - 1;
    w.new_fd(Kind::Epoll(e), 0)
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, ev as usize, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let e = match w.fds.get(&ep).map(|o| &w.ofds[*o].kind) {
        Some(Kind::Epoll(e)) => *e,
        _ => return fail(libc::EBADF) as c_int,
    };
    let o = match w.fds.get(&fd) {
        Some(o) => *o,
        None => return fail(libc::EBADF) as c_int,
    };
    match op {
        libc::EPOLL_CTL_DEL => {
            w.eps[e].regs.retain(|r| r.fd != fd);
            0
        }
        _ => {
            if matches!(w.ofds[o].kind, Kind::File { .. } | Kind::Dir { .. }) {
                return fail(libc::EPERM) as c_int;
            }
            let (mask, data) = ((*ev).events, (*ev).u64);
            w.eps[e].regs.retain(|r| r.fd != fd);
            w.eps[e].regs.push(Reg { fd, ofd: o, mask, data, pending: 0 });
            w.notify(o);
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_epoll_wait, ep as usize, evs as usize, max as usize, timeout as usize, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let e = match w.fds.get(&ep).map(|o| &w.ofds[*o].kind) {
        Some(Kind::Epoll(e)) => *e,
        _ => return fail(libc::EBADF) as c_int,
    };
    let dl = if timeout < 0 { u64::MAX } else { w.now + timeout as u64 * 1_000_000 };
    loop {
        let mut idx: Vec<usize> = (0..w.eps[e].regs.len()).filter(|i| w.eps[e].regs[*i].pending != 0).collect();
        if !idx.is_empty() {
            w.rs.shuffle(&mut idx);
            let mut k = 0;
            for i in idx {
                if k >= max as usize {
                    break;
                }
                let o = w.eps[e].regs[i].ofd;
                let now = w.ready(o);
                let r = &mut w.eps[e].regs[i];
                let m = r.pending & now;
                r.pending = if r.mask & libc::EPOLLET as u32 != 0 { 0 } else { r.pending & now };
                if m == 0 {
                    continue;
                }
                *evs.add(k) = libc::epoll_event { events: m, u64: r.data };
                k += 1;
            }
            if k > 0 {
                return k as c_int;
            }
        }
        if timeout == 0 || w.now >= dl {
            return 0;
        }
        if !w.block(St::Epoll(e), dl) && w.now >= dl {
            return 0;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn eventfd(v: u32, fl: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_eventfd2, v as usize, fl as usize, 0, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    w().new_fd(Kind::Event(v as u64), 0)
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut libc::pollfd, n: usize, t: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_poll, p as usize, n, t as usize, 0, 0, 0)) as c_int;
    }
    0
}

// ---- sockets --------------------------------------------------------------
#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_socket, d as usize, t as usize, p as usize, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    if d != libc::AF_INET {
        return fail(libc::EAFNOSUPPORT) as c_int;
    }
    let s = w.net_socket();
    w.new_fd(Kind::Sock(s), 0)
}
#[no_mangle]
pub unsafe extern "C" fn socketpair(d: c_int, t: c_int, p: c_int, sv: *mut c_int) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_socketpair, d as usize, t as usize, p as usize, sv as usize, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    *sv = w.new_fd(Kind::Pair, 0);
    *sv.add(1) = w.new_fd(Kind::Pair, 0);
    0
}
unsafe fn sock(fd: c_int) -> Result<usize, i32> {
    let w = w();
    match w.fds.get(&fd).map(|o| &w.ofds[*o].kind) {
        Some(Kind::Sock(s)) => Ok(*s),
        Some(_) => Err(libc::ENOTSOCK),
        None => Err(libc::EBADF),
    }
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const libc::sockaddr, l: u32) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_connect, fd as usize, a as usize, l as usize, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let s = match sock(fd) {
        Ok(s) => s,
        Err(e) => return fail(e) as c_int,
    };
    let sa = &*(a as *const libc::sockaddr_in);
    let ip = u32::from_be(sa.sin_addr.s_addr);
    let h = (ip & 0xff) as usize;
    if ip >> 8 != 0x0a0000 || h == 0 || h > crate::net::HOSTS.len() || u16::from_be(sa.sin_port) != 443 {
        return fail(libc::ENETUNREACH) as c_int;
    }
    w.net_connect(s, h - 1);
    fail(libc::EINPROGRESS) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, fl: c_int) -> ssize_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_sendto, fd as usize, b as usize, n, fl as usize, 0, 0)) as ssize_t;
    }
    do_write(fd, b as *const u8, n, None) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: P, n: size_t, fl: c_int) -> ssize_t {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_recvfrom, fd as usize, b as usize, n, fl as usize, 0, 0)) as ssize_t;
    }
    if fl & libc::MSG_PEEK != 0 {
        let _g = Sys::enter();
        let w = w();
        let s = match sock(fd) {
            Ok(s) => s,
            Err(e) => return fail(e) as ssize_t,
        };
        let k = &w.net.socks[s];
        if k.rx.is_empty() {
            return if k.fin { 0 } else { fail(libc::EAGAIN) as ssize_t };
        }
        let m = n.min(k.rx.len());
        for i in 0..m {
            *(b as *mut u8).add(i) = k.rx[i];
        }
        return m as ssize_t;
    }
    do_read(fd, b as *mut u8, n, None) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lv: c_int, name: c_int, v: *mut c_int, l: *mut u32) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_getsockopt, fd as usize, lv as usize, name as usize, v as usize, l as usize, 0)) as c_int;
    }
    let _g = Sys::enter();
    let s = match sock(fd) {
        Ok(s) => s,
        Err(e) => return fail(e) as c_int,
    };
    let w = w();
    *v = if lv == libc::SOL_SOCKET && name == libc::SO_ERROR { std::mem::take(&mut w.net.socks[s].err) } else { 0 };
    *l = 4;
    0
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lv: c_int, name: c_int, v: P, l: u32) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_setsockopt, fd as usize, lv as usize, name as usize, v as usize, l as usize, 0)) as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0)) as c_int;
    }
    0
}
unsafe fn addr(fd: c_int, a: *mut libc::sockaddr, l: *mut u32, peer: bool) -> c_int {
    let s = match sock(fd) {
        Ok(s) => s,
        Err(e) => return fail(e) as c_int,
    };
    let w = w();
    let k = &w.net.socks[s];
    if peer && k.st != crate::net::SockSt::Up {
        return fail(libc::ENOTCONN) as c_int;
    }
    let mut sa: libc::sockaddr_in = std::mem::zeroed();
    sa.sin_family = libc::AF_INET as u16;
    sa.sin_port = if peer { 443u16 } else { 40000 + s as u16 }.to_be();
    sa.sin_addr.s_addr = (0x0a000000u32 + if peer { k.host as u32 + 1 } else { 200 }).to_be();
    let n = (*l).min(std::mem::size_of::<libc::sockaddr_in>() as u32);
    std::ptr::copy_nonoverlapping(&sa as *const _ as *const u8, a as *mut u8, n as usize);
    *l = std::mem::size_of::<libc::sockaddr_in>() as u32;
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_getpeername, fd as usize, a as usize, l as usize, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    addr(fd, a, l, true)
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut libc::sockaddr, l: *mut u32) -> c_int {
    if !active_fd(fd) {
        return ret(sc(libc::SYS_getsockname, fd as usize, a as usize, l as usize, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    addr(fd, a, l, false)
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(node: *const c_char, svc: *const c_char, hints: *const libc::addrinfo, res: *mut *mut libc::addrinfo) -> c_int {
    if !active() {
        return real!("getaddrinfo", unsafe extern "C" fn(*const c_char, *const c_char, *const libc::addrinfo, *mut *mut libc::addrinfo) -> c_int)(node, svc, hints, res);
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let host = cstr(node);
    let (r, d) = w.net_dns(&host);
    let dl = w.now + d;
    w.block(St::Sleep, dl);
    match r {
        Err(e) => e,
        Ok(h) => {
            // one allocation: addrinfo + sockaddr
            let sz = std::mem::size_of::<libc::addrinfo>();
            let p = libc::calloc(1, sz + std::mem::size_of::<libc::sockaddr_in>()) as *mut u8;
            let ai = p as *mut libc::addrinfo;
            let sa = p.add(sz) as *mut libc::sockaddr_in;
            (*sa).sin_family = libc::AF_INET as u16;
            (*sa).sin_addr.s_addr = (0x0a000000u32 + h as u32 + 1).to_be();
            (*ai).ai_family = libc::AF_INET;
            (*ai).ai_socktype = libc::SOCK_STREAM;
            (*ai).ai_protocol = 6;
            (*ai).ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as u32;
            (*ai).ai_addr = sa as *mut libc::sockaddr;
            *res = ai;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(p: *mut libc::addrinfo) {
    if !active() {
        return real!("freeaddrinfo", unsafe extern "C" fn(*mut libc::addrinfo))(p);
    }
    libc::free(p as P)
}
#[no_mangle]
pub unsafe extern "C" fn __res_init() -> c_int {
    if active() {
        return 0;
    }
    real!("__res_init", unsafe extern "C" fn() -> c_int)()
}

// ---- time -----------------------------------------------------------------
pub const MONO0: u64 = 1_000_000_000_000;
fn clk(id: c_int) -> u64 {
    let w = w();
    w.now += 50;
    if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE {
        w.wall()
    } else {
        MONO0 + w.now
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if !simulated_thread() {
        return ret(sc(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    }
    let t = clk(id);
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: P) -> c_int {
    if !simulated_thread() {
        return ret(sc(libc::SYS_gettimeofday, tv as usize, tz as usize, 0, 0, 0, 0)) as c_int;
    }
    let t = clk(libc::CLOCK_REALTIME);
    (*tv).tv_sec = (t / 1_000_000_000) as i64;
    (*tv).tv_usec = (t % 1_000_000_000 / 1000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let t = if !simulated_thread() {
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        sc(libc::SYS_clock_gettime, 0, &mut ts as *mut _ as usize, 0, 0, 0, 0);
        ts.tv_sec
    } else {
        (clk(libc::CLOCK_REALTIME) / 1_000_000_000) as i64
    };
    if !p.is_null() {
        *p = t;
    }
    t
}
unsafe fn do_sleep(ns: u64) {
    let _g = Sys::enter();
    let w = w();
    w.step();
    let d = w.now + ns;
    w.block(St::Sleep, d);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() {
        return ret(sc(libc::SYS_nanosleep, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int;
    }
    do_sleep((*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64);
    0
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, fl: c_int, ts: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() {
        return -sc(libc::SYS_clock_nanosleep, id as usize, fl as usize, ts as usize, rem as usize, 0, 0) as c_int;
    }
    let mut ns = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    if fl & libc::TIMER_ABSTIME != 0 {
        ns = ns.saturating_sub(clk(id));
    }
    do_sleep(ns);
    0
}

// ---- randomness, identity -------------------------------------------------
unsafe fn rand_fill(b: *mut u8, n: usize) {
    let w = w();
    for i in 0..n {
        *b.add(i) = w.rrand.u64() as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: P, n: size_t, fl: u32) -> ssize_t {
    if !simulated_thread() {
        return ret(sc(libc::SYS_getrandom, b as usize, n, fl as usize, 0, 0, 0)) as ssize_t;
    }
    rand_fill(b as *mut u8, n);
    n as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(b: P, n: size_t) -> c_int {
    if !simulated_thread() {
        return if sc(libc::SYS_getrandom, b as usize, n, 0, 0, 0, 0) == n as i64 { 0 } else { -1 };
    }
    rand_fill(b as *mut u8, n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    if !simulated_thread() {
        return sc(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int;
    }
    4000 + 7 * w().node() + (w().run.sched.hash_seed % 1000) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    if !simulated_thread() {
        return sc(libc::SYS_gettid, 0, 0, 0, 0, 0, 0) as c_int;
    }
    5000 + TID.with(|t| t.get())
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !active() {
        return ret(sc(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int;
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    w.resched();
    0
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: size_t, m: P) -> c_int {
    if !active() {
        let r = sc(libc::SYS_sched_getaffinity, pid as usize, n, m as usize, 0, 0, 0);
        if r < 0 {
            return ret(r) as c_int;
        }
        std::ptr::write_bytes((m as *mut u8).add(r as usize), 0, n - r as usize);
        return 0;
    }
    std::ptr::write_bytes(m as *mut u8, 0, n);
    *(m as *mut u8) = ((1u32 << w().run.sched.workers.clamp(1, 8)) - 1) as u8;
    0
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if active() {
        crate::run::node_exit(code);
    }
    let f = real!("exit", unsafe extern "C" fn(c_int) -> !);
    f(code)
}

// ---- raw syscalls used by std, parking_lot, getrandom ---------------------
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if !active() {
        if n == libc::SYS_getrandom && simulated_thread() {
            rand_fill(a as *mut u8, b);
            return b as c_long;
        }
        return ret(sc(n, a, b, c, d, e, f));
    }
    match n {
        libc::SYS_futex => futex(a, b as i32, c as u32, d as *const libc::timespec, f as u32),
        libc::SYS_getrandom => {
            rand_fill(a as *mut u8, b);
            b as c_long
        }
        libc::SYS_gettid => gettid() as c_long,
        libc::SYS_getpid => getpid() as c_long,
        libc::SYS_statx => statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long,
        libc::SYS_copy_file_range => fail(libc::ENOSYS),
        libc::SYS_renameat2 => renameat2(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as u32) as c_long,
        libc::SYS_membarrier => ret(sc(n, a, b, c, d, e, f)),
        libc::SYS_clone3 | libc::SYS_pidfd_open | libc::SYS_openat2 => fail(libc::ENOSYS),
        _ => {
            let _g = Sys::enter();
            w().bug(&format!("unsimulated syscall {}", n))
        }
    }
}
unsafe fn futex(addr: usize, op: i32, val: u32, ts: *const libc::timespec, bits: u32) -> c_long {
    let _g = Sys::enter();
    let w = w();
    w.step();
    let cmd = op & 0x7f;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            let cur = (*(addr as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst);
            if cur != val {
                return fail(libc::EAGAIN);
            }
            let mask = if cmd == libc::FUTEX_WAIT { u32::MAX } else { bits };
            let dl = if ts.is_null() {
                u64::MAX
            } else {
                let t = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
                if cmd == libc::FUTEX_WAIT {
                    w.now + t
                } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                    w.now + t.saturating_sub(w.wall())
                } else {
                    t.saturating_sub(MONO0)
                }
            };
            if dl <= w.now {
                return fail(libc::ETIMEDOUT);
            }
            if w.block(St::Futex(addr, mask), dl) {
                0
            } else {
                fail(libc::ETIMEDOUT)
            }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mask = if cmd == libc::FUTEX_WAKE { u32::MAX } else { bits };
            let mut q: Vec<usize> = (0..w.th.len()).filter(|i| matches!(w.th[*i].st, St::Futex(a, m) if a == addr && m & mask != 0)).collect();
            if crate::stdio::private(addr) {
                let n = w.th[w.cur].node;
                q.retain(|i| w.th[*i].node == n);
            }
            w.rs.shuffle(&mut q);
            let mut k = 0;
            for i in q {
                if k >= val as i64 {
                    break;
                }
                w.wake(i);
                k += 1;
            }
            k
        }
        _ => w.bug(&format!("unsimulated futex op {}", op)),
    }
}

// ---- threads and locks ----------------------------------------------------
struct Start {
    f: extern "C" fn(P) -> P,
    arg: P,
    tid: usize,
}
pub static mut KEY: libc::pthread_key_t = 0;
pub unsafe extern "C" fn thread_gone(v: P) {
    // run after the other destructors: ask for further rounds first
    let n = v as usize >> 32;
    let tid = v as usize & 0xffff_ffff;
    if n < 3 {
        libc::pthread_setspecific(KEY, (((n + 1) << 32) | tid) as P);
        return;
    }
    let _g = Sys::enter();
    let me = tid - 1;
    w().leave(me);
    TID.with(|t| t.set(-1));
}
extern "C" fn trampoline(p: P) -> P {
    unsafe {
        let s = Box::from_raw(p as *mut Start);
        TID.with(|t| t.set(s.tid as i32));
        INSYS.with(|t| t.set(true));
        libc::pthread_setspecific(KEY, (s.tid + 1) as P);
        let g: *const std::sync::atomic::AtomicU32 = &*w().th[s.tid].go;
        crate::raw::sem_wait(&*g);
        INSYS.with(|t| t.set(false));
        let (f, a) = (s.f, s.arg);
        drop(s);
        f(a)
    }
}
pub unsafe fn spawn(th: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: extern "C" fn(P) -> P, arg: P, node: i32, st: St) -> c_int {
    let w = w();
    let tid = w.th.len();
    w.th.push(Th { st, go: Box::new(std::sync::atomic::AtomicU32::new(0)), node, deadline: u64::MAX, timed_out: false, pth: 0 });
    let s = Box::into_raw(Box::new(Start { f, arg, tid }));
    let r = real!(
        "pthread_create",
        unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(P) -> P, P) -> c_int
    )(th, at, trampoline, s as P);
    if r != 0 {
        w.th[tid].st = St::Dead;
        return r;
    }
    w.th[tid].pth = *th;
    0
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, at: *const libc::pthread_attr_t, f: extern "C" fn(P) -> P, arg: P) -> c_int {
    if !active() {
        return real!(
            "pthread_create",
            unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(P) -> P, P) -> c_int
        )(th, at, f, arg);
    }
    let _g = Sys::enter();
    let w = w();
    w.step();
    let node = w.node();
    spawn(th, at, f, arg, node, St::Run)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, r: *mut P) -> c_int {
    if active() {
        let _g = Sys::enter();
        let w = w();
        w.step();
        if let Some(i) = w.th.iter().position(|t| t.pth == th) {
            while w.th[i].st != St::Dead {
                w.block(St::Join(i), u64::MAX);
            }
            w.th[i].pth = 0;
        }
    }
    real!("pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut P) -> c_int)(th, r)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: libc::pthread_t) -> c_int {
    if active() {
        let w = w();
        if let Some(t) = w.th.iter_mut().find(|t| t.pth == th) {
            t.pth = 0;
        }
    }
    real!("pthread_detach", unsafe extern "C" fn(libc::pthread_t) -> c_int)(th)
}
macro_rules! lock {
    ($($name:ident, $try:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(m: P) -> c_int {
            if !active() {
                return real!(stringify!($name), unsafe extern "C" fn(P) -> c_int)(m);
            }
            let t = real!($try, unsafe extern "C" fn(P) -> c_int);
            loop {
                let r = t(m);
                if r != libc::EBUSY {
                    return r;
                }
                let _g = Sys::enter();
                w().block(St::Mutex(m as usize), u64::MAX);
            }
        }
    )*};
}
lock! {
    pthread_mutex_lock, "pthread_mutex_trylock";
    pthread_rwlock_rdlock, "pthread_rwlock_tryrdlock";
    pthread_rwlock_wrlock, "pthread_rwlock_trywrlock";
}
macro_rules! unlock {
    ($($name:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name(m: P) -> c_int {
            let r = real!(stringify!($name), unsafe extern "C" fn(P) -> c_int)(m);
            if simulated_thread() {
                let w = w();
                for i in 0..w.th.len() {
                    if w.th[i].st == St::Mutex(m as usize) {
                        w.wake(i);
                    }
                }
            }
            r
        }
    )*};
}
unlock! {
    pthread_mutex_unlock;
    pthread_rwlock_unlock;
}
