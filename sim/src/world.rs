//! State of the one simulated execution in this process, the log it appends to,
//! and the seeded scheduler: exactly one simulated thread runs at a time.
use crate::net::Net;
use crate::raw;
use crate::rng::{hash_bytes, mix, Rng};
use crate::spec::*;
use crate::vfs::*;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::AtomicU32;

pub const FD0: i32 = 100000;
/// 2030-01-01, inside the validity of the simulated certificates.
pub const EPOCH: u64 = 1_893_456_000;
pub const MAX_STEPS: u64 = 400_000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Futex(usize, u32),
    Epoll(usize),
    Stdin,
    Join(usize),
    Sleep,
    Mutex(usize),
    NotStarted,
    Dead,
}

pub struct Th {
    pub st: St,
    pub go: Box<AtomicU32>,
    pub node: i32,
    pub deadline: u64,
    pub timed_out: bool,
    pub pth: u64,
}

pub enum Kind {
    File { ino: Ino },
    Dir { ino: Ino },
    Stdin,
    Out(i32),
    Epoll(usize),
    Event(u64),
    Sock(usize),
    Pair,
}
pub struct Ofd {
    pub kind: Kind,
    pub off: u64,
    pub flags: i32,
    pub refs: u32,
}
pub struct Reg {
    pub fd: i32,
    pub ofd: usize,
    pub mask: u32,
    pub data: u64,
    pub pending: u32,
}
#[derive(Default)]
pub struct Ep {
    pub regs: Vec<Reg>,
}

pub struct World {
    pub run: Run,
    pub vfs: Vfs,
    pub cwd: Ino,
    pub th: Vec<Th>,
    pub cur: usize,
    pub now: u64,
    pub steps: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub trace_hash: u64,
    pub points: u64,
    pub rs: Rng,
    pub rio: Rng,
    pub rrand: Rng,
    pub fds: BTreeMap<i32, usize>,
    pub ofds: Vec<Ofd>,
    pub eps: Vec<Ep>,
    pub inq: VecDeque<Vec<u8>>,
    pub in_next: usize,
    pub in_time: u64,
    pub eof: bool,
    pub outlen: u64,
    pub full: bool,
    pub net: Net,
    pub done: Vec<bool>,
    pub killed: Option<i32>,
    pub second: Option<usize>,
    pub logp: *mut u8,
    pub logcap: usize,
    pub finished: Box<AtomicU32>,
    pub ndirs: u64,
    pub flocks: BTreeMap<Ino, usize>,
    pub ending: bool,
    pub crash_seen: bool,
}

static mut W: *mut World = std::ptr::null_mut();
thread_local! {
    pub static TID: Cell<i32> = const { Cell::new(-1) };
    pub static INSYS: Cell<bool> = const { Cell::new(false) };
}

pub fn install(w: World) {
    unsafe { W = Box::into_raw(Box::new(w)) }
}
#[inline]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}
/// Is the calling thread a simulated one, outside the simulator's own code?
#[inline]
pub fn active() -> bool {
    TID.with(|t| t.get()) >= 0 && !INSYS.with(|t| t.get())
}
pub fn simulated_thread() -> bool {
    TID.with(|t| t.get()) >= 0
}
pub struct Sys;
impl Sys {
    pub fn enter() -> Sys {
        INSYS.with(|t| t.set(true));
        Sys
    }
}
impl Drop for Sys {
    fn drop(&mut self) {
        INSYS.with(|t| t.set(false));
    }
}

impl World {
    pub fn log(&mut self, r: &Rec) {
        let b = serde_json::to_vec(r).unwrap_or_default();
        match r {
            Rec::Fired { .. } | Rec::Point { .. } => {}
            _ => self.trace_hash = hash_bytes(self.trace_hash, &b),
        }
        unsafe {
            let len = *(self.logp as *const u64) as usize;
            if len + 8 + b.len() + 4 > self.logcap {
                raw::write_all(2, b"simulator: log full\n");
                raw::exit_now(98);
            }
            let p = self.logp.add(8 + len);
            std::ptr::copy_nonoverlapping((b.len() as u32).to_le_bytes().as_ptr(), p, 4);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(4), b.len());
            *(self.logp as *mut u64) = (len + 4 + b.len()) as u64;
        }
    }
    pub fn node(&self) -> i32 {
        self.th[self.cur].node
    }
    pub fn fs(&mut self, op: FsOp) {
        let node = self.node();
        self.fs_by(node, op)
    }
    pub fn fs_by(&mut self, node: i32, op: FsOp) {
        self.vfs.apply(&op);
        self.log(&Rec::Fs { node, op });
    }
    pub fn fired(&mut self, what: &str) {
        self.log(&Rec::Fired { what: what.to_string() });
    }
    pub fn wall(&self) -> u64 {
        ((EPOCH as i64 + self.run.clock) as u64) * 1_000_000_000 + self.now
    }
    pub fn bug(&mut self, msg: &str) -> ! {
        self.log(&Rec::Bug { msg: msg.to_string() });
        raw::exit_now(97)
    }
    pub fn finish(&mut self) -> ! {
        let e = Rec::End {
            steps: self.steps,
            now: self.now,
            switches: self.switches,
            sched_hash: self.sched_hash,
            points: self.points,
            trace_hash: self.trace_hash,
        };
        self.log(&e);
        raw::exit_now(0)
    }
    pub fn hung(&mut self, why: &str) -> ! {
        self.log(&Rec::Hung { why: why.to_string() });
        self.finish()
    }

    // ---- fault points -------------------------------------------------
    /// One externally visible operation: a place where a fault or crash can strike.
    pub fn point(&mut self, op: &str, path: &str, n: usize) -> Option<Act> {
        // the host's own trust store, not part of the simulated machine's faults
        if path.starts_with('/') && !path.starts_with("/home") {
            return None;
        }
        let idx = self.points;
        self.points += 1;
        if self.run.trace {
            let node = self.node();
            self.log(&Rec::Point { idx, node, op: op.into(), path: path.into(), n });
        }
        if self.second.is_some() && idx >= self.run.second_at {
            self.start_second();
        }
        let hit = self.run.faults.iter().find(|f| f.at == idx).map(|f| f.act.clone());
        if hit.is_some() {
            // recorded by the caller, when the fault has an effect
        }
        hit
    }
    pub fn start_second(&mut self) {
        if let Some(t) = self.second.take() {
            self.th[t].st = St::Run;
        }
    }
    /// To be asked right after `point`.
    pub fn crash_here(&mut self) -> Option<Crash> {
        match &self.run.crash {
            Some(c) if c.at + 1 == self.points && !self.crash_seen => {
                self.crash_seen = true;
                Some(c.clone())
            }
            _ => None,
        }
    }
    /// When only one of two processes is killed, its threads go on until they end,
    /// since what they hold in this address space is not the other's to miss, but
    /// nothing they do reaches the disk or the streams any more.
    pub fn crash(&mut self) {
        if self.run.crash.as_ref().map_or(false, |c| c.one) {
            self.fired("crash:one-process");
            self.killed = Some(self.node());
            return;
        }
        self.log(&Rec::Crashed);
        self.finish()
    }
    pub fn is_killed(&self) -> bool {
        self.killed.is_some() && self.killed == Some(self.node())
    }

    // ---- scheduling ---------------------------------------------------
    /// Entered by every intercepted call: time passes, events happen, and the
    /// scheduler may let another thread run first.
    #[track_caller]
    pub fn step(&mut self) {
        self.steps += 1;
        if crate::world::TRACE.load(std::sync::atomic::Ordering::Relaxed) {
            let l = std::panic::Location::caller();
            crate::raw::write_all(2, format!("S {} t{} {}:{} {}\n", self.steps, self.cur, l.file(), l.line(), self.now).as_bytes());
        }
        self.now += 1000;
        if self.steps > MAX_STEPS {
            self.hung("step budget exhausted (livelock)");
        }
        self.due();
        let p = self.run.sched.preempt;
        if p > 0.0 && self.rs.chance(p) {
            self.resched();
        }
    }
    pub fn resched(&mut self) {
        let r = self.runnable();
        if r.len() > 1 {
            let t = r[self.rs.below(r.len())];
            self.switch(t);
        }
    }
    fn runnable(&self) -> Vec<usize> {
        (0..self.th.len()).filter(|i| self.th[*i].st == St::Run).collect()
    }
    #[track_caller]
    fn switch(&mut self, t: usize) {
        let me = TID.with(|c| c.get()) as usize;
        if t == self.cur && t == me {
            return;
        }
        self.switches += 1;
        self.sched_hash = mix(self.sched_hash ^ (t as u64) << 32 ^ self.steps);
        self.cur = t;
        crate::stdio::select(self.th[t].node as usize);
        raw::sem_post(&self.th[t].go);
        let g: *const AtomicU32 = &*self.th[me].go;
        raw::sem_wait(unsafe { &*g });
    }
    /// Give up the processor for good (thread exit).
    pub fn leave(&mut self, me: usize) {
        self.th[me].st = St::Dead;
        for i in 0..self.th.len() {
            if self.th[i].st == St::Join(me) {
                self.th[i].st = St::Run;
            }
        }
        let t = self.next();
        self.switches += 1;
        self.sched_hash = mix(self.sched_hash ^ (t as u64) << 32 ^ self.steps);
        self.cur = t;
        crate::stdio::select(self.th[t].node as usize);
        raw::sem_post(&self.th[t].go);
    }
    /// Block the current thread; true if woken, false if the deadline passed.
    pub fn block(&mut self, st: St, deadline: u64) -> bool {
        let me = self.cur;
        self.th[me].st = st;
        self.th[me].deadline = deadline;
        self.th[me].timed_out = false;
        let t = self.next();
        if t != me {
            self.switch(t);
        }
        let me = TID.with(|c| c.get()) as usize;
        !self.th[me].timed_out
    }
    pub fn wake(&mut self, i: usize) {
        self.th[i].st = St::Run;
        self.th[i].deadline = u64::MAX;
        self.th[i].timed_out = false;
    }
    /// Everything scheduled for a time that has come.
    fn due(&mut self) {
        while let Some(t) = self.net.next_time() {
            if t > self.now {
                break;
            }
            self.net_event();
        }
        for i in 0..self.th.len() {
            let th = &mut self.th[i];
            if !matches!(th.st, St::Run | St::Dead | St::NotStarted) && th.deadline <= self.now {
                th.st = St::Run;
                th.timed_out = true;
                th.deadline = u64::MAX;
            }
        }
        self.input(false);
    }
    /// Advance the stdin plan.
    fn input(&mut self, quiescent: bool) -> bool {
        let mut quiescent = quiescent;
        let mut progress = false;
        while self.in_next < self.run.stdin.len() {
            let n = self.in_next;
            let ev = self.run.stdin[n].clone();
            match ev {
                In::Hold => return progress,
                In::Settle => {
                    if !quiescent {
                        return progress;
                    }
                    let t = self.now;
                    self.log(&Rec::Settled { n, t });
                    self.in_time = self.now;
                    quiescent = false;
                }
                In::Bytes { data, after } => {
                    if self.in_time + after * 1000 > self.now {
                        return progress;
                    }
                    self.in_time += after * 1000;
                    let t = self.now;
                    self.log(&Rec::Did { n, t });
                    if !data.is_empty() {
                        self.inq.push_back(data);
                    }
                    self.wake_stdin();
                }
                In::Edit { path, data, after, atomic, keep } => {
                    if self.in_time + after * 1000 > self.now {
                        return progress;
                    }
                    self.in_time += after * 1000;
                    let t = self.now;
                    self.log(&Rec::Did { n, t });
                    let mut wall = self.wall();
                    if keep {
                        // as some tools copy files, time of change included
                        if let Some(t) = self.vfs.mtime(&path) {
                            wall = t;
                        }
                    }
                    for op in self.vfs.edit_ops(&path, data.as_deref(), wall, atomic) {
                        self.fs_by(-1, op);
                    }
                }
            }
            progress = true;
            self.in_next += 1;
        }
        if !self.eof {
            self.eof = true;
            progress = true;
            self.wake_stdin();
        }
        progress
    }
    fn wake_stdin(&mut self) {
        for i in 0..self.th.len() {
            if self.th[i].st == St::Stdin {
                self.wake(i);
            }
        }
    }
    /// Choose who runs next, letting simulated time jump when nobody can.
    fn next(&mut self) -> usize {
        loop {
            self.due();
            let r = self.runnable();
            if !r.is_empty() {
                return r[self.rs.below(r.len())];
            }
            let mut t = u64::MAX;
            if let Some(x) = self.net.next_time() {
                t = t.min(x);
            }
            for th in &self.th {
                if !matches!(th.st, St::Run | St::Dead | St::NotStarted) {
                    t = t.min(th.deadline);
                }
            }
            match self.run.stdin.get(self.in_next) {
                Some(In::Bytes { after, .. }) | Some(In::Edit { after, .. }) => t = t.min(self.in_time + after * 1000),
                _ => {}
            }
            if t != u64::MAX {
                if t > 7_200_000_000_000 {
                    self.hung("no progress within two simulated hours");
                }
                self.now = self.now.max(t);
                continue;
            }
            if self.second.is_some() {
                self.start_second();
                continue;
            }
            if self.input(true) {
                continue;
            }
            let why = format!("all threads blocked: {:?}", self.th.iter().filter(|t| t.st != St::Dead).map(|t| t.st_name()).collect::<Vec<_>>());
            self.hung(&why);
        }
    }

    // ---- readiness ----------------------------------------------------
    pub fn ready(&self, ofd: usize) -> u32 {
        match &self.ofds[ofd].kind {
            Kind::Event(v) => (if *v > 0 { libc::EPOLLIN as u32 } else { 0 }) | libc::EPOLLOUT as u32,
            Kind::Sock(s) => self.net.ready(*s),
            Kind::Pair => libc::EPOLLOUT as u32,
            _ => 0,
        }
    }
    /// An edge on an open file description.
    pub fn notify(&mut self, ofd: usize) {
        let rdy = self.ready(ofd);
        for e in 0..self.eps.len() {
            let mut hit = false;
            for r in self.eps[e].regs.iter_mut() {
                if r.ofd == ofd {
                    r.pending |= rdy & (r.mask | (libc::EPOLLERR | libc::EPOLLHUP) as u32);
                    hit |= r.pending != 0;
                }
            }
            if hit {
                for i in 0..self.th.len() {
                    if self.th[i].st == St::Epoll(e) {
                        self.wake(i);
                    }
                }
            }
        }
    }
    pub fn notify_sock(&mut self, s: usize) {
        for o in 0..self.ofds.len() {
            if self.ofds[o].refs > 0 {
                if let Kind::Sock(x) = self.ofds[o].kind {
                    if x == s {
                        self.notify(o)
                    }
                }
            }
        }
    }
    pub fn new_fd(&mut self, kind: Kind, flags: i32) -> i32 {
        let o = self.ofds.len();
        self.ofds.push(Ofd { kind, off: 0, flags, refs: 1 });
        self.fd_for(o)
    }
    pub fn fd_for(&mut self, o: usize) -> i32 {
        let mut fd = FD0;
        while self.fds.contains_key(&fd) {
            fd += 1;
        }
        self.fds.insert(fd, o);
        fd
    }
    pub fn close_fd(&mut self, fd: i32) -> Result<(), i32> {
        let o = self.fds.remove(&fd).ok_or(libc::EBADF)?;
        for e in self.eps.iter_mut() {
            e.regs.retain(|r| r.fd != fd);
        }
        self.ofds[o].refs -= 1;
        if self.ofds[o].refs == 0 {
            if let Kind::Sock(s) = self.ofds[o].kind {
                self.net_close(s);
            }
        }
        Ok(())
    }
}
impl Th {
    fn st_name(&self) -> &'static str {
        match self.st {
            St::Run => "run",
            St::Futex(..) => "futex",
            St::Epoll(..) => "epoll",
            St::Stdin => "stdin",
            St::Join(..) => "join",
            St::Sleep => "sleep",
            St::Mutex(..) => "mutex",
            St::NotStarted => "not started",
            St::Dead => "dead",
        }
    }
}
/// Descriptors below `FD0` other than the standard ones were obtained by direct
/// system calls (wasmtime's memory images): they are real.
#[inline]
pub fn active_fd(fd: i32) -> bool {
    active() && !(fd > 2 && fd < FD0)
}

pub static TRACE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
