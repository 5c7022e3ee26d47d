//! Execute one `Run` in a forked process and collect what happened.
use crate::net::Net;
use crate::raw;
use crate::rng::Rng;
use crate::spec::*;
use crate::vfs::*;
use crate::world::*;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::CStr;
use std::sync::atomic::AtomicU32;

const LOGCAP: usize = 42 << 20;
static mut LOGP: *mut u8 = std::ptr::null_mut();
static mut ARGV: *mut *mut libc::c_char = std::ptr::null_mut();
static mut ARGC: usize = 0;
pub const MAXARGS: usize = 14;
const NODE_STACK: usize = 2 << 20;

/// The padded argument vector this process was started with (see `main`).
pub fn set_argv(argc: usize, argv: *mut *mut libc::c_char) {
    unsafe {
        ARGC = argc;
        ARGV = argv;
    }
}
fn put_args(args: &[String]) {
    let mut v = vec!["brack".to_string()];
    v.extend(args.iter().cloned());
    assert!(v.len() <= unsafe { ARGC }, "too many arguments");
    unsafe {
        for i in 0..ARGC {
            *ARGV.add(i) = match v.get(i) {
                Some(s) => std::ffi::CString::new(s.as_str()).unwrap().into_raw(),
                None => std::ptr::null_mut(),
            };
        }
    }
}

pub fn init() {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), LOGCAP, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        LOGP = p as *mut u8;
        libc::pthread_key_create(std::ptr::addr_of_mut!(crate::sys::KEY), Some(crate::sys::thread_gone));
    }
}

extern "C" fn node_main(p: *mut libc::c_void) -> *mut libc::c_void {
    let i = p as usize;
    put_args(&w().run.argv[i].clone());
    let code = match std::panic::catch_unwind(crate::cli::entry) {
        Ok(c) => c,
        Err(_) => 101,
    };
    use std::io::Write;
    let _ = std::io::stdout().flush();
    node_exit(code)
}

/// The process `code` of the calling thread ends.
pub fn node_exit(code: i32) -> ! {
    let _g = Sys::enter();
    let w = w();
    let node = w.node();
    let code = if w.is_killed() { 137 } else { code };
    w.log(&Rec::Exit { node, code });
    w.done[node as usize] = true;
    if w.done.iter().all(|d| *d) {
        w.finish();
    }
    for t in w.th.iter_mut() {
        if t.node == node {
            t.st = St::Dead;
        }
    }
    w.start_second();
    loop {
        w.block(St::Dead, u64::MAX);
    }
}

fn child(run: &Run, vfs: &Vfs, reg: &Registry) -> ! {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_DATA, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        for (k, v) in &run.env {
            std::env::set_var(k, v);
        }
        crate::alloc::start();
        if run.argv.len() > 1 && !crate::stdio::split(run.argv.len()) {
            raw::exit_now(94);
        }
        std::env::set_var("TOKIO_WORKER_THREADS", run.sched.workers.max(1).to_string());
        let s = run.sched.seed;
        let mut ofds = vec![];
        let mut fds = BTreeMap::new();
        for (i, k) in [Kind::Stdin, Kind::Out(1), Kind::Out(2)].into_iter().enumerate() {
            ofds.push(Ofd { kind: k, off: 0, flags: libc::O_RDWR, refs: 1 });
            fds.insert(i as i32, i);
        }
        let cwd = vfs.lookup(ROOT, &run.cwd).unwrap_or(ROOT);
        install(World {
            run: run.clone(),
            vfs: vfs.clone(),
            cwd,
            th: vec![],
            cur: 0,
            now: 0,
            steps: 0,
            switches: 0,
            sched_hash: 0,
            trace_hash: 0,
            points: 0,
            rs: Rng::new(s ^ 1),
            rio: Rng::new(s ^ 2),
            rrand: Rng::new(run.sched.hash_seed ^ 3),
            fds,
            ofds,
            eps: vec![],
            inq: VecDeque::new(),
            in_next: 0,
            in_time: 0,
            eof: false,
            outlen: 0,
            full: false,
            net: Net::new(s ^ 4, reg.clone()),
            done: vec![false; run.argv.len()],
            killed: None,
            second: None,
            logp: LOGP,
            logcap: LOGCAP,
            finished: Box::new(AtomicU32::new(0)),
            ndirs: 0,
            flocks: BTreeMap::new(),
            ending: false,
            crash_seen: false,
        });
        let mut attr: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstacksize(&mut attr, NODE_STACK);
        for i in 0..run.argv.len() {
            let mut th = 0;
            let st = if i == 0 { St::Run } else { St::NotStarted };
            if crate::sys::spawn(&mut th, &attr, node_main, i as *mut libc::c_void, i as i32, st) != 0 {
                raw::exit_now(96);
            }
            if i > 0 {
                w().second = Some(w().th.len() - 1);
            }
        }
        let g: *const AtomicU32 = &*w().th[0].go;
        raw::sem_post(&*g);
        let never = AtomicU32::new(0);
        loop {
            raw::futex_wait(&never, 0);
        }
    }
}

pub fn run(run: &Run, vfs: &Vfs, reg: &Registry) -> Res {
    unsafe {
        *(LOGP as *mut u64) = 0;
        let pid = libc::fork();
        if pid == 0 {
            child(run, vfs, reg);
        }
        assert!(pid > 0, "fork failed");
        let mut st = 0i32;
        let t0 = raw::real_secs();
        let mut killed = false;
        let mut nap = 20_000u64;
        loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                break;
            }
            if raw::real_secs() - t0 > 120.0 && !killed {
                killed = true;
                libc::kill(pid, libc::SIGKILL);
            }
            let ts = libc::timespec { tv_sec: 0, tv_nsec: nap as i64 };
            raw::sc(libc::SYS_nanosleep, &ts as *const _ as usize, 0, 0, 0, 0, 0);
            nap = (nap + 20_000).min(500_000);
        }
        collect(run, vfs, st, killed)
    }
}

unsafe fn collect(run: &Run, vfs: &Vfs, st: i32, killed: bool) -> Res {
    let len = *(LOGP as *const u64) as usize;
    let b = std::slice::from_raw_parts(LOGP.add(8), len);
    let mut recs: Vec<Rec> = vec![];
    let mut i = 0;
    while i + 4 <= len {
        let n = u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
        i += 4;
        match serde_json::from_slice(&b[i..i + n]) {
            Ok(r) => recs.push(r),
            Err(e) => recs.push(Rec::Bug { msg: format!("log: {}", e) }),
        }
        i += n;
    }
    // give the pages back if this was a large log
    if len > 2 << 20 {
        libc::madvise(LOGP as *mut libc::c_void, LOGCAP, libc::MADV_REMOVE);
    }
    let mut res = Res {
        recs: vec![],
        end: End::Broken("no end record".into()),
        codes: vec![None; run.argv.len()],
        out: vec![vec![]; run.argv.len()],
        err: vec![],
        before: vfs.clone(),
        after: vfs.clone(),
        steps: 0,
        now: 0,
        switches: 0,
        sched_hash: 0,
        points: 0,
        trace_hash: 0,
    };
    let mut ops = vec![];
    let mut crashed = false;
    let mut hung = None;
    let mut bug = None;
    let mut ended = false;
    for r in &recs {
        match r {
            Rec::Fs { op, .. } => {
                res.after.apply(op);
                ops.push(op.clone());
            }
            Rec::Out { node, fd, data, .. } => {
                if *fd == 1 {
                    res.out[*node as usize].extend_from_slice(data)
                } else {
                    res.err.extend_from_slice(data)
                }
            }
            Rec::Exit { node, code } => res.codes[*node as usize] = Some(*code),
            Rec::Hung { why } => hung = Some(why.clone()),
            Rec::Crashed => crashed = true,
            Rec::Bug { msg } => bug = Some(msg.clone()),
            Rec::End { steps, now, switches, sched_hash, points, trace_hash } => {
                ended = true;
                res.steps = *steps;
                res.now = *now;
                res.switches = *switches;
                res.sched_hash = *sched_hash;
                res.points = *points;
                res.trace_hash = *trace_hash;
            }
            _ => {}
        }
    }
    res.end = if let Some(m) = bug {
        End::Broken(m)
    } else if killed {
        End::Broken("real-time limit".into())
    } else if libc::WIFSIGNALED(st) {
        End::Signal(libc::WTERMSIG(st))
    } else if libc::WEXITSTATUS(st) != 0 {
        End::Broken(format!("simulator exit {}", libc::WEXITSTATUS(st)))
    } else if let Some(why) = hung {
        End::Hung(why)
    } else if crashed {
        End::Crashed
    } else if ended {
        End::Exit(res.codes[0].unwrap_or(-1))
    } else {
        End::Broken("no end record".into())
    };
    if let Some(Crash { power: Some(seed), .. }) = &run.crash {
        // also when the run ended before the crash point: power fails right after
        res.after = power_loss(vfs, &ops, *seed);
    }
    res.recs = recs;
    res
}

/// argv[0..] as the C runtime sees it; found once through .init_array.
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn(i32, *mut *mut libc::c_char, *mut *mut libc::c_char) = {
    extern "C" fn f(argc: i32, argv: *mut *mut libc::c_char, _e: *mut *mut libc::c_char) {
        set_argv(argc as usize, argv);
    }
    f
};

/// Re-execute with a padded argument vector, no address randomisation and a
/// clean environment.
pub fn reexec(args: &[String]) -> ! {
    unsafe {
        libc::personality(0x0040000);
        let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
        let mut v = vec![std::ffi::CString::new("brack-sim").unwrap()];
        v.push(std::ffi::CString::new("--padded").unwrap());
        v.push(std::ffi::CString::new(args.join("\x1f")).unwrap());
        while v.len() < MAXARGS {
            v.push(std::ffi::CString::new("-").unwrap());
        }
        let mut p: Vec<*const libc::c_char> = v.iter().map(|c| c.as_ptr()).collect();
        p.push(std::ptr::null());
        let ca = concat!(env!("CARGO_MANIFEST_DIR"), "/assets/ca.pem");
        let mut env = vec![
            format!("SSL_CERT_FILE={}", ca),
            "SSL_CERT_DIR=/nonexistent".to_string(),
            "EXTISM_CACHE_CONFIG=".to_string(),
            "PATH=/usr/bin:/bin".to_string(),
            "HOME=/home/user".to_string(),
            "LANG=C.UTF-8".to_string(),
            "OPENSSL_CONF=/dev/null".to_string(),
        ];
        for k in ["VERIF_SEED", "VERIF_TIER", "SIM_DEBUG", "SIM_WORKERS", "SIM_SCALE", "SIM_OUT"] {
            if let Ok(v) = std::env::var(k) {
                env.push(format!("{}={}", k, v));
            }
        }
        let env: Vec<std::ffi::CString> = env.into_iter().map(|e| std::ffi::CString::new(e).unwrap()).collect();
        let mut ep: Vec<*const libc::c_char> = env.iter().map(|c| c.as_ptr()).collect();
        ep.push(std::ptr::null());
        libc::execve(exe.as_ptr(), p.as_ptr(), ep.as_ptr());
        eprintln!("re-exec failed");
        std::process::exit(3)
    }
}
/// Arguments after re-execution, or None if it is still to be done.
pub fn padded_args() -> Option<Vec<String>> {
    unsafe {
        if ARGC == MAXARGS && CStr::from_ptr(*ARGV.add(1)).to_bytes() == b"--padded" {
            let s = CStr::from_ptr(*ARGV.add(2)).to_str().ok()?.to_string();
            return Some(s.split('\x1f').map(|x| x.to_string()).collect());
        }
        None
    }
}
