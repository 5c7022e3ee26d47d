//! Command line of the harness: search, replay, evidence.
use crate::case::*;
use crate::exec::*;
use crate::gen;
use crate::raw::real_secs;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};

const DIR: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/..");

#[derive(Serialize, Deserialize)]
struct Found {
    index: u64,
    msg: String,
    case: Case,
}
#[derive(Serialize, Deserialize)]
struct Report {
    stats: Stats,
    found: Option<Found>,
}
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    seed: u64,
    violation: String,
    trace_hash: String,
    case: Case,
    #[serde(default)]
    log: Vec<String>,
}

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|s| !s.is_empty())
}
fn base_seed() -> u64 {
    env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1)
}
fn thorough() -> bool {
    env("VERIF_TIER").as_deref() == Some("thorough")
}

pub fn main(args: &[String]) -> ! {
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let code = match a.as_slice() {
        ["check", id] => check(id),
        ["worker", id, start, stride, end, secs] => worker(id, start.parse().unwrap(), stride.parse().unwrap(), end.parse().unwrap(), secs.parse().unwrap()),
        ["replay", file] => replay(file),
        ["one", id, seed, rest @ ..] => one(id, seed.parse().unwrap(), rest.contains(&"-v"), rest.contains(&"-m")),
        // one of the generated plugins, to be used outside of the simulation
        ["plugin", owner, repo, version, file, out] => {
            std::fs::write(out, crate::plug::Tag::of(owner, repo, version, file).wasm()).expect("write");
            0
        }
        ["list"] => {
            println!("{}", gen::IDS.join(" "));
            0
        }
        _ => {
            eprintln!("usage: brack-sim check ID | replay FILE | one ID SEED [-v] [-m]");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

fn case_seed(i: u64) -> u64 {
    base_seed().wrapping_mul(1_000_003).wrapping_add(i) & 0xff_ffff_ffff
}

fn one(id: &str, seed: u64, verbose: bool, min: bool) -> i32 {
    crate::world::TRACE.store(min && verbose, std::sync::atomic::Ordering::Relaxed);
    let c = gen::gen(id, seed);
    let mut ex = Exec::default();
    if verbose {
        ex.log = Some(vec![]);
        println!("{}", serde_json::to_string(&c).unwrap());
    }
    let t = real_secs();
    let v = c.check(&mut ex);
    for l in ex.log.iter().flatten() {
        println!("{}", l);
    }
    println!("{} seed {} kind {} runs {} hash {:x} {:.2}s: {:?}", id, seed, c.kind, ex.st.runs, ex.hash, real_secs() - t, v);
    match v {
        Ok(()) => 0,
        Err(e) => {
            if min {
                let (c, m) = c.minimise(&mut Exec::default(), &e, 60.0);
                println!("minimised: {}\n{}", m, serde_json::to_string_pretty(&c).unwrap());
            }
            1
        }
    }
}

fn brief(c: &Case) -> String {
    let s: Vec<String> = c
        .stages
        .iter()
        .map(|s| {
            let mut o = format!("{} -> {:?}", s.name(), s.want);
            if s.sched.preempt > 0.0 || s.sched.short > 0.0 || s.sched.eintr > 0.0 {
                o += &format!(" sched(seed {}, preempt {}, workers {}, short {}, eintr {})", s.sched.seed, s.sched.preempt, s.sched.workers, s.sched.short, s.sched.eintr);
            }
            for n in &s.net {
                o += &format!(" net({} {:?})", n.url.rsplit('/').next().unwrap_or(""), n.act);
            }
            for x in &s.sel {
                o += &format!(" fault({}/{} at {:.2}: {:?})", x.path, x.op, x.pos, x.act);
            }
            if let Some(x) = &s.crash {
                o += &format!(" crash({} at {:.2}, torn {}, power {})", x.path, x.pos, x.torn, x.power.is_some());
            }
            if let Some((n, e)) = s.out.limit {
                o += &format!(" stdout(fails after {} bytes with errno {})", n, e);
            }
            if let Cmd::Ls(se) = &s.cmd {
                o += &format!(" session({} events, {:?})", se.evs.len(), se.cut);
            }
            o
        })
        .collect();
    format!("seed {} [{}]: {}", c.seed, c.kind, s.join("; "))
}

fn worker(id: &str, start: u64, stride: u64, end: u64, secs: f64) -> i32 {
    let t0 = real_secs();
    let mut ex = Exec::default();
    let mut found = None;
    let mut i = start;
    let mut n = 0u64;
    while i < end && real_secs() - t0 < secs {
        let c = gen::gen(id, case_seed(i));
        let before: u64 = ex.st.fired.values().sum();
        ex.hash = 0;
        let v = c.check(&mut ex);
        let h = ex.hash;
        ex.st.cases += 1;
        *ex.st.kinds.entry(c.kind.clone()).or_insert(0) += 1;
        if ex.st.fired.values().sum::<u64>() > before {
            ex.st.nontrivial.insert(h);
        }
        if n == 1 || (n > 1 && n % 40 == 0 && ex.st.samples.len() < 3) {
            ex.st.samples.push(brief(&c));
        }
        match v {
            Err(e) if class(&e) == "harness" => {
                if ex.st.skipped == 0 {
                    eprintln!("{} seed {}: {}", id, c.seed, e);
                }
                ex.st.skipped += 1;
            }
            Err(e) => {
                found = Some(Found { index: i, msg: e, case: c });
                break;
            }
            Ok(()) => {
                // the same seed must be the same execution
                if n % 50 == 7 {
                    let mut again = Exec::default();
                    let _ = c.check(&mut again);
                    ex.st.redone += 1;
                    if again.hash != h {
                        eprintln!("{} seed {}: two executions differ", id, c.seed);
                        ex.st.differing += 1;
                    }
                }
            }
        }
        i += stride;
        n += 1;
    }
    println!("{}", serde_json::to_string(&Report { stats: ex.st, found }).unwrap());
    0
}

/// (quick cases, thorough cases)
fn budget(id: &str) -> (u64, u64) {
    match id {
        "S01" => (900, 60_000),
        "S02" | "S03" | "S05" | "S06" | "S07" => (2400, 200_000),
        "S04" | "S08" => (2400, 150_000),
        "P01" | "P07" => (1600, 100_000),
        "P03" | "P05" => (2000, 100_000),
        "P02" | "P04" | "P06" => (1600, 100_000),
        "B01" | "B03" | "B06" => (1500, 80_000),
        "B02" | "B04" => (2400, 100_000),
        "B05" => (9000, 100_000),
        _ => (3000, 150_000),
    }
}

fn check(id: &str) -> i32 {
    if !gen::IDS.contains(&id) {
        eprintln!("unknown property {}", id);
        return 2;
    }
    let t0 = real_secs();
    let deep = thorough();
    let scale: f64 = env("SIM_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let (q, t) = budget(id);
    let cases = ((if deep { t } else { q }) as f64 * scale) as u64;
    let secs = if deep { 780.0 } else { 100.0 };
    let nw: u64 = env("SIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)).clamp(1, 16);
    let known = known(id);

    let me = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for w in 0..nw {
        let k = Command::new(&me)
            .args(["worker", id, &w.to_string(), &nw.to_string(), &cases.to_string(), &secs.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .spawn();
        match k {
            Ok(k) => kids.push(k),
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return 3;
            }
        }
    }
    let pids: Vec<i32> = kids.iter().map(|k| k.id() as i32).collect();
    let (tx, rx) = std::sync::mpsc::channel();
    for (w, mut k) in kids.into_iter().enumerate() {
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut line = String::new();
            let _ = BufReader::new(k.stdout.take().unwrap()).read_line(&mut line);
            let _ = k.wait();
            let _ = tx.send((w, serde_json::from_str::<Report>(&line).ok()));
        });
    }
    let mut st = Stats::default();
    let mut found: Option<Found> = None;
    let mut dead = 0;
    let mut deadline = f64::MAX;
    let mut left = pids.len();
    let mut alive = vec![true; pids.len()];
    while left > 0 {
        let wait = std::time::Duration::from_secs_f64((deadline - real_secs()).clamp(0.0, 1000.0));
        match rx.recv_timeout(wait) {
            Ok((w, r)) => {
                left -= 1;
                alive[w] = false;
                match r {
                    Some(r) => {
                        st.add(r.stats);
                        if let Some(f) = r.found {
                            // others may still find an earlier one
                            deadline = deadline.min(real_secs() + 3.0);
                            if found.as_ref().map_or(true, |g| f.index < g.index) {
                                found = Some(f);
                            }
                        }
                    }
                    None => dead += 1,
                }
            }
            Err(_) => {
                for (w, p) in pids.iter().enumerate() {
                    if alive[w] {
                        unsafe {
                            libc::kill(*p, libc::SIGKILL);
                        }
                    }
                }
                deadline = f64::MAX;
                if found.is_some() {
                    break;
                }
            }
        }
    }
    let search_s = real_secs() - t0;
    let mut code = 0;
    let mut viol = 0;
    if let Some(f) = found {
        viol = 1;
        let (mut c, mut msg) = (f.case, f.msg);
        // it must come back before it is believed
        match c.check(&mut Exec::default()) {
            Err(e) if class(&e) == class(&msg) => {}
            o => {
                eprintln!("harness error: {} seed {}: {} did not come back: {:?}", id, c.seed, msg, o);
                code = 3;
            }
        }
        if code == 0 {
            println!("{}: {}", id, msg);
            let mut ex = Exec::default();
            (c, msg) = c.minimise(&mut ex, &msg, if deep { 120.0 } else { 45.0 });
            st.shrink_runs = ex.st.shrink_runs;
            let file = write_replay(id, &c, &msg);
            println!("minimised ({} attempts): {}", st.shrink_runs, msg);
            println!("VIOLATION property={} replay={}", id, file);
            code = 1;
        }
    } else if dead > 0 && st.cases == 0 {
        eprintln!("harness error: {} workers ended without a report", dead);
        code = 3;
    } else if st.skipped * 4 > st.cases {
        eprintln!("harness error: {} of {} cases could not be carried out", st.skipped, st.cases);
        code = 3;
    }
    for (text, v) in &known {
        match v {
            Err(e) if class(e) != "harness" => println!("KNOWN-FINDING: property={} {}", id, text),
            _ => println!("note: property={} no longer fails: {}", id, text),
        }
    }
    evidence(id, &st, deep, search_s, real_secs() - t0, viol, nw, &known);
    println!(
        "{} {}: {} cases, {} simulated runs in {:.1}s, {} crashes, {} requests, {} distinct schedules, {} distinct end states{}",
        id,
        if code == 0 { "held" } else { "FAILED" },
        st.cases,
        st.runs,
        search_s,
        st.crashes,
        st.requests,
        st.schedules.len(),
        st.states.len(),
        if st.differing > 0 { format!(", {} of {} repeated executions differed", st.differing, st.redone) } else { String::new() }
    );
    code
}

fn write_replay(id: &str, c: &Case, msg: &str) -> String {
    let mut ex = Exec { log: Some(vec![]), ..Default::default() };
    let v = c.check(&mut ex);
    let r = Replay { property: id.into(), seed: c.seed, violation: v.err().unwrap_or_else(|| msg.to_string()), trace_hash: format!("{:x}", ex.hash), case: c.clone(), log: ex.log.unwrap_or_default() };
    let d = env("SIM_OUT").unwrap_or(format!("{}/evidence/replays", DIR));
    let _ = std::fs::create_dir_all(&d);
    let d = std::fs::canonicalize(&d).map(|p| p.to_string_lossy().to_string()).unwrap_or(d);
    let f = format!("{}/{}-{}.json", d, id, c.seed);
    if let Err(e) = std::fs::write(&f, serde_json::to_vec_pretty(&r).unwrap()) {
        eprintln!("cannot write {}: {}", f, e);
    }
    f
}

fn replay(file: &str) -> i32 {
    let r: Replay = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {}", file);
            return 2;
        }
    };
    let mut ex = Exec { log: Some(vec![]), ..Default::default() };
    let v = r.case.check(&mut ex);
    for l in ex.log.iter().flatten() {
        println!("{}", l);
    }
    let h = format!("{:x}", ex.hash);
    println!("{}", brief(&r.case));
    match v {
        Err(e) => {
            println!("reproduced: {}", e);
            println!("the same execution: {}", if h == r.trace_hash { "yes" } else { "no (the code differs from when it was recorded)" });
            println!("VIOLATION property={} replay={}", r.property, file);
            1
        }
        Ok(()) => {
            println!("{} holds in this case", r.property);
            0
        }
    }
}

/// The recorded cases of the known findings of one property, run now.
fn known(id: &str) -> Vec<(String, Verdict)> {
    let mut o = vec![];
    let list = std::fs::read_to_string(format!("{}/known_findings.txt", DIR)).unwrap_or_default();
    for l in list.lines() {
        // known: property=ID case=FILE what fails
        let Some(rest) = l.strip_prefix(&format!("known: property={} case=", id)) else { continue };
        let Some((f, text)) = rest.split_once(' ') else { continue };
        let c: Option<Value> = std::fs::read(format!("{}/{}", DIR, f)).ok().and_then(|b| serde_json::from_slice(&b).ok());
        match c.and_then(|c| serde_json::from_value::<Case>(c["case"].clone()).ok()) {
            Some(c) => o.push((text.to_string(), c.check(&mut Exec::default()))),
            None => eprintln!("cannot read {}", f),
        }
    }
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(id: &str, st: &Stats, deep: bool, search_s: f64, wall: f64, viol: u64, workers: u64, known: &[(String, Verdict)]) {
    let per_h = |n: u64| (n as f64 / search_s.max(0.001) * 3600.0) as u64;
    let mut samples: Vec<Value> = st.samples.iter().take(6).map(|s| json!(s)).collect();
    if samples.is_empty() {
        samples.push(json!(brief(&gen::gen(id, case_seed(0)))));
    }
    let faults: BTreeMap<_, _> = st.fired.iter().collect();
    let v = json!({
        "property": id,
        "tier": if deep { "thorough" } else { "quick" },
        "seed": base_seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": st.cases,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": "one case per seed: a generated history of commands on a simulated machine with a seeded schedule, faults, crashes and input delivery; non-trivial: at least one fault, crash, short or interrupted call, network disturbance or input cut took effect; distinct: by hash over every scheduling decision, system call and output of the case",
            "samples": samples,
            "simulated_runs": st.runs,
            "simulated_runs_per_hour": per_h(st.runs),
            "seeds_per_hour": per_h(st.cases),
            "simulated_seconds": st.sim_ns / 1_000_000_000,
            "scheduling_steps": st.steps,
            "thread_switches": st.switches,
            "fault_points_passed": st.points,
            "faults_injected": faults,
            "crashes": st.crashes,
            "power_losses": st.power_losses,
            "distinct_crash_points": st.crash_points.len(),
            "registry_requests": st.requests,
            "distinct_interleavings": st.schedules.len(),
            "distinct_end_states": st.states.len(),
            "case_kinds": st.kinds,
            "cases_skipped_by_harness": st.skipped,
            "repeated_executions": st.redone,
            "repeated_executions_differing": st.differing,
            "minimisation_runs": st.shrink_runs,
            "workers": workers,
            "known_findings": known.iter().map(|k| k.0.clone()).collect::<Vec<_>>(),
            "real_code": "src/main.rs and all brack-* crates from /repo's working tree, clap, toml, tokio (multi-thread runtime), reqwest, hyper, native-tls with OpenSSL, extism and wasmtime executing real plugin modules, the Rust standard library",
            "stubs": "operating system calls reached through libc: files, directories, standard streams, threads, locks, futexes, clocks, timers, epoll, sockets, name resolution, randomness, process exit; the registry at the other end of the network (a TLS server with OpenSSL in the simulator); compiled plugin code is cached between runs"
        },
        "assumptions": [
            "threads switch only at calls into the C library (system calls, locks, futexes): data races between them inside one such stretch are not explored",
            "a call is atomic: rename, open and unlink have no observable middle",
            "power loss keeps any prefix-closed choice of unsynced operations per file and directory",
            "plugins are generated and deterministic"
        ],
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": viol
    });
    let d = format!("{}/evidence", DIR);
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(format!("{}/{}.json", d, id), serde_json::to_vec_pretty(&v).unwrap()) {
        eprintln!("cannot write the evidence: {}", e);
    }
}
