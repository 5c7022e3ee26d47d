//! Runs simulated commands and keeps the statistics the evidence reports.
use crate::rng::{hash_bytes, mix};
use crate::run;
use crate::spec::*;
use crate::vfs::Vfs;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Serialize, Deserialize, Clone)]
pub struct Stats {
    pub cases: u64,
    pub runs: u64,
    pub crashes: u64,
    pub power_losses: u64,
    pub requests: u64,
    pub steps: u64,
    pub switches: u64,
    pub points: u64,
    /// simulated nanoseconds
    pub sim_ns: u64,
    pub fired: BTreeMap<String, u64>,
    pub kinds: BTreeMap<String, u64>,
    pub schedules: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub crash_points: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub samples: Vec<String>,
    pub shrink_runs: u64,
    /// Runs the simulator could not carry out.
    pub broken: u64,
    pub skipped: u64,
    pub redone: u64,
    pub differing: u64,
}
impl Stats {
    pub fn add(&mut self, o: Stats) {
        self.cases += o.cases;
        self.runs += o.runs;
        self.crashes += o.crashes;
        self.power_losses += o.power_losses;
        self.requests += o.requests;
        self.steps += o.steps;
        self.switches += o.switches;
        self.points += o.points;
        self.sim_ns += o.sim_ns;
        self.shrink_runs += o.shrink_runs;
        self.broken += o.broken;
        self.skipped += o.skipped;
        self.redone += o.redone;
        self.differing += o.differing;
        for (k, v) in o.fired {
            *self.fired.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.kinds {
            *self.kinds.entry(k).or_insert(0) += v;
        }
        self.schedules.extend(o.schedules);
        self.states.extend(o.states);
        self.crash_points.extend(o.crash_points);
        self.nontrivial.extend(o.nontrivial);
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s)
            }
        }
    }
}

#[derive(Default)]
pub struct Exec {
    pub st: Stats,
    /// What happened in every run of the current case, kept for replay files.
    pub log: Option<Vec<String>>,
    pub hash: u64,
}

impl Exec {
    pub fn run(&mut self, r: &Run, v: &Vfs, reg: &Registry) -> Res {
        let mut r = r.clone();
        if self.log.is_some() {
            r.trace = true;
        }
        let res = run::run(&r, v, reg);
        let s = &mut self.st;
        s.runs += 1;
        s.steps += res.steps;
        s.switches += res.switches;
        s.points += res.points;
        s.sim_ns += res.now;
        s.schedules.insert(res.sched_hash);
        self.hash = mix(self.hash ^ res.trace_hash);
        let pieces = r.stdin.iter().filter(|i| matches!(i, In::Bytes { .. })).count() as u64;
        if pieces > 0 {
            *s.fired.entry("stdin-pieces".into()).or_insert(0) += pieces;
        }
        let edits = r.stdin.iter().filter(|i| matches!(i, In::Edit { .. })).count() as u64;
        if edits > 0 {
            *s.fired.entry("edits-during-session".into()).or_insert(0) += edits;
        }
        for x in &res.recs {
            match x {
                Rec::Fired { what } => *s.fired.entry(what.clone()).or_insert(0) += 1,
                Rec::Req { .. } => s.requests += 1,
                Rec::Crashed => {
                    s.crashes += 1;
                    if r.crash.as_ref().map_or(false, |c| c.power.is_some()) {
                        s.power_losses += 1;
                        *s.fired.entry("power-loss".into()).or_insert(0) += 1;
                    } else {
                        *s.fired.entry("process-kill".into()).or_insert(0) += 1;
                    }
                }
                _ => {}
            }
        }
        let mut h = 0;
        for (p, c) in res.after.tree() {
            h = hash_bytes(h, p.as_bytes());
            h = hash_bytes(h, c.as_deref().unwrap_or(b"/"));
        }
        s.states.insert(h);
        if let Some(l) = &mut self.log {
            l.push(format!("run {:?} cwd={} faults={:?} crash={:?} net={:?}", r.argv, r.cwd, r.faults, r.crash, r.net));
            for x in &res.recs {
                let t = serde_json::to_string(x).unwrap_or_default();
                let mut t: String = t.chars().take(600).collect();
                if t.len() >= 600 {
                    t += "...";
                }
                l.push(t);
            }
            l.push(format!("end {:?} codes {:?} trace_hash {:x}", res.end, res.codes, res.trace_hash));
            for e in String::from_utf8_lossy(&res.err).lines().take(20) {
                l.push(format!("stderr: {}", e));
            }
        }
        if let End::Broken(m) = &res.end {
            if self.st.broken == 0 || self.log.is_some() {
                eprintln!("harness error: {} in {}", m, serde_json::to_string(&r).unwrap_or_default().chars().take(1500).collect::<String>());
                for x in res.recs.iter().rev().take(8).rev() {
                    eprintln!("  {}", serde_json::to_string(x).unwrap_or_default().chars().take(300).collect::<String>());
                }
                eprintln!("{}", String::from_utf8_lossy(&res.err).chars().take(2000).collect::<String>());
            }
            self.st.broken += 1;
        }
        res
    }
}
