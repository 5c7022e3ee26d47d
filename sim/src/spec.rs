//! What one simulated command (or pair of commands) is given, and what it reports.
use crate::vfs::{hex, FsOp, Vfs};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum In {
    /// Bytes become readable `after` microseconds after the previous event.
    Bytes {
        #[serde(with = "hex")]
        data: Vec<u8>,
        after: u64,
    },
    /// Wait until the process can do nothing more without input; record a marker.
    Settle,
    /// Stdin stays open, without data, until the process ends by itself.
    Hold,
    /// The user's editor changes a file (None deletes).
    Edit {
        path: String,
        #[serde(with = "opt_hex")]
        data: Option<Vec<u8>>,
        after: u64,
        atomic: bool,
        /// the time of change stays
        #[serde(default)]
        keep: bool,
    },
}

pub mod opt_hex {
    use serde::{Deserialize, Deserializer, Serialize, Serializer};
    #[derive(Serialize, Deserialize)]
    struct H(#[serde(with = "super::hex")] Vec<u8>);
    pub fn serialize<S: Serializer>(b: &Option<Vec<u8>>, s: S) -> Result<S::Ok, S::Error> {
        b.as_ref().map(|x| H(x.clone())).serialize(s)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Option<Vec<u8>>, D::Error> {
        Ok(Option::<H>::deserialize(d)?.map(|h| h.0))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Act {
    /// The call fails with this errno.
    Err(i32),
    /// A read or write moves at most this many bytes.
    Short(usize),
    /// The write moves this many bytes and every later write to a file fails with ENOSPC.
    DiskFull(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub at: u64,
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Crash {
    pub at: u64,
    /// If the operation is a write, this many bytes of it were done (per mille).
    pub torn: u64,
    /// Power loss (with this seed) instead of a process kill.
    pub power: Option<u64>,
    /// Only the process that gets there is killed.
    #[serde(default)]
    pub one: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Sched {
    pub seed: u64,
    pub preempt: f64,
    pub workers: usize,
    /// Probability that one read/write is short / interrupted.
    pub short: f64,
    pub eintr: f64,
    pub hash_seed: u64,
    pub dir_seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum NetAct {
    DnsFail,
    Refuse,
    /// Garbage instead of a TLS handshake.
    BadTls,
    /// Certificate of an unknown authority.
    BadCert,
    ResetHandshake,
    Status(u16),
    /// After this many body bytes: 0 clean close, 1 abrupt FIN, 2 reset.
    Cut(u64, u8),
    /// Never answers beyond this many body bytes.
    Stall(u64),
    /// Never answers: 0 the connection, 1 the handshake, 2 the request.
    Silent(u8),
    /// Answers after this many microseconds.
    Delay(u64),
    /// The body comes in this many parts more than one, with so many microseconds between them.
    Slow(u64, u64),
    Redirect(u8),
    Chunked,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NetRule {
    /// Substring of "host/path"; DNS and connection faults match on the host only.
    pub url: String,
    /// Nth matching request (or connection) in this run; None: all.
    pub nth: Option<u64>,
    pub act: NetAct,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct OutPlan {
    /// After this many bytes, writes fail with this errno.
    pub limit: Option<(u64, i32)>,
    /// A write may block for up to this long (microseconds).
    pub stall: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Run {
    /// One argv (without program name) per process; the second starts later.
    pub argv: Vec<Vec<String>>,
    #[serde(default)]
    pub second_at: u64,
    pub env: BTreeMap<String, String>,
    pub cwd: String,
    pub stdin: Vec<In>,
    #[serde(default)]
    pub out: OutPlan,
    #[serde(default)]
    pub faults: Vec<Fault>,
    #[serde(default)]
    pub crash: Option<Crash>,
    pub sched: Sched,
    #[serde(default)]
    pub net: Vec<NetRule>,
    /// Clock at start, seconds relative to the epoch of the simulation.
    #[serde(default)]
    pub clock: i64,
    #[serde(default)]
    pub trace: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rec {
    Fs { node: i32, op: FsOp },
    Out {
        node: i32,
        fd: i32,
        #[serde(with = "hex")]
        data: Vec<u8>,
        t: u64,
    },
    /// Quiescent point `n` of the stdin plan reached.
    Settled { n: usize, t: u64 },
    /// stdin event `n` happened (edit applied / bytes readable)
    Did { n: usize, t: u64 },
    Fired { what: String },
    Point { idx: u64, node: i32, op: String, path: String, n: usize },
    Req { n: u64, url: String, status: u16, complete: bool },
    Exit { node: i32, code: i32 },
    Hung { why: String },
    Crashed,
    End { steps: u64, now: u64, switches: u64, sched_hash: u64, points: u64, trace_hash: u64 },
    Bug { msg: String },
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Hung(String),
    Crashed,
    Signal(i32),
    /// Harness problem.
    Broken(String),
}

#[derive(Clone, Debug)]
pub struct Res {
    pub recs: Vec<Rec>,
    pub end: End,
    /// Exit code per node, if it exited.
    pub codes: Vec<Option<i32>>,
    pub out: Vec<Vec<u8>>,
    pub err: Vec<u8>,
    pub before: Vfs,
    pub after: Vfs,
    pub steps: u64,
    pub now: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub points: u64,
    pub trace_hash: u64,
}

/// url ("host/path") -> body
pub type Registry = BTreeMap<String, Vec<u8>>;
