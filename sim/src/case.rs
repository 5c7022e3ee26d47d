//! A case is a history of commands on a simulated machine, with edits, faults
//! and crashes, and what must hold of each command.
use crate::exec::Exec;
use crate::ls;
use crate::proj::*;
use crate::rng::Rng;
use crate::spec::*;
use crate::vfs::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Edit {
    pub path: String,
    #[serde(with = "crate::spec::opt_hex")]
    pub data: Option<Vec<u8>>,
    #[serde(default)]
    pub dir: bool,
    /// Mode bits to set (0: leave)
    #[serde(default)]
    pub mode: u32,
}
pub fn edit(path: &str, data: Option<&[u8]>) -> Edit {
    Edit { path: path.into(), data: data.map(|d| d.to_vec()), dir: false, mode: 0 }
}

/// A fault at a relative position among the points of one kind in a run.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sel {
    #[serde(default)]
    pub path: String,
    #[serde(default)]
    pub op: String,
    pub pos: f64,
    pub act: Act,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CrashSel {
    #[serde(default)]
    pub path: String,
    pub pos: f64,
    pub torn: u64,
    pub power: Option<u64>,
    #[serde(default)]
    pub one: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cmd {
    Build,
    Add { spec: String },
    New { name: String },
    Compile { doc: String, plugins: String, env: bool, level: u32, json: bool },
    Ls(ls::Session),
    /// A build and another build (or a language server session) at once.
    Two { ls: Option<ls::Session>, at: f64 },
    /// Any two commands at once.
    Race { a: Box<Cmd>, b: Box<Cmd>, at: f64 },
    /// Only the edits.
    Nothing,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Want {
    Any,
    Ok,
    Fail,
    IfOk,
    /// An addition that was attempted before: must succeed unless it is already complete.
    Again,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Stage {
    /// The user brings these projects to these states first.
    #[serde(default)]
    pub proj: Vec<Proj>,
    /// `proj` is what earlier commands must have made of them; nothing is edited.
    #[serde(default)]
    pub assume: bool,
    #[serde(default)]
    pub pre: Vec<Edit>,
    /// mtime of the edits, seconds
    #[serde(default)]
    pub mtime: u64,
    pub cwd: String,
    pub cmd: Cmd,
    pub want: Want,
    pub sched: Sched,
    #[serde(default)]
    pub clock: i64,
    #[serde(default)]
    pub net: Vec<NetRule>,
    #[serde(default)]
    pub sel: Vec<Sel>,
    #[serde(default)]
    pub crash: Option<CrashSel>,
    #[serde(default)]
    pub out: OutPlan,
    /// Only these modules may be fetched.
    #[serde(default)]
    pub fetch: Option<Vec<String>>,
    /// out/ holds nothing but the expected files
    #[serde(default)]
    pub exact: bool,
    /// May be left out when minimising.
    #[serde(default)]
    pub opt: bool,
    /// Edits made while the command runs, each so many microseconds after the one before.
    #[serde(default)]
    pub during: Vec<(u64, Edit)>,
    /// Registry entries that differ from what the plugins' names say.
    #[serde(default)]
    pub reg: BTreeMap<String, RegEntry>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum RegEntry {
    Missing,
    Broken(crate::plug::Broken),
    Bytes(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub kind: String,
    pub stages: Vec<Stage>,
    /// Same-session comparisons and the like are judged with this name.
    #[serde(default)]
    pub judge: String,
}

pub const HOME: &str = "/home/user";
pub const P: &str = "/home/user/p";
pub const T0: u64 = 1_890_000_000;

impl Stage {
    pub fn new(cwd: &str, cmd: Cmd, want: Want, sched: Sched) -> Stage {
        Stage {
            proj: vec![],
            assume: false,
            pre: vec![],
            mtime: T0,
            cwd: cwd.into(),
            cmd,
            want,
            sched,
            clock: 0,
            net: vec![],
            sel: vec![],
            crash: None,
            out: OutPlan::default(),
            fetch: None,
            exact: false,
            opt: false,
            during: vec![],
            reg: BTreeMap::new(),
        }
    }
    pub fn build(want: Want, sched: Sched) -> Stage {
        Stage::new(P, Cmd::Build, want, sched)
    }
    pub fn offline(mut self) -> Stage {
        self.net.push(NetRule { url: "".into(), nth: None, act: NetAct::DnsFail });
        self
    }
}

pub fn calm(seed: u64) -> Sched {
    Sched { seed, preempt: 0.0, workers: 1, short: 0.0, eintr: 0.0, hash_seed: seed, dir_seed: seed }
}
pub fn sched(r: &mut Rng) -> Sched {
    Sched {
        seed: r.u64() >> 12,
        preempt: *r.pick(&[0.0, 0.02, 0.1, 0.3, 0.6]),
        workers: r.range(1, 4),
        short: *r.pick(&[0.0, 0.0, 0.1, 0.5]),
        eintr: *r.pick(&[0.0, 0.0, 0.05, 0.3]),
        hash_seed: r.u64() >> 12,
        dir_seed: r.u64() >> 12,
    }
}

#[derive(Clone)]
pub struct State {
    pub vfs: Vfs,
    pub projs: BTreeMap<String, Proj>,
    pub seen: BTreeMap<String, crate::plug::Tag>,
    /// The last complete build: what of, and what it wrote.
    pub last: Option<(String, BTreeMap<String, Vec<u8>>)>,
}

pub type Verdict = Result<(), String>;

/// "class: details" -> "class"
pub fn class(v: &str) -> &str {
    v.split(':').next().unwrap_or(v)
}

impl Case {
    pub fn check(&self, ex: &mut Exec) -> Verdict {
        let mut st = State { vfs: Vfs::default(), projs: BTreeMap::new(), seen: BTreeMap::new(), last: None };
        st.vfs.mkdirs(HOME);
        st.vfs.mkdirs("/tmp");
        let mut outs: Vec<Vec<u8>> = vec![];
        for (i, s) in self.stages.iter().enumerate() {
            let (before, after) = s.apply(&mut st, ex, i, self, &mut outs).map_err(|e| {
                let (c, d) = e.split_once(':').unwrap_or((&e, ""));
                format!("{}: step {} ({}):{}", c, i, s.name(), d)
            })?;
            let _ = (before, after);
        }
        Ok(())
    }
}

impl Stage {
    pub fn name(&self) -> String {
        Self::named(&self.cmd)
    }
    fn named(cmd: &Cmd) -> String {
        match cmd {
            Cmd::Race { a, b, .. } => format!("{} and {}", Self::named(a), Self::named(b)),
            Cmd::Build => "brack build".into(),
            Cmd::Add { spec } => format!("brack add {}", spec),
            Cmd::New { name } => format!("brack new -n {:?}", name),
            Cmd::Compile { doc, .. } => format!("brack compile {}", doc),
            Cmd::Ls(_) => "brack language-server".into(),
            Cmd::Two { ls: None, .. } => "two brack builds".into(),
            Cmd::Two { .. } => "brack build and language server".into(),
            Cmd::Nothing => "edits".into(),
        }
    }
    pub fn edits(&self, st: &mut State) {
        let t = self.mtime * 1_000_000_000;
        for p in &self.proj {
            let old = st.projs.get(&p.dir).cloned();
            if !self.assume {
                p.sync(&mut st.vfs, old.as_ref(), t);
            }
            st.projs.insert(p.dir.clone(), p.clone());
            for m in &p.cfg.plugins {
                st.seen.insert(m.url(&p.cfg.backend), m.tag(&p.cfg.backend));
            }
        }
        if let Cmd::Ls(se) | Cmd::Two { ls: Some(se), .. } = &self.cmd {
            for c in se.configs() {
                for m in &c.plugins {
                    st.seen.insert(m.url(&c.backend), m.tag(&c.backend));
                }
            }
        }
        let specs: Vec<&String> = match &self.cmd {
            Cmd::Add { spec } => vec![spec],
            Cmd::Race { a, b, .. } => [a, b].iter().filter_map(|c| if let Cmd::Add { spec } = &***c { Some(spec) } else { None }).collect(),
            _ => vec![],
        };
        for spec in specs {
            let base: toml::Value = toml::Value::Table(Default::default());
            if let Some((_, m)) = add_model(&base, spec) {
                st.seen.insert(m.add_url(), m.add_tag());
                if let Some(p) = st.projs.get(&self.cwd) {
                    st.seen.insert(m.url(&p.cfg.backend), m.tag(&p.cfg.backend));
                }
            }
        }
        for e in &self.pre {
            if e.dir {
                st.vfs.mkdirs(&e.path);
            } else {
                for o in st.vfs.edit_ops(&e.path, e.data.as_deref(), t, true) {
                    st.vfs.apply(&o);
                }
            }
            if e.mode != 0 {
                if let Ok(ino) = st.vfs.lookup(ROOT, &e.path) {
                    st.vfs.apply(&FsOp::Chmod { ino, mode: e.mode });
                }
            }
        }
    }
    pub fn registry(&self, st: &State) -> Registry {
        let mut reg = Registry::new();
        for (u, t) in &st.seen {
            reg.insert(u.clone(), crate::plug::bytes(t));
        }
        for (u, e) in &self.reg {
            match e {
                RegEntry::Missing => {
                    reg.remove(u);
                }
                RegEntry::Broken(b) => {
                    if let Some(t) = st.seen.get(u) {
                        reg.insert(u.clone(), broken(t, *b));
                    }
                }
                RegEntry::Bytes(s) => {
                    reg.insert(u.clone(), s.clone().into_bytes());
                }
            }
        }
        reg
    }
    fn plan(&self, st: &State) -> Run {
        let stdin = self.during.iter().map(|(after, e)| In::Edit { path: e.path.clone(), data: e.data.clone(), after: *after, atomic: true, keep: false }).collect();
        let mut run = Run { stdin, cwd: self.cwd.clone(), sched: self.sched.clone(), net: self.net.clone(), clock: self.clock, out: self.out.clone(), ..Default::default() };
        let s = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        let cmds: Vec<&Cmd> = match &self.cmd {
            Cmd::Race { a, b, .. } => vec![a, b],
            c => vec![c],
        };
        for cmd in cmds {
            let a = match cmd {
            Cmd::Build | Cmd::Two { .. } | Cmd::Nothing | Cmd::Race { .. } => s(&["build"]),
            Cmd::Add { spec } => s(&["add", spec]),
            Cmd::New { name } => vec!["new".to_string(), "-n".to_string(), name.clone()],
            Cmd::Compile { doc, plugins, env, level, json } => {
                let mut v = s(&["compile", "-b", "html", "-f", doc]);
                if *env {
                    run.env.insert("BRACK_PLUGINS_PATH".into(), plugins.clone());
                } else {
                    v.extend(s(&["-p", plugins]));
                }
                if *level != 5 {
                    v.extend(s(&["--output-level", &level.to_string()]));
                }
                if *json {
                    v.push("--json".into());
                }
                v
            }
            Cmd::Ls(se) => {
                run.stdin = se.plan(st);
                s(&["language-server"])
            }
            };
            run.argv.push(a);
        }
        if let Cmd::Two { ls, .. } = &self.cmd {
            run.argv.push(s(&[if ls.is_some() { "language-server" } else { "build" }]));
            if let Some(se) = ls {
                run.stdin = se.plan(st);
            }
        }
        run
    }
    /// Turn relative fault and crash positions into points of this very run.
    fn place(&self, run: &mut Run, st: &State, reg: &Registry, ex: &mut Exec) {
        let two = matches!(self.cmd, Cmd::Two { .. } | Cmd::Race { .. });
        if self.sel.is_empty() && self.crash.is_none() && !two {
            return;
        }
        let mut dry = run.clone();
        dry.trace = true;
        dry.second_at = 0;
        let res = ex.run(&dry, &st.vfs, reg);
        let pts: Vec<(u64, &str, &str)> = res
            .recs
            .iter()
            .filter_map(|r| match r {
                Rec::Point { idx, op, path, .. } => Some((*idx, op.as_str(), path.as_str())),
                _ => None,
            })
            .collect();
        if let Cmd::Two { at, .. } | Cmd::Race { at, .. } = &self.cmd {
            let mine = res.recs.iter().filter(|r| matches!(r, Rec::Point { node: 0, .. })).count();
            run.second_at = (mine as f64 * at) as u64;
        }
        for s in &self.sel {
            let ok: Vec<u64> = pts
                .iter()
                .filter(|(_, op, p)| {
                    p.contains(&s.path)
                        && op.contains(&s.op)
                        && match s.act {
                            Act::Short(_) => *op == "read" || *op == "write",
                            Act::DiskFull(_) => *op == "write",
                            Act::Err(libc::ENOSPC) => matches!(*op, "write" | "mkdir" | "create" | "rename"),
                            _ => true,
                        }
                })
                .map(|(i, _, _)| *i)
                .collect();
            if !ok.is_empty() {
                let at = ok[((ok.len() as f64 * s.pos) as usize).min(ok.len() - 1)];
                run.faults.push(Fault { at, act: s.act.clone() });
            }
        }
        if let Some(c) = &self.crash {
            let ok: Vec<u64> = pts.iter().filter(|(_, _, p)| p.contains(&c.path)).map(|(i, _, _)| *i).collect();
            let k = (ok.len() as f64 * c.pos) as usize;
            let at = ok.get(k).copied().unwrap_or(res.points);
            if let Some((_, op, p)) = pts.iter().find(|(i, _, _)| *i == at) {
                let f = p.rsplit('/').next().unwrap_or("");
                ex.st.crash_points.insert(crate::rng::hash_bytes(c.torn.min(1) + 2 * c.power.is_some() as u64, format!("{} {} {} {}", self.name(), op, f, at).as_bytes()));
            }
            run.crash = Some(Crash { at, torn: c.torn, power: c.power, one: c.one });
        }
    }

    fn apply(&self, st: &mut State, ex: &mut Exec, i: usize, case: &Case, outs: &mut Vec<Vec<u8>>) -> Result<(Vfs, Vfs), String> {
        self.edits(st);
        let before = st.vfs.clone();
        if self.cmd == Cmd::Nothing {
            outs.push(vec![]);
            return Ok((before.clone(), before));
        }
        let reg = self.registry(st);
        let mut run = self.plan(st);
        self.place(&mut run, st, &reg, ex);
        let res = ex.run(&run, &st.vfs, &reg);
        outs.push(res.out[0].clone());
        // a file whose mode was cleared for one stage only
        let mut after = res.after.clone();
        for e in &self.pre {
            if e.mode != 0 {
                if let Ok(ino) = after.lookup(ROOT, &e.path) {
                    after.apply(&FsOp::Chmod { ino, mode: 0o644 });
                }
            }
        }
        if let End::Broken(m) = &res.end {
            return Err(format!("harness: {}", m));
        }
        let entry = State { vfs: before.clone(), projs: st.projs.clone(), seen: st.seen.clone(), last: st.last.clone() };
        let mut entry = entry;
        for (_, e) in &self.during {
            for o in entry.vfs.edit_ops(&e.path, e.data.as_deref(), self.mtime * 1_000_000_000, true) {
                entry.vfs.apply(&o);
            }
        }
        let v = self.judge(&entry, &res, i, case, outs);
        st.vfs = after.clone();
        v?;
        if let (Cmd::Build, true, "B01", Some(p)) = (&self.cmd, res.codes[0] == Some(0), case.prop.as_str(), st.projs.get(&self.cwd)) {
            let out = p.expected().unwrap_or_default().into_keys().filter_map(|f| after.read(&f).map(|b| (f.clone(), b.to_vec()))).collect();
            st.last = Some((p.content(), out));
        }
        Ok((before, after))
    }

    fn judge(&self, st: &State, res: &Res, i: usize, case: &Case, outs: &[Vec<u8>]) -> Verdict {
        // a process must never die of a signal, and never hang
        match &res.end {
            End::Signal(s) if self.want != Want::Any || self.crash.is_none() => return Err(format!("died: the process was ended by signal {}{}", s, errs(res))),
            End::Hung(w) => return Err(format!("hung: {}{}", w, errs(res))),
            _ => {}
        }
        if case.prop == "B04" {
            self.writes(st, res)?;
        }
        let code = match res.end {
            End::Exit(c) => Some(c),
            _ => None,
        };
        let ok = code == Some(0);
        // one of two processes was killed
        let killed = |n: usize| self.crash.as_ref().map_or(false, |c| c.one) && res.codes[n] == Some(137);
        if let Some(c) = code.filter(|_| !killed(0)) {
            if self.want == Want::Ok && c != 0 {
                return Err(format!("failed: exit code {}{}", c, errs(res)));
            }
            if self.want == Want::Again && c != 0 {
                let name = match &self.cmd {
                    Cmd::Add { spec } => spec.split(&['/', '@'][..]).nth(1).unwrap_or("").split('.').next().unwrap_or("").to_string(),
                    _ => String::new(),
                };
                let had = st.vfs.read(&format!("{}/Brack.toml", self.cwd)).and_then(|b| std::str::from_utf8(b).ok()).and_then(|t| t.parse::<toml::Value>().ok()).map_or(false, |t| t.get("plugins").and_then(|p| p.get(&name)).is_some());
                if !had {
                    return Err(format!("failed: exit code {} when repeated without disturbance{}", c, errs(res)));
                }
            }
            if self.want == Want::Fail && c == 0 {
                return Err(format!("succeeded: exit code 0 although it could not have succeeded{}", errs(res)));
            }
        }
        match &self.cmd {
            Cmd::Build => {
                let p = match st.projs.get(&self.cwd) {
                    Some(p) => p,
                    None => return Ok(()),
                };
                if ok && matches!(self.want, Want::Ok | Want::IfOk) {
                    match p.expected() {
                        Err(e) => return Err(format!("built-wrong: exit code 0, but {}", e)),
                        Ok(_) => p.check_out(&res.after).map_err(|e| format!("output: {}", e))?,
                    }
                    if let Some((_, out)) = st.last.as_ref().filter(|l| l.0 == p.content()) {
                        for (f, b) in out {
                            let now = res.after.read(f).unwrap_or_default();
                            if now != &b[..] {
                                return Err(format!("repeat: {} is now {:?}, and was {:?} after a build of the same project", f, short(now), short(b)));
                            }
                        }
                    }
                    if self.exact {
                        p.check_exact(&res.after).map_err(|e| format!("output: {}", e))?;
                    }
                }
                if ok && case.prop == "P02" && matches!(self.want, Want::Ok | Want::IfOk) {
                    // a success without one of the plugins is none
                    let dir = format!("{}/plugins/", self.cwd);
                    let have: BTreeSet<Vec<u8>> = res.after.tree().into_iter().filter(|(f, _)| f.starts_with(&dir)).filter_map(|(_, c)| c).collect();
                    for m in &p.cfg.plugins {
                        if !have.contains(&crate::plug::bytes(&m.tag(&p.cfg.backend))) {
                            return Err(format!("plugin: exit code 0, but the plugin {} was not stored", m.name));
                        }
                    }
                }
                if let Some(f) = &self.fetch {
                    let allowed: BTreeSet<String> = p.cfg.plugins.iter().filter(|m| f.contains(&m.name)).map(|m| m.url(&p.cfg.backend)).collect();
                    for r in &res.recs {
                        if let Rec::Req { url, .. } = r {
                            if url.starts_with("github.com") && !allowed.contains(url) {
                                return Err(format!("refetch: {} was fetched again although its specification did not change", url));
                            }
                        }
                    }
                }
                Ok(())
            }
            Cmd::Two { ls, .. } => {
                let p = &st.projs[&self.cwd];
                if self.want == Want::Ok {
                    for (n, c) in res.codes.iter().enumerate() {
                        if *c != Some(0) && !killed(n) {
                            return Err(format!("failed: process {} ended with {:?}{}", n, c, errs(res)));
                        }
                    }
                }
                let any = res.codes[0] == Some(0) || (ls.is_none() && res.codes[1] == Some(0));
                // a killed one may have been writing what the other had written
                if any && self.want != Want::Any && !(ls.is_none() && (killed(0) || killed(1))) {
                    p.check_out(&res.after).map_err(|e| format!("output: {}", e))?;
                }
                if let (Some(se), Some(0), true) = (ls, res.codes[1], self.want != Want::Any) {
                    se.judge(st, res, 1, self, case)?;
                }
                Ok(())
            }
            Cmd::Race { a, b, .. } => self.judge_race(a, b, st, res),
            Cmd::Add { spec } => self.judge_add(spec, st, res, ok),
            Cmd::New { name } => self.judge_new(name, st, res, ok),
            Cmd::Compile { doc, level, json, .. } => {
                let (a, b) = (unnamed(&outs[0]), unnamed(&outs[i]));
                if case.judge == "same" && i > 0 && a != b && ok {
                    return Err(format!("output: differs from the undisturbed run: {:?} and {:?}", short(&a), short(&b)));
                }
                if !ok || self.want == Want::Any || self.want == Want::Fail {
                    return Ok(());
                }
                let p = st.projs.values().next().ok_or("harness: no project")?;
                let d = p.docs.get(doc.rsplit('/').next().unwrap().trim_end_matches(".[]")).ok_or("harness: no document")?;
                let mut env = p.cfg.env();
                env.hooks = Default::default();
                if *level != 5 {
                    if let (4, true) = (*level, d.is_bad()) {
                        return Err("built-wrong: exit code 0, but malformed".into());
                    }
                    return crate::levels::check(*level, *json, &res.out[0], d, &env).map_err(|e| format!("output: at level {}: {}", level, e));
                }
                match env.compile(d) {
                    Err(e) => Err(format!("built-wrong: exit code 0, but {}", e)),
                    Ok(s) => {
                        let want = format!("{}\n", s).into_bytes();
                        if crate::doc::uncounted(&res.out[0]) != want {
                            return Err(format!("output: printed {:?}, expected {:?}", short(&res.out[0]), short(&want)));
                        }
                        Ok(())
                    }
                }
            }
            Cmd::Ls(se) => {
                if case.judge == "same" && i > 0 && self.want == Want::Ok {
                    let (a, b) = (se.canonical(&outs[0])?, se.canonical(&outs[i])?);
                    if a != b {
                        let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
                        return Err(format!("chunking: reply {} is {:?} with one delivery and {:?} with another", k, a.get(k).map(|x| short(x.as_bytes())), b.get(k).map(|x| short(x.as_bytes()))));
                    }
                }
                se.judge(st, res, 0, self, case)
            }
            Cmd::Nothing => Ok(()),
        }
    }

    /// Commands that may come in any order, or in between each other.
    fn judge_race(&self, a: &Cmd, b: &Cmd, st: &State, res: &Res) -> Verdict {
        let done: Vec<bool> = res.codes.iter().map(|c| *c == Some(0)).collect();
        let news: Vec<&String> = [a, b].iter().filter_map(|c| if let Cmd::New { name } = c { Some(name) } else { None }).collect();
        if let [n, m] = news[..] {
            if n == m && done[0] && done[1] {
                return Err(format!("overwrote: two processes created {:?}", n));
            }
            for (k, n) in [n, m].iter().enumerate() {
                if done[k] || k == 0 {
                    self.judge_new(n, st, res, done[k])?;
                }
                if n != &m && !done[k] && self.want == Want::Ok {
                    return Err(format!("failed: process {} ended with {:?}{}", k, res.codes[k], errs(res)));
                }
            }
            if self.want == Want::Ok && !done[0] && !done[1] {
                return Err(format!("failed: both ended with {:?}{}", res.codes, errs(res)));
            }
            return Ok(());
        }
        let tp = format!("{}/Brack.toml", self.cwd);
        let parse = |b: Option<&[u8]>| -> Option<toml::Value> { std::str::from_utf8(b?).ok()?.parse::<toml::Value>().ok() };
        let old = parse(st.vfs.read(&tp)).ok_or("harness: no configuration")?;
        let new = match parse(res.after.read(&tp)) {
            Some(n) => norm(&n),
            None => return Err(format!("config: Brack.toml is damaged: {:?}", res.after.read(&tp).map(short))),
        };
        // what it may be: each addition there or not
        let mut may = vec![(old, vec![])];
        for (k, c) in [a, b].iter().enumerate() {
            if let Cmd::Add { spec } = c {
                for (o, ks) in may.clone() {
                    if let Some((n, _)) = add_model(&o, spec) {
                        let mut ks: Vec<usize> = ks.clone();
                        ks.push(k);
                        may.push((n, ks));
                    }
                }
            }
        }
        let is = match may.into_iter().find(|(v, _)| norm(v) == new) {
            Some((_, ks)) => ks,
            None => return Err(format!("config: Brack.toml is neither as it was nor complete: {:?}", res.after.read(&tp).map(short))),
        };
        let added = (0..2).filter(|k| done[*k] && matches!([a, b][*k], Cmd::Add { .. })).count();
        if added > 0 && is.is_empty() {
            return Err("config: exit code 0, but nothing was added".into());
        }
        for (k, c) in [a, b].iter().enumerate() {
            if let (Cmd::Add { spec }, true) = (c, is.contains(&k)) {
                if let Some((_, m)) = add_model(&toml::Value::Table(Default::default()), spec) {
                    let file = format!("{}/plugins/{}.wasm", self.cwd, m.repo);
                    if let Some(t) = st.seen.get(&m.add_url()) {
                        // of two of the same name either
                        let other = [a, b].iter().any(|d| matches!(d, Cmd::Add { spec: s } if s != spec && add_model(&toml::Value::Table(Default::default()), s).map_or(false, |(_, n)| n.repo == m.repo)));
                        if !other && res.after.read(&file) != Some(&crate::plug::bytes(t)[..]) {
                            return Err(format!("plugin: {} does not hold the served bytes ({:?} bytes)", file, res.after.read(&file).map(|b| b.len())));
                        }
                    }
                }
            }
            if self.want == Want::Ok && !done[k] {
                return Err(format!("failed: {} ended with {:?}{}", Self::named(c), res.codes[k], errs(res)));
            }
            if matches!(c, Cmd::Build) && done[k] {
                st.projs[&self.cwd].check_out(&res.after).map_err(|e| format!("output: {}", e))?;
            }
        }
        Ok(())
    }

    fn judge_add(&self, spec: &str, st: &State, res: &Res, ok: bool) -> Verdict {
        let tp = format!("{}/Brack.toml", self.cwd);
        let old = st.vfs.read(&tp);
        let new = res.after.read(&tp);
        let parse = |b: &[u8]| -> Option<toml::Value> { std::str::from_utf8(b).ok()?.parse::<toml::Value>().ok() };
        let want = old.and_then(parse).and_then(|o| add_model(&o, spec));
        let complete = match (new.and_then(parse), &want) {
            (None, _) if old.is_none() => false,
            (Some(n), Some((w, _))) => norm(&n) == norm(w),
            _ => false,
        };
        if old != new && !complete {
            return Err(format!("config: Brack.toml is neither as it was nor complete: {:?}", new.map(short)));
        }
        if ok && !complete && self.want != Want::Any {
            return Err(format!("config: exit code 0, but Brack.toml is {:?}", new.map(short)));
        }
        // a plugin that is recorded was stored before
        let stored = old != new && !matches!(&self.crash, Some(c) if c.power.is_some());
        if (ok && self.want != Want::Any) || stored {
            if let Some((_, m)) = &want {
                let file = format!("{}/plugins/{}.wasm", self.cwd, m.repo);
                let url = m.add_url();
                if let Some(t) = st.seen.get(&url) {
                    if res.after.read(&file) != Some(&crate::plug::bytes(t)[..]) && !self.reg.contains_key(&url) {
                        return Err(format!("plugin: {} does not hold the served bytes ({:?} bytes)", file, res.after.read(&file).map(|b| b.len())));
                    }
                }
            }
        }
        if self.want == Want::Fail {
            // nothing may have changed
            let files = |v: &Vfs| v.tree().into_iter().filter(|(_, c)| c.is_some()).collect::<BTreeMap<_, _>>();
            if let Some(d) = tree_diff(&files(&st.vfs), &files(&res.after)) {
                return Err(format!("changed: a failed command changed {}", d));
            }
        }
        Ok(())
    }

    fn judge_new(&self, name: &str, st: &State, res: &Res, ok: bool) -> Verdict {
        let root = if name.starts_with('/') { name.to_string() } else { format!("{}/{}", self.cwd, name) };
        // no file that was there may change
        for (p, c) in st.vfs.tree() {
            if let Some(c) = c {
                if res.after.read(&p) != Some(&c[..]) {
                    return Err(format!("overwrote: {} existed and was changed to {:?}", p, res.after.read(&p).map(short)));
                }
            }
        }
        if ok && self.want != Want::Any {
            if st.vfs.exists(&root) {
                return Err(format!("overwrote: exit code 0 although {} existed", root));
            }
            let get = |p: &str| res.after.read(&format!("{}/{}", root, p)).map(|b| String::from_utf8_lossy(b).to_string());
            if get("docs/main.[]").is_none() {
                return Err("incomplete: docs/main.[] is missing".into());
            }
            match get(".gitignore") {
                Some(g) if ["plugins", "out"].iter().all(|w| g.lines().any(|l| l.trim().trim_matches('/') == *w)) => {}
                g => return Err(format!("incomplete: .gitignore is {:?}", g)),
            }
            let t = get("Brack.toml").unwrap_or_default();
            match toml::from_str::<brack_project_manager::config::Config>(&t) {
                Err(e) => return Err(format!("incomplete: Brack.toml does not load: {} in {:?}", e, t)),
                Ok(c) => {
                    if c.document.name != name {
                        return Err(format!("incomplete: Brack.toml has the name {:?}", c.document.name));
                    }
                    if c.document.authors.is_empty() || c.document.version.is_empty() {
                        return Err(format!("incomplete: Brack.toml is {:?}", t));
                    }
                }
            }
        }
        Ok(())
    }

    /// Every change any simulated process made lies where it may.
    fn writes(&self, st: &State, res: &Res) -> Verdict {
        let mut v = st.vfs.clone();
        let mut fresh: BTreeSet<Ino> = BTreeSet::new();
        for r in &res.recs {
            if let Rec::Fs { node, op } = r {
                let at = |d: Ino, n: &str| v.path_of(d).map(|p| format!("{}/{}", p.trim_end_matches('/'), n)).unwrap_or_else(|| n.to_string());
                let paths: Vec<(String, Option<Ino>)> = match op {
                    FsOp::Create { dir, name, ino, .. } | FsOp::Mkdir { dir, name, ino, .. } => {
                        fresh.insert(*ino);
                        vec![(at(*dir, name), Some(*ino))]
                    }
                    FsOp::Write { ino, .. } | FsOp::Trunc { ino, .. } | FsOp::Utime { ino, .. } | FsOp::Chmod { ino, .. } => vec![(v.path_of(*ino).unwrap_or_default(), Some(*ino))],
                    FsOp::Unlink { dir, name } | FsOp::Rmdir { dir, name } => vec![(at(*dir, name), v.dir(*dir).and_then(|e| e.get(name)).copied())],
                    FsOp::Rename { dir, name, dir2, name2 } => vec![
                        (at(*dir, name), v.dir(*dir).and_then(|e| e.get(name)).copied()),
                        (at(*dir2, name2), v.dir(*dir2).and_then(|e| e.get(name2)).copied()),
                    ],
                    FsOp::Link { dir, name, .. } => vec![(at(*dir, name), None)],
                    FsOp::Fsync { .. } => vec![],
                };
                if *node >= 0 {
                    for (p, ino) in paths {
                        if !p.is_empty() && !self.may_write(st, &p, ino.map_or(false, |i| fresh.contains(&i)) || !v.exists(&p)) {
                            return Err(format!("wrote: {}", p));
                        }
                    }
                }
                v.apply(op);
            }
        }
        // what others have put into these directories stays
        for (d, p) in &st.projs {
            for e in p.extra.keys().filter(|e| e.starts_with("plugins/") || e.starts_with("out/")) {
                let f = format!("{}/{}", d, e);
                let added = matches!(&self.cmd, Cmd::Add { .. }) && e.starts_with("plugins/");
                if st.vfs.read(&f).is_some() && !added && res.after.read(&f) != st.vfs.read(&f) {
                    return Err(format!("wrote: {}, which is not its own, from {:?} to {:?}", f, st.vfs.read(&f).map(short), res.after.read(&f).map(short)));
                }
            }
        }
        Ok(())
    }
    fn may_write(&self, st: &State, p: &str, fresh: bool) -> bool {
        let under = |d: &str, s: &str| p == format!("{}/{}", d, s) || p.starts_with(&format!("{}/{}/", d, s));
        match &self.cmd {
            Cmd::Build => under(&self.cwd, "out") || under(&self.cwd, "plugins"),
            Cmd::Two { ls: None, .. } => under(&self.cwd, "out") || under(&self.cwd, "plugins"),
            Cmd::Two { .. } => under(&self.cwd, "out") || st.projs.keys().any(|d| under(d, "plugins")),
            Cmd::Ls(_) => st.projs.keys().any(|d| under(d, "plugins")),
            Cmd::Compile { .. } => false,
            Cmd::Add { .. } => {
                under(&self.cwd, "plugins") || p == format!("{}/Brack.toml", self.cwd) || (fresh && p.rsplit_once('/').map_or(false, |(d, n)| d == self.cwd && n != "docs" && n != "out"))
            }
            _ => true,
        }
    }
}

pub fn errs(res: &Res) -> String {
    let e = String::from_utf8_lossy(&res.err);
    let l: Vec<&str> = e.lines().filter(|l| !l.trim().is_empty()).take(6).collect();
    if l.is_empty() {
        String::new()
    } else {
        format!(" [stderr: {}]", short(l.join(" / ").as_bytes()))
    }
}
pub fn tree_diff(a: &BTreeMap<String, Option<Vec<u8>>>, b: &BTreeMap<String, Option<Vec<u8>>>) -> Option<String> {
    for (p, c) in a {
        match b.get(p) {
            None => return Some(format!("{} (removed)", p)),
            Some(d) if d != c => return Some(format!("{} (to {:?})", p, d.as_ref().map(|x| short(x)))),
            _ => {}
        }
    }
    b.keys().find(|p| !a.contains_key(*p)).map(|p| format!("{} (created)", p))
}
/// An absent plugins table and an empty one are the same.
fn norm(v: &toml::Value) -> toml::Value {
    let mut v = v.clone();
    if let Some(t) = v.as_table_mut() {
        if t.get("plugins").map_or(false, |p| p.as_table().map_or(false, |p| p.is_empty())) {
            t.remove("plugins");
        }
    }
    v
}
/// What `brack add` of a well-formed specification makes of a configuration.
pub fn add_model(old: &toml::Value, spec: &str) -> Option<(toml::Value, PCfg)> {
    let (kind, rest) = spec.split_once(':')?;
    let (path, version) = rest.split_once('@')?;
    let (owner, repo) = path.split_once('/')?;
    if kind != "github" || owner.is_empty() || repo.is_empty() || version.is_empty() || repo.contains('/') || version.contains('@') || rest.contains(':') {
        return None;
    }
    let name = repo.split('.').next().unwrap().to_string();
    let mut new = old.clone();
    let t = new.as_table_mut()?;
    let pl = t.entry("plugins").or_insert(toml::Value::Table(Default::default())).as_table_mut()?;
    if pl.contains_key(&name) {
        return None;
    }
    let mut e = toml::value::Table::new();
    for (k, v) in [("schema", "github"), ("owner", owner), ("repo", repo), ("version", version)] {
        e.insert(k.into(), toml::Value::String(v.into()));
    }
    pl.insert(name.clone(), toml::Value::Table(e));
    Some((new, PCfg { name, owner: owner.into(), repo: repo.into(), version: version.into(), hooks: [None; 4] }))
}
impl PCfg {
    pub fn add_tag(&self) -> crate::plug::Tag {
        crate::plug::Tag::of(&self.owner, &self.repo, &self.version, &self.repo)
    }
    pub fn add_url(&self) -> String {
        format!("github.com/{}/{}/releases/download/{}/{}.wasm", self.owner, self.repo, self.version, self.repo)
    }
}

// ---- minimisation -----------------------------------------------------------

impl Case {
    /// Simpler cases, most aggressive first. Only changes that keep the meaning of
    /// what each stage must do.
    pub fn shrinks(&self) -> Vec<Case> {
        let mut o = vec![];
        let n = self.stages.len();
        for i in (0..n).rev() {
            if self.stages[i].opt {
                let mut c = self.clone();
                let s = c.stages.remove(i);
                // keep the edits it made
                if i < c.stages.len() {
                    for p in s.proj {
                        if !c.stages[i].proj.iter().any(|q| q.dir == p.dir) {
                            c.stages[i].proj.push(p);
                        }
                    }
                }
                o.push(c);
            }
        }
        macro_rules! st {
            ($i:expr, $c:expr, $f:expr) => {{
                let mut c: Case = self.clone();
                let f: &dyn Fn(&mut Stage) = &$f;
                f(&mut c.stages[$i]);
                if c != *self {
                    o.push(c);
                }
            }};
        }
        for i in 0..n {
            let s = &self.stages[i];
            let loose = matches!(s.want, Want::Ok | Want::IfOk | Want::Any);
            if loose {
                for k in 0..s.net.len() {
                    if s.net[k].url.is_empty() {
                        continue;
                    }
                    st!(i, c, |x: &mut Stage| {
                        x.net.remove(k);
                    });
                }
                for k in 0..s.sel.len() {
                    st!(i, c, |x: &mut Stage| {
                        x.sel.remove(k);
                    });
                }
                for k in 0..s.during.len() {
                    if s.want != Want::Any {
                        st!(i, c, |x: &mut Stage| {
                            x.during.remove(k);
                        });
                    }
                }
                if s.crash.is_some() {
                    st!(i, c, |x: &mut Stage| x.crash = None);
                }
                if s.out != OutPlan::default() {
                    st!(i, c, |x: &mut Stage| x.out = OutPlan::default());
                }
            }
            st!(i, c, |x: &mut Stage| {
                x.sched.preempt = 0.0;
                x.sched.short = 0.0;
                x.sched.eintr = 0.0;
                x.sched.workers = 1;
            });
            st!(i, c, |x: &mut Stage| x.sched.preempt = 0.0);
            st!(i, c, |x: &mut Stage| x.sched.short = 0.0);
            st!(i, c, |x: &mut Stage| x.sched.eintr = 0.0);
            st!(i, c, |x: &mut Stage| x.clock = 0);
            match &s.cmd {
                Cmd::Ls(se) => {
                    for k in se.shrinks() {
                        st!(i, c, |x: &mut Stage| x.cmd = Cmd::Ls(k.clone()));
                    }
                }
                Cmd::Two { ls: Some(se), at } => {
                    for k in se.shrinks() {
                        st!(i, c, |x: &mut Stage| x.cmd = Cmd::Two { ls: Some(k.clone()), at: *at });
                    }
                }
                _ => {}
            }
        }
        // documents, in every state of the project at once
        let mut stems: BTreeSet<(String, String)> = BTreeSet::new();
        for s in &self.stages {
            for p in &s.proj {
                for d in p.docs.keys() {
                    stems.insert((p.dir.clone(), d.clone()));
                }
            }
        }
        let keep = |dir: &str, stem: &str| {
            self.stages.iter().any(|s| {
                s.pre.iter().any(|e| e.path.contains(&format!("{}/docs/{}.", dir, stem)) || e.path.contains(&format!("{}/out/{}.", dir, stem)))
                    || matches!(&s.cmd, Cmd::Compile { doc, .. } if doc.ends_with(&format!("/{}.[]", stem)))
                    || matches!(&s.cmd, Cmd::Ls(_) | Cmd::Two { ls: Some(_), .. })
            })
        };
        let fails = self.stages.iter().any(|s| s.want == Want::Fail);
        for (dir, stem) in &stems {
            if !keep(dir, stem) && !fails {
                let mut c = self.clone();
                for s in c.stages.iter_mut() {
                    for p in s.proj.iter_mut().filter(|p| p.dir == *dir) {
                        p.docs.remove(stem);
                    }
                }
                o.push(c);
            }
        }
        for i in 0..n {
            for (j, p) in self.stages[i].proj.iter().enumerate() {
                for e in p.extra.keys() {
                    let mut c = self.clone();
                    c.stages[i].proj[j].extra.remove(e);
                    o.push(c);
                }
                if !fails && !self.stages.iter().any(|s| matches!(&s.cmd, Cmd::Ls(_))) {
                    for (stem, d) in &p.docs {
                        for d2 in d.shrink() {
                            let mut c = self.clone();
                            c.stages[i].proj[j].docs.insert(stem.clone(), d2);
                            o.push(c);
                        }
                    }
                }
            }
        }
        o
    }
    pub fn minimise(&self, ex: &mut Exec, why: &str, seconds: f64) -> (Case, String) {
        let t0 = crate::raw::real_secs();
        let mut best = self.clone();
        let mut msg = why.to_string();
        'outer: loop {
            for c in best.shrinks() {
                if crate::raw::real_secs() - t0 > seconds {
                    break 'outer;
                }
                ex.st.shrink_runs += 1;
                if let Err(e) = c.check(ex) {
                    if class(&e) == class(why) {
                        best = c;
                        msg = e;
                        continue 'outer;
                    }
                }
            }
            break;
        }
        (best, msg)
    }
}

/// The text with every random identifier (UUID) replaced by the order of its first use.
pub fn unnamed(b: &[u8]) -> Vec<u8> {
    let uuid = |w: &[u8]| w.len() == 36 && w.iter().enumerate().all(|(i, c)| if [8, 13, 18, 23].contains(&i) { *c == b'-' } else { c.is_ascii_hexdigit() });
    let mut seen: Vec<&[u8]> = vec![];
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if i + 36 <= b.len() && uuid(&b[i..i + 36]) {
            let w = &b[i..i + 36];
            let k = seen.iter().position(|s| *s == w).unwrap_or_else(|| {
                seen.push(w);
                seen.len() - 1
            });
            out.extend_from_slice(format!("#{}", k).as_bytes());
            i += 36;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}
