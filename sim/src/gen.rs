//! What is explored for each property: seeded generators of cases.
use crate::case::*;
use crate::doc::{Bad, Doc, DocGen, Env, Item};
use crate::ls::{self, BadMsg, Content, Cut, Ev, Session, What};
use crate::plug::Broken;
use crate::proj::*;
use crate::rng::{mix, Rng};
use crate::spec::*;
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub const IDS: [&str; 23] = ["S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "P01", "P02", "P03", "P04", "P05", "P06", "P07", "B01", "B02", "B03", "B04", "B05", "B06", "C01", "C02"];

pub fn gen(prop: &str, seed: u64) -> Case {
    let mut h = 0;
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    let mut g = G { r: Rng::new(mix(seed) ^ h) };
    let (kind, stages, judge) = match prop {
        "S01" => g.s01(),
        "S02" => g.s02(),
        "S03" => g.s03(),
        "S04" => g.s04(),
        "S05" => g.s05(),
        "S06" => g.s06(),
        "S07" => g.s07(),
        "S08" => g.s08(),
        "P01" => g.p01(),
        "P02" => g.p02(),
        "P03" => g.p03(),
        "P04" => g.p04(),
        "P05" => g.p05(),
        "P06" => g.p06(),
        "P07" => g.p07(),
        "B01" => g.b01(),
        "B02" => g.b02(),
        "B03" => g.b03(),
        "B04" => g.b04(),
        "B05" => g.b05(),
        "B06" => g.b06(),
        "C01" => g.c01(),
        "C02" => g.c02(),
        _ => panic!("unknown property {}", prop),
    };
    Case { prop: prop.into(), seed, kind: kind.into(), stages, judge: judge.into() }
}

type Gen = (&'static str, Vec<Stage>, &'static str);
struct G {
    r: Rng,
}
/// Not what was asked for, whatever comes with it. A redirect that leads nowhere is one of them.
const ERROR_STATUS: [u16; 18] = [404, 404, 500, 503, 403, 410, 429, 401, 502, 400, 300, 301, 302, 304, 305, 307, 451, 599];
const ERRNOS: [i32; 6] = [libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EROFS, libc::EDQUOT];

impl G {
    // ---- common ------------------------------------------------------------
    fn sched(&mut self) -> Sched {
        sched(&mut self.r)
    }
    fn calm(&mut self) -> Sched {
        let s = self.r.u64() >> 12;
        calm(s)
    }
    fn maybe_calm(&mut self) -> Sched {
        if self.r.chance(0.3) {
            self.calm()
        } else {
            self.sched()
        }
    }
    fn proj(&mut self) -> Proj {
        let mut p = ProjGen::default().gen(&mut self.r, P);
        if self.r.chance(0.7) {
            p.cover();
        }
        p
    }
    fn covered(&mut self, pg: &ProjGen) -> Proj {
        let mut p = pg.gen(&mut self.r, P);
        p.cover();
        p
    }
    /// Delays, redirects and chunking that change nothing.
    fn benign(&mut self, p: &Proj) -> Vec<NetRule> {
        let mut v = vec![];
        for u in p.cfg.urls() {
            if self.r.chance(0.5) {
                let d = *self.r.pick(&[1000, 50_000, 900_000, 4_000_000, 20_000_000]);
                v.push(NetRule { url: u.clone(), nth: None, act: NetAct::Delay(self.r.below(d) as u64) });
            }
            if self.r.chance(0.15) {
                let us = *self.r.pick(&[1000, 900_000, 10_000_000, 40_000_000]);
                v.push(NetRule { url: u.clone(), nth: None, act: NetAct::Slow(self.r.range(1, 4) as u64, self.r.below(us) as u64) });
            }
            if self.r.chance(0.3) {
                v.push(NetRule { url: u.clone(), nth: None, act: NetAct::Redirect(self.r.below(4) as u8) });
            }
            if self.r.chance(0.3) {
                v.push(NetRule { url: u.clone(), nth: None, act: NetAct::Chunked });
            }
        }
        v
    }
    /// A fault no client can get around; `url` is the victim.
    fn definite(&mut self, url: &str) -> NetRule {
        let (u, act) = match self.r.below(11) {
            9 => match self.r.below(3) as u8 {
                2 => (url.to_string(), NetAct::Silent(2)),
                k => ("github.com".to_string(), NetAct::Silent(k)),
            },
            10 => (url.to_string(), NetAct::Stall(self.r.below(20000) as u64)),
            0 => ("github.com".to_string(), NetAct::DnsFail),
            1 => ("github.com".to_string(), NetAct::Refuse),
            2 => ("github.com".to_string(), NetAct::BadTls),
            3 => ("github.com".to_string(), NetAct::BadCert),
            4 => ("github.com".to_string(), NetAct::ResetHandshake),
            5 | 6 => (url.to_string(), NetAct::Status(*self.r.pick(&ERROR_STATUS))),
            _ => (url.to_string(), NetAct::Cut(self.r.below(20000) as u64, self.r.below(3) as u8)),
        };
        NetRule { url: u, nth: None, act }
    }
    fn storage(&mut self, path: &str) -> Sel {
        let act = match self.r.below(10) {
            0..=5 => Act::Err(*self.r.pick(&ERRNOS)),
            6 | 7 => Act::DiskFull(*self.r.pick(&[0usize, 0, 1, 7, 100, 1000, 4000])),
            _ => Act::Short(*self.r.pick(&[1usize, 3, 500])),
        };
        // opening, writing, renaming and syncing fail more often than looking
        let op = if self.r.chance(0.7) { *self.r.pick(&["write", "create", "open", "rename", "sync", "mkdir", "read", "stat"]) } else { "" };
        Sel { path: path.into(), op: op.into(), pos: self.r.f(), act }
    }
    fn crash(&mut self, path: &str) -> CrashSel {
        CrashSel {
            path: if self.r.chance(0.6) { path.into() } else { "".into() },
            pos: self.r.f(),
            torn: if self.r.chance(0.5) { self.r.below(1001) as u64 } else { 0 },
            power: if self.r.chance(0.5) { Some(self.r.u64() >> 12) } else { None },
            one: false,
        }
    }
    fn clock(&mut self) -> i64 {
        *self.r.pick(&[0, 0, 0, -86_400 * 400, 86_400 * 300, -3600, 1])
    }
    fn build(&mut self, want: Want) -> Stage {
        let s = self.maybe_calm();
        Stage::build(want, s)
    }

    // ---- builds and plugins --------------------------------------------------
    fn p01(&mut self) -> Gen {
        let p = self.covered(&ProjGen { plugins: (1, 5), docs: (1, 2), stmts: 2, ..Default::default() });
        let mut s = self.build(Want::Ok);
        s.sched = self.sched();
        s.net = self.benign(&p);
        s.clock = self.clock();
        s.proj = vec![p.clone()];
        let mut t = self.build(Want::Ok).offline();
        t.opt = true;
        let mut v = vec![s, t];
        if self.r.chance(0.3) {
            // from nothing, in another order
            let mut d = self.build(Want::Ok);
            d.sched = self.sched();
            d.net = self.benign(&p);
            let mut q = p.clone();
            q.cfg.plugins.reverse();
            for m in q.cfg.plugins.iter_mut() {
                m.version = format!("{}-r", m.version);
            }
            let env = q.cfg.env();
            for x in q.docs.values_mut() {
                *x = ProjGen::default().doc(&mut self.r, &env);
            }
            q.cover();
            d.proj = vec![q];
            d.opt = true;
            v.push(d);
        }
        ("downloads", v, "")
    }
    /// No document needs this plugin.
    fn without(&mut self, p: &mut Proj, url: &str) {
        let b = p.cfg.backend.clone();
        for m in p.cfg.plugins.iter_mut().filter(|m| m.url(&b) == url) {
            m.hooks = [None; 4];
        }
        let mut env = p.cfg.env();
        env.modules.retain(|n, _| !p.cfg.plugins.iter().any(|m| &m.name == n && m.url(&b) == url));
        let pg = ProjGen { stmts: 2, ..Default::default() };
        for d in p.docs.values_mut() {
            *d = pg.doc(&mut self.r, &env);
        }
    }
    fn p02(&mut self) -> Gen {
        let mut p = self.covered(&ProjGen { plugins: (1, 4), docs: (1, 2), stmts: 2, ..Default::default() });
        p.cfg.no_table = false;
        match self.r.below(4) {
            0 | 1 => {
                // a build during a network fault
                let urls = p.cfg.urls();
                let victim = self.r.pick(&urls).clone();
                let rule = self.definite(&victim);
                if self.r.chance(0.35) {
                    self.without(&mut p, &victim);
                }
                let mut s = self.build(Want::Fail);
                s.proj = vec![p.clone()];
                s.net = self.benign(&p).into_iter().filter(|r| !matches!(r.act, NetAct::Redirect(_)) || r.url != victim).collect();
                if self.r.chance(0.3) {
                    // a second victim
                    let v2 = self.r.pick(&urls).clone();
                    let r2 = self.definite(&v2);
                    s.net.retain(|r| !matches!(r.act, NetAct::Redirect(_)) || r.url != v2);
                    s.net.push(r2);
                }
                s.net.push(rule);
                let mut off = self.build(Want::Fail).offline();
                off.opt = true;
                off.sched = self.calm();
                let mut again = self.build(Want::Ok);
                again.net = self.benign(&p);
                let mut last = self.build(Want::Ok).offline();
                last.opt = true;
                ("build-network", vec![s, off, again, last], "")
            }
            2 => {
                if self.r.chance(0.35) {
                    let urls = p.cfg.urls();
                    let victim = self.r.pick(&urls).clone();
                    self.without(&mut p, &victim);
                }
                let mut s = self.build(Want::IfOk);
                s.proj = vec![p.clone()];
                s.sel = vec![self.storage("plugins")];
                let mut off = self.build(Want::IfOk).offline();
                off.opt = true;
                let again = self.build(Want::Ok);
                let mut last = self.build(Want::Ok).offline();
                last.opt = true;
                ("build-storage", vec![s, off, again, last], "")
            }
            _ => {
                let m = self.new_plugin(&p);
                let spec = spec_of(&m);
                let mut s = Stage::new(P, Cmd::Add { spec: spec.clone() }, Want::Fail, self.sched());
                s.proj = vec![p.clone()];
                if self.r.chance(0.7) {
                    let u = m.add_url();
                    s.net = vec![self.definite(&u)];
                } else {
                    s.want = Want::IfOk;
                    s.sel = vec![self.storage("plugins")];
                }
                let again = Stage::new(P, Cmd::Add { spec }, Want::Again, self.calm());
                let mut b = self.build(Want::Ok);
                b.proj = vec![with(&p, &m)];
                b.assume = true;
                ("add", vec![s, again, b], "")
            }
        }
    }
    fn new_plugin(&mut self, p: &Proj) -> PCfg {
        loop {
            let mut m = gen_plugin(&mut self.r, "");
            m.repo = self.r.pick(&["fresh", "core", "new.one", "x_y", "a-b", "std.core"]).to_string();
            m.name = m.repo.split('.').next().unwrap().to_string();
            if !p.cfg.plugins.iter().any(|q| q.name == m.name) {
                return m;
            }
        }
    }
    fn p03(&mut self) -> Gen {
        let p = self.covered(&ProjGen { plugins: (1, 4), docs: (1, 2), stmts: 2, extra: 0.1, ..Default::default() });
        let mut v = vec![];
        for i in 0..self.r.range(1, 3) {
            let mut s = if self.r.chance(0.75) { self.build(Want::Any) } else { Stage::new(P, Cmd::Ls(self.opening(&p)), Want::Any, self.sched()) };
            s.net = self.benign(&p);
            if i == 0 {
                s.proj = vec![p.clone()];
            }
            let c = self.crash("plugins");
            s.crash = Some(c);
            if self.r.chance(0.15) {
                s.sel = vec![self.storage("plugins")];
            }
            s.opt = true;
            v.push(s);
        }
        v[0].opt = v.len() > 1;
        if self.r.chance(0.4) {
            let mut se = self.opening(&p);
            se.evs.extend(self.completions(&p, 2, "c"));
            let mut s = Stage::new(if self.r.chance(0.5) { P } else { "/" }, Cmd::Ls(se), Want::Ok, self.calm());
            s.opt = true;
            v.push(s);
        }
        v.push(self.build(Want::Ok));
        let mut o = self.build(Want::Ok).offline();
        o.opt = true;
        v.push(o);
        ("crash", v, "")
    }
    fn opening(&mut self, p: &Proj) -> Session {
        let d = p.docs.keys().next().map(|s| p.doc_path(s)).unwrap_or(format!("{}/docs/none.[]", p.dir));
        Session::new(vec![ls::msg(What::Initialize(true), Some(json!(0))), ls::msg(What::Initialized, None), ls::msg(What::DidOpen(d), None), Ev::Settle])
    }
    fn completions(&mut self, p: &Proj, n: usize, tag: &str) -> Vec<Ev> {
        let d = p.docs.keys().next().map(|s| p.doc_path(s)).unwrap_or(format!("{}/docs/none.[]", p.dir));
        (0..n).map(|i| ls::msg(What::Completion(d.clone(), Some(["[", "{"][i % 2].into())), Some(json!(format!("{}{}", tag, i))))).collect()
    }
    fn p04(&mut self) -> Gen {
        let pg = ProjGen { plugins: (1, 3), docs: (1, 2), stmts: 2, extra: 0.0, ..Default::default() };
        let mut base = pg.gen(&mut self.r, P);
        let set_docs = |g: &mut G, p: &mut Proj| {
            // documents fit the modules there are now
            let env = p.cfg.env();
            for d in p.docs.values_mut() {
                *d = pg.doc(&mut g.r, &env);
            }
            p.cover();
        };
        set_docs(self, &mut base);
        let mut v = vec![];
        let mut s = self.build(Want::Ok);
        s.proj = vec![base.clone()];
        v.push(s);
        let mut built = base.clone();
        let mut cur = base.clone();
        let mut old: Vec<Cfg> = vec![base.cfg.clone()];
        for _ in 0..self.r.range(1, 5) {
            let mut docs = false;
            let prev = cur.clone();
            for _ in 0..self.r.range(1, 2) {
                let n = cur.cfg.plugins.len();
                match self.r.below(14) {
                    0..=2 if n > 0 => {
                        let i = self.r.below(n);
                        cur.cfg.plugins[i].version = self.r.pick(&["v0.1.0", "v0.2.0", "1.0", "v0.1.0-rc1"]).to_string();
                    }
                    3 if n > 0 => {
                        let i = self.r.below(n);
                        cur.cfg.plugins[i].owner = self.r.pick(&["alice", "bob-x", "brack-lang", "fork"]).to_string();
                    }
                    4 if n > 0 => {
                        let i = self.r.below(n);
                        cur.cfg.plugins[i].repo = self.r.pick(&["core", "brack.std", "x_y", "z"]).to_string();
                    }
                    12 | 13 if n > 0 => {
                        let i = self.r.below(n);
                        self.nearly(&mut cur.cfg.plugins[i]);
                    }
                    5 => cur.cfg.backend = crate::proj::backend(&mut self.r, &cur.cfg.backend),
                    6 => {
                        pg.set_hooks(&mut self.r, &mut cur.cfg);
                    }
                    7 => {
                        let free: Vec<&str> = MODULES.iter().copied().filter(|m| !cur.cfg.plugins.iter().any(|p| p.name == *m)).collect();
                        if !free.is_empty() {
                            let m = *self.r.pick(&free);
                            let q = gen_plugin(&mut self.r, m);
                            cur.cfg.plugins.push(q);
                            docs = true;
                        }
                    }
                    8 if n > 1 => {
                        let i = self.r.below(n);
                        cur.cfg.plugins.remove(i);
                        docs = true;
                    }
                    9 if n > 1 => {
                        // two modules exchange what they are
                        let (a, b) = (cur.cfg.plugins[0].clone(), cur.cfg.plugins[1].clone());
                        cur.cfg.plugins[0].repo = b.repo;
                        cur.cfg.plugins[0].owner = b.owner;
                        cur.cfg.plugins[0].version = b.version;
                        cur.cfg.plugins[1].repo = a.repo;
                        cur.cfg.plugins[1].owner = a.owner;
                        cur.cfg.plugins[1].version = a.version;
                    }
                    10 => {
                        cur.cfg = self.r.pick(&old).clone();
                        docs = true;
                    }
                    11 => {
                        cur.cfg.name = format!("{}.", cur.cfg.name);
                        cur.cfg.plugins.reverse();
                    }
                    _ => docs = true,
                }
            }
            if docs || self.r.chance(0.3) || cur.expected().is_err() {
                set_docs(self, &mut cur);
            }
            let same = |a: &Proj, b: &Proj, n: &str| {
                let f = |p: &Proj| p.cfg.plugins.iter().find(|m| m.name == n).map(|m| (m.clone(), p.cfg.backend.clone()));
                f(a).is_some() && f(a) == f(b)
            };
            let changed: Vec<String> = cur.cfg.plugins.iter().filter(|m| !same(&cur, &built, &m.name) || !same(&prev, &built, &m.name)).map(|m| m.name.clone()).collect();
            let mut s;
            if !changed.is_empty() && self.r.chance(0.25) && cur.cfg.plugins.iter().any(|m| !old.iter().any(|c| c.urls().contains(&m.url(&cur.cfg.backend)))) {
                // something new that cannot be had: the build must not go on with what was there
                s = self.build(Want::Fail);
                let status = *self.r.pick(&ERROR_STATUS);
                let how = self.r.below(3);
                let cut = self.r.below(20000) as u64;
                for m in &cur.cfg.plugins {
                    let u = m.url(&cur.cfg.backend);
                    if !old.iter().any(|c| c.urls().contains(&u)) {
                        match how {
                            0 => {
                                s.reg.insert(u, RegEntry::Missing);
                            }
                            1 => s.net.push(NetRule { url: u, nth: None, act: NetAct::Status(status) }),
                            _ => s.net.push(NetRule { url: u, nth: None, act: NetAct::Cut(cut, 0) }),
                        }
                    }
                }
                s.proj = vec![cur.clone()];
                v.push(s);
                cur = prev;
                continue;
            }
            s = self.build(Want::Ok);
            if changed.is_empty() && self.r.chance(0.8) {
                s = s.offline();
            }
            let fresh: Vec<String> = cur.cfg.plugins.iter().map(|m| m.url(&cur.cfg.backend)).filter(|u| !old.iter().any(|c| c.urls().contains(u))).collect();
            if !fresh.is_empty() && self.r.chance(0.35) {
                // edited once more while this one is fetched
                let mut next = cur.clone();
                for _ in 0..self.r.range(1, 2) {
                    let i = self.r.below(next.cfg.plugins.len());
                    match self.r.below(5) {
                        0 => next.cfg.backend = crate::proj::backend(&mut self.r, &next.cfg.backend),
                        1 => self.nearly(&mut next.cfg.plugins[i]),
                        _ => next.cfg.plugins[i].version = self.r.pick(&["v0.1.0", "v0.2.0", "1.0", "v8"]).to_string(),
                    }
                }
                if next.expected().is_ok() {
                    let us = self.r.range(300, 20_000) as u64 * 1000;
                    let mut x = self.build(Want::Any);
                    x.proj = vec![cur.clone()];
                    x.net = fresh.iter().map(|u| NetRule { url: u.clone(), nth: None, act: NetAct::Delay(us) }).collect();
                    x.during = vec![((us as f64 * fresh.len() as f64 * self.r.f()) as u64, edit(&format!("{}/Brack.toml", P), Some(next.cfg.toml().as_bytes())))];
                    // done in time or not
                    x.opt = false;
                    v.push(x);
                    old.push(cur.cfg.clone());
                    old.push(next.cfg.clone());
                    cur = next.clone();
                    built = next;
                    s.proj = vec![cur.clone()];
                    v.push(s);
                    continue;
                }
            }
            s.fetch = Some(changed);
            s.proj = vec![cur.clone()];
            s.clock = self.clock();
            s.mtime = *self.r.pick(&[T0, T0 + 1000, T0 - 86_400 * 500, T0 + 86_400 * 5000]);
            s.opt = false;
            built = cur.clone();
            old.push(cur.cfg.clone());
            v.push(s);
        }
        ("edits", v, "")
    }
    /// Another plugin whose specification reads almost the same.
    fn nearly(&mut self, m: &mut PCfg) {
        fn shift(a: &mut String, b: &mut String, left: bool) {
            if left && b.chars().count() > 1 {
                a.push(b.remove(0));
            } else if a.chars().count() > 1 {
                b.insert(0, a.pop().unwrap());
            }
        }
        let left = self.r.chance(0.5);
        match self.r.below(6) {
            0 => shift(&mut m.owner, &mut m.repo, left),
            1 => shift(&mut m.repo, &mut m.version, left),
            2 => std::mem::swap(&mut m.owner, &mut m.repo),
            3 => m.owner = if m.owner.chars().any(|c| c.is_ascii_lowercase()) { m.owner.to_ascii_uppercase() } else { m.owner.to_ascii_lowercase() },
            4 => m.version = if m.version.starts_with('v') { m.version[1..].to_string() } else { format!("v{}", m.version) },
            _ => m.version = format!("{}{}", m.version, self.r.pick(&["0", "-", ".0", "+1"])),
        }
        if m.owner.starts_with('.') || m.repo.starts_with('.') || m.version.trim_matches('.').is_empty() {
            m.version = format!("v{}", m.version);
            m.owner = format!("o{}", m.owner);
            m.repo = format!("r{}", m.repo);
        }
    }
    fn p05(&mut self) -> Gen {
        let mut p = ProjGen { plugins: (0, 3), docs: (1, 1), stmts: 1, ..Default::default() }.gen(&mut self.r, P);
        p.cover();
        if self.r.chance(0.2) {
            // a long configuration: more than one block of it to lose
            p.cfg.authors = (0..self.r.range(50, 300)).map(|i| format!("author number {} <a{}@example.com>", i, i)).collect();
        }
        let m = self.new_plugin(&p);
        let spec = spec_of(&m);
        let mut v = vec![];
        if self.r.chance(0.04) {
            // there is none, and there is none afterwards
            let mut s = Stage::new(*self.r.pick(&["/home/user", "/home/user/p/docs"]), Cmd::Add { spec }, Want::Fail, self.maybe_calm());
            s.proj = vec![p.clone()];
            return ("no-project", vec![s], "");
        }
        for i in 0..self.r.range(1, 2) {
            let mut s = Stage::new(P, Cmd::Add { spec: spec.clone() }, Want::Any, self.sched());
            if i == 0 {
                s.proj = vec![p.clone()];
            }
            s.want = Want::IfOk;
            match self.r.below(4) {
                0 | 1 => {
                    let c = self.crash("Brack");
                    s.crash = Some(c);
                    s.want = Want::Any;
                }
                2 => {
                    let f = *self.r.pick(&["", "Brack", "partial", "plugins"]);
                    s.sel = (0..self.r.range(1, 2)).map(|_| self.storage(f)).collect();
                }
                _ => {
                    let f = *self.r.pick(&["Brack", "", "partial"]);
                    s.sel = vec![Sel { path: f.into(), op: "write".into(), pos: self.r.f(), act: Act::DiskFull(*self.r.pick(&[0usize, 1, 10, 100, 1000])) }];
                }
            }
            if i > 0 {
                // the first attempt may have got through
                s.want = Want::Any;
            }
            v.push(s);
        }
        let again = Stage::new(P, Cmd::Add { spec }, Want::Again, self.calm());
        v.push(again);
        let mut b = self.build(Want::Ok);
        b.proj = vec![with(&p, &m)];
        b.assume = true;
        v.push(b);
        ("add", v, "")
    }
    fn p06(&mut self) -> Gen {
        let pg = ProjGen { plugins: (0, 4), docs: (1, 2), stmts: 1, hooks: 0.5, ..Default::default() };
        let mut p = pg.gen(&mut self.r, P);
        p.cover();
        let mut v = vec![];
        let mut cur = p.clone();
        for i in 0..self.r.range(1, 4) {
            let sc = self.maybe_calm();
            let m = self.new_plugin(&cur);
            let ok = spec_of(&m);
            let mut s = Stage::new(P, Cmd::Add { spec: ok.clone() }, Want::Fail, sc);
            if i == 0 {
                s.proj = vec![p.clone()];
            }
            let mut sp = ok.clone();
            match self.r.below(14) {
                3 | 4 => {
                    // the user goes on editing while the plugin is fetched
                    let us = self.r.range(300, 20_000) as u64 * 1000;
                    s.net = vec![NetRule { url: m.add_url(), nth: None, act: if self.r.chance(0.5) { NetAct::Delay(us) } else { NetAct::Slow(1, us) } }];
                    let mut at = 0;
                    let mut broken = false;
                    for _ in 0..self.r.range(1, 2) {
                        let n = cur.cfg.plugins.len();
                        match self.r.below(8) {
                            0 => cur.cfg.name = format!("{}x", cur.cfg.name),
                            1 => cur.cfg.style ^= 1 << self.r.below(8),
                            2 => cur.cfg.authors.push("Someone Else".into()),
                            3 | 4 if n > 0 => {
                                let k = self.r.below(n);
                                cur.cfg.plugins[k].version = self.r.pick(&["v0.1.0", "v0.2.0", "1.0", "v7"]).to_string();
                            }
                            5 => {
                                let mut q = gen_plugin(&mut self.r, "");
                                q.name = "later".into();
                                if !cur.cfg.plugins.iter().any(|x| x.name == q.name) {
                                    cur.cfg.plugins.push(q);
                                }
                            }
                            6 => {
                                // this very name
                                let mut q = gen_plugin(&mut self.r, "");
                                q.name = m.name.clone();
                                if !cur.cfg.plugins.iter().any(|x| x.name == q.name) {
                                    cur.cfg.plugins.push(q);
                                }
                            }
                            7 => broken = self.r.chance(0.5),
                            _ => cur.cfg.version = "9.9".into(),
                        }
                        let t = (us as f64 * 0.45 * self.r.f()) as u64;
                        at += t;
                        let data = if broken { self.r.pick(&[None, Some(""), Some("[document\n"), Some("plugins = 1\n")]).map(|t| t.as_bytes().to_vec()) } else { Some(cur.cfg.toml().into_bytes()) };
                        s.during.push((t, Edit { path: format!("{}/Brack.toml", P), data, dir: false, mode: 0 }));
                        if broken {
                            break;
                        }
                    }
                    assert!(at < us);
                    if broken {
                        s.cmd = Cmd::Add { spec: sp };
                        v.push(s);
                        return ("adds", v, "");
                    }
                    if !cur.cfg.plugins.iter().any(|q| q.name == m.name) {
                        s.want = Want::Ok;
                    }
                }
                0..=2 => s.want = Want::Ok,
                5 | 12 | 13 => {
                    sp = if self.r.chance(0.4) {
                        self.r
                            .pick(&[
                                "gitlab:a/b@v1", "a/b@v1", "github:a@v1", "github:a/b", "", "@", "github:", "github:a/b@", "github:/b@v", "github:a/@v", "://", "github", "http://github.com/a/b@v", "github:a/b/c@v", "github:a/b@v@w", "github:x:a/b@v", "GitHub:a/b@v1",
                                "github:a/b/c", "git:github.com/a/b@v1", "あ", "github:@v1", "github:/@", ":a/b@v1", "@v1github:a/b",
                            ])
                            .to_string()
                    } else {
                        // nearly a plugin that exists
                        let (o, r, n) = (m.owner.clone(), m.repo.clone(), m.version.clone());
                        match self.r.below(14) {
                            0 => format!("github:/{}@{}", r, n),
                            1 => format!("github:{}/@{}", o, n),
                            2 => format!("github:{}/{}@", o, r),
                            3 => format!("github:{}/{}", o, r),
                            4 => format!("github:{}/{}/x@{}", o, r, n),
                            5 => format!("github:{}/{}@{}@{}", o, r, n, self.r.pick(&["", "v9", "x"])),
                            6 => format!("github:{}/{}@@{}", o, r, n),
                            7 => format!("{}/{}@{}", o, r, n),
                            8 => format!("gitlab:{}/{}@{}", o, r, n),
                            9 => format!("github:{}:{}/{}@{}", self.r.pick(&["x", ""]), o, r, n),
                            10 => format!("github:{}@{}", r, n),
                            11 => format!("github:{}/{}/@{}", o, r, n),
                            12 => format!("GITHUB:{}/{}@{}", o, r, n),
                            _ => format!("github:{}//{}@{}", o, r, n),
                        }
                    };
                    // whatever a careless reader makes of it is there
                    s.reg = careless(&sp).into_iter().map(|u| (u, RegEntry::Bytes("module".into()))).collect();
                }
                6 | 7 => {
                    // a name that is taken
                    if let Some(q) = cur.cfg.plugins.first().cloned() {
                        sp = format!("github:{}/{}{}@{}", self.r.pick(&["alice", "zoe"]), q.name, self.r.pick(&["", ".html", ".x.y"]), self.r.pick(&["v0.1.0", "v9"]));
                    } else {
                        s.want = Want::Ok;
                    }
                }
                8 => {
                    s.net = vec![self.definite(&m.add_url())];
                }
                9 => {
                    s.cwd = "/home/user".into();
                }
                10 => {
                    let t = self.r.pick(&["", "[document\n", "[document]\nname = 1\n", "\u{feff}[x", "[document]\nname=\"a\"\nversion=\"1\"\nbackend=\"html\"\nauthors=[]\n[plugins.a]\nschema=\"svn\"\nowner=\"a\"\nrepo=\"b\"\nversion=\"c\"\n"]).to_string();
                    s.pre = vec![edit(&format!("{}/Brack.toml", P), Some(t.as_bytes()))];
                    s.proj = vec![cur.clone()];
                    s.cmd = Cmd::Add { spec: sp };
                    v.push(s);
                    break;
                }
                _ => {
                    s.want = Want::Ok;
                    s.net = vec![NetRule { url: m.add_url(), nth: None, act: if self.r.chance(0.5) { NetAct::Chunked } else { NetAct::Redirect(self.r.below(4) as u8) } }];
                    // the file is there, though not the entry
                    if self.r.chance(0.3) {
                        s.pre = vec![edit(&format!("{}/plugins/{}.wasm", P, m.repo), Some(b"old"))];
                    }
                }
            }
            if s.want == Want::Ok {
                cur = with(&cur, &m);
            }
            s.cmd = Cmd::Add { spec: sp };
            v.push(s);
        }
        if v.iter().all(|s| s.pre.iter().all(|e| !e.path.ends_with("Brack.toml"))) {
            let mut b = self.build(Want::Ok);
            if cur.expected().is_err() {
                // other versions have other commands
                let env = cur.cfg.env();
                for d in cur.docs.values_mut() {
                    *d = pg.doc(&mut self.r, &env);
                }
                cur.cover();
                b.pre = cur.docs.iter().map(|(s, d)| edit(&cur.doc_path(s), Some(d.text().as_bytes()))).collect();
            }
            b.proj = vec![cur];
            b.assume = true;
            v.push(b);
        }
        ("adds", v, "")
    }
    fn p07(&mut self) -> Gen {
        let p = self.covered(&ProjGen { plugins: (1, 3), docs: (1, 3), stmts: 2, extra: 0.1, ..Default::default() });
        let mut v = vec![];
        if self.r.chance(0.4) {
            // part of the cache is filled
            let mut q = p.clone();
            let k = self.r.range(0, q.cfg.plugins.len() - 1);
            q.cfg.plugins.truncate(k);
            let env = q.cfg.env();
            if env.hooks.iter().all(|h| h.is_none()) || true {
                q.docs.clear();
                let d = DocGen { env: &env, depth: 0, bad: 0.0, wrong: 0.0, max_stmts: 1 }.doc(&mut self.r);
                q.docs.insert("main".into(), d);
            }
            let mut s = Stage::build(Want::Ok, self.calm());
            s.proj = vec![q];
            v.push(s);
        }
        if self.r.chance(0.3) {
            // a plugin is added at the same time
            let m = self.new_plugin(&p);
            let at = self.r.f() * 1.05;
            let add = Cmd::Add { spec: spec_of(&m) };
            let (kind, a, b) = match self.r.below(3) {
                0 => ("add+build", add, Cmd::Build),
                1 => ("build+add", Cmd::Build, add),
                _ => {
                    let k = self.new_plugin(&with(&p, &m));
                    ("add+add", add, Cmd::Add { spec: spec_of(&k) })
                }
            };
            let mut s = Stage::new(P, Cmd::Race { a: Box::new(a), b: Box::new(b), at }, Want::Ok, self.sched());
            s.sched.preempt = *self.r.pick(&[0.02, 0.1, 0.3, 0.6, 0.9]);
            s.proj = vec![p.clone()];
            s.net = self.benign(&with(&p, &m));
            v.push(s);
            let mut b = self.build(Want::Ok);
            if kind != "add+add" {
                b.proj = vec![with(&p, &m)];
                b.assume = true;
            }
            v.push(b);
            return (kind, v, "");
        }
        let ls = if self.r.chance(0.4) {
            let mut se = self.opening(&p);
            se.evs.extend(self.completions(&p, 2, "c"));
            Some(se)
        } else {
            None
        };
        let kind = if ls.is_some() { "build+ls" } else { "build+build" };
        let at = if self.r.chance(0.3) { 0.0 } else { self.r.f() * 1.05 };
        let mut s = Stage::new(P, Cmd::Two { ls, at }, Want::Ok, self.sched());
        s.sched.preempt = *self.r.pick(&[0.02, 0.1, 0.3, 0.6, 0.9]);
        s.proj = vec![p.clone()];
        s.net = self.benign(&p);
        if self.r.chance(0.3) {
            // one of them is killed
            let f = *self.r.pick(&["plugins", "plugins", "plugins", ""]);
            s.crash = Some(CrashSel { power: None, one: true, ..self.crash(f) });
        }
        v.push(s);
        v.push(Stage::build(Want::Ok, self.calm()).offline());
        (kind, v, "")
    }
    fn b01(&mut self) -> Gen {
        let p = ProjGen { plugins: (0, 4), docs: (0, 5), stmts: 4, depth: 3, extra: 0.6, ..Default::default() }.gen(&mut self.r, P);
        let mut p = p;
        if self.r.chance(0.5) {
            p.cover();
        }
        if self.r.chance(0.15) {
            // a document longer than any buffer
            if let Some(d) = p.docs.values_mut().next() {
                let n = *self.r.pick(&[20, 40, 40, 60, 60, 60, 80, 80, 100, 100, 160, 600]);
                let w = "word 語 ".repeat(n);
                d.stmts.push(vec![vec![Item::Text(w.trim_end().to_string())]]);
            }
        }
        if self.r.chance(0.2) && !p.cfg.plugins.is_empty() {
            // a plugin that counts, throughout
            let m = self.r.pick(&p.cfg.plugins).name.clone();
            for d in p.docs.values_mut() {
                d.stmts.push(vec![vec![Item::Cmd(crate::doc::Cmd { open: '[', module: m.clone(), name: "tick".into(), args: vec![], pad: 0, br: None })]]);
            }
        }
        let mut v = vec![];
        let mut s = self.build(Want::Ok);
        s.proj = vec![p.clone()];
        s.net = self.benign(&p);
        s.exact = true;
        v.push(s);
        for _ in 0..self.r.range(1, 3) {
            let mut s = self.build(Want::Ok);
            s.sched.hash_seed = self.r.u64() >> 12;
            s.sched.dir_seed = self.r.u64() >> 12;
            s.clock = self.clock();
            s.mtime = *self.r.pick(&[T0, T0 - 86_400 * 900, T0 + 86_400 * 9000, 1]);
            s.opt = true;
            s.exact = true;
            let mut q = p.clone();
            match self.r.below(8) {
                0 => q.cfg.plugins.reverse(),
                1 => {
                    // what is in out/ is old
                    for d in p.docs.keys() {
                        let junk = "old content ".repeat(self.r.below(600));
                        s.pre.push(edit(&format!("{}/out/{}.{}", P, d, p.cfg.backend), Some(junk.as_bytes())));
                    }
                }
                2 => {
                    for d in p.docs.keys() {
                        s.pre.push(edit(&format!("{}/out/{}.{}", P, d, p.cfg.backend), None));
                    }
                }
                3 => {
                    // documents change
                    let env = p.cfg.env();
                    for d in q.docs.values_mut() {
                        if self.r.chance(0.6) {
                            *d = ProjGen::default().doc(&mut self.r, &env);
                        }
                    }
                }
                6 | 7 => {
                    // nor does their length, and perhaps not the time either
                    for d in q.docs.values_mut() {
                        if let Some(e) = d.same_length(&mut self.r) {
                            *d = e;
                        }
                    }
                    if self.r.chance(0.5) {
                        s.mtime = T0;
                    }
                }
                4 => {
                    q.extra.insert("docs/other.txt".into(), "[[[".into());
                    q.extra.insert("docs/sub/inner.[]".into(), "[[[".into());
                    q.extra.insert("docs/x.[].bak".into(), "]".into());
                }
                _ => {}
            }
            s.proj = vec![q];
            if self.r.chance(0.5) {
                s = s.offline();
            }
            v.push(s);
        }
        ("variants", v, "")
    }
    fn wrong_doc(&mut self, env: &Env) -> Option<Doc> {
        // a document that cannot be compiled
        for _ in 0..30 {
            let d = DocGen { env, depth: 2, bad: 0.0, wrong: 0.4, max_stmts: 3 }.doc(&mut self.r);
            if env.compile(&d).is_err() {
                return Some(d);
            }
        }
        None
    }
    fn bad_doc(&mut self, env: &Env) -> Doc {
        loop {
            let mut d = DocGen { env, depth: 1, bad: 0.35, wrong: 0.0, max_stmts: 3 }.doc(&mut self.r);
            if d.is_bad() {
                if self.r.chance(0.06) {
                    let deep = Item::Bad(Bad::Deep(*self.r.pick(&['[', '{', '<']), self.r.range(300, 2000)));
                    d.stmts[0][0].insert(0, deep);
                }
                return d;
            }
        }
    }
    fn b02(&mut self) -> Gen {
        let mut p = ProjGen { plugins: (1, 3), docs: (1, 4), stmts: 3, ..Default::default() }.gen(&mut self.r, P);
        let mut v = vec![];
        let cached = self.r.chance(0.5);
        if cached {
            let mut s = Stage::build(Want::Ok, self.calm());
            s.proj = vec![p.clone()];
            s.opt = true;
            v.push(s);
            // other documents than then
            let env = p.cfg.env();
            for d in p.docs.values_mut() {
                *d = ProjGen::default().doc(&mut self.r, &env);
            }
        }
        let stems: Vec<String> = p.docs.keys().cloned().collect();
        let stem = self.r.pick(&stems).clone();
        let mut s = self.build(Want::Fail);
        let env = p.cfg.env();
        let good = p.clone();
        let kind;
        match self.r.below(16) {
            0..=4 => {
                kind = "faults";
                s.want = Want::IfOk;
                let n = self.r.range(1, 2);
                s.sel = (0..n)
                    .map(|_| {
                        let path = *self.r.pick(&["docs", "out", "out", "plugins", "Brack.toml", ""]);
                        self.storage(path)
                    })
                    .collect();
            }
            5 => {
                kind = "disk-full";
                s.want = Want::IfOk;
                s.sel = vec![Sel { path: if self.r.chance(0.7) { "out" } else { "" }.into(), op: "write".into(), pos: self.r.f(), act: Act::DiskFull(*self.r.pick(&[0usize, 1, 5, 50, 500])) }];
            }
            6 => {
                kind = "stdout";
                s.want = Want::IfOk;
                s.out = OutPlan { limit: Some((self.r.below(60) as u64, *self.r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC]))), stall: 0 };
            }
            7 | 8 => {
                kind = "cannot-compile";
                match self.wrong_doc(&env) {
                    Some(d) => {
                        p.docs.insert(stem.clone(), d);
                    }
                    None => s.want = Want::IfOk,
                }
            }
            9 | 12 | 13 => {
                kind = "malformed";
                let d = self.bad_doc(&env);
                p.docs.insert(stem.clone(), d);
            }
            14 => {
                // nothing to compile is not a failure
                kind = "no-documents";
                p.docs.clear();
                s.want = Want::Ok;
            }
            10 => {
                kind = "unreadable";
                let f = p.doc_path(&stem);
                match self.r.below(2) {
                    0 => s.pre.push(Edit { path: f, data: Some(p.docs[&stem].text().into_bytes()), dir: false, mode: 0o200 }),
                    _ => s.pre.push(edit(&f, Some(b"abc \xff\xfe def"))),
                }
            }
            _ => {
                kind = "bad-plugin";
                let m = self.r.pick(&p.cfg.plugins).clone();
                s.reg.insert(m.url(&p.cfg.backend), RegEntry::Broken(*self.r.pick(&[Broken::Garbage, Broken::Html, Broken::Empty, Broken::Truncated, Broken::NoMetadata, Broken::BadMetadata])));
                if cached {
                    // it has to be fetched
                    v.clear();
                }
                s.proj = vec![p.clone()];
                v.push(s);
                return (kind, v, "");
            }
        }
        s.proj = vec![p];
        v.push(s);
        let mut t = self.build(Want::Ok);
        t.sched = self.calm();
        t.proj = vec![good];
        v.push(t);
        (kind, v, "")
    }
    fn b03(&mut self) -> Gen {
        let pg = ProjGen { plugins: (1, 3), docs: (1, 4), stmts: 2, extra: 0.2, ..Default::default() };
        let mut p = pg.gen(&mut self.r, P);
        let mut v = vec![];
        for i in 0..self.r.range(1, 4) {
            let mut s = self.build(Want::Any);
            s.net = self.benign(&p);
            s.opt = true;
            match self.r.below(4) {
                0..=2 => {
                    let f = *self.r.pick(&["out", "plugins"]);
                    let c = self.crash(f);
                    s.crash = Some(c);
                }
                _ => {
                    let f = *self.r.pick(&["out", "plugins", "docs", ""]);
                    s.sel = vec![self.storage(f)];
                }
            }
            if i > 0 && self.r.chance(0.6) {
                let env = p.cfg.env();
                let stems: Vec<String> = p.docs.keys().cloned().collect();
                match self.r.below(4) {
                    0 => {
                        p.docs.insert("added".into(), pg.doc(&mut self.r, &env));
                    }
                    1 if stems.len() > 1 => {
                        p.docs.remove(&stems[0]);
                    }
                    2 => {
                        let q = pg.cfg(&mut self.r);
                        p.cfg = q;
                        let env = p.cfg.env();
                        for d in p.docs.values_mut() {
                            *d = pg.doc(&mut self.r, &env);
                        }
                    }
                    _ => {
                        let st = self.r.pick(&stems).clone();
                        let d = match p.docs[&st].same_length(&mut self.r) {
                            Some(d) if self.r.chance(0.4) => d,
                            _ => pg.doc(&mut self.r, &env),
                        };
                        p.docs.insert(st, d);
                        s.mtime = *self.r.pick(&[T0, T0 + 5, T0 - 86_400]);
                    }
                }
            }
            if i == 0 || self.r.chance(0.9) {
                s.proj = vec![p.clone()];
            }
            v.push(s);
        }
        let mut s = self.build(Want::Ok);
        s.proj = vec![p];
        v.push(s);
        let k = v.len();
        v[0].opt = k > 2;
        ("interrupted", v, "")
    }
    fn b04(&mut self) -> Gen {
        let mut p = ProjGen { plugins: (1, 3), docs: (1, 3), stmts: 2, extra: 0.7, ..Default::default() }.gen(&mut self.r, P);
        p.extra.insert("notes.txt".into(), "mine".into());
        let mut v = vec![];
        let mut other = ProjGen { plugins: (1, 2), docs: (1, 1), stmts: 1, ..Default::default() }.gen(&mut self.r, "/home/user/other");
        other.extra.insert("plugins/keep.txt".into(), "x".into());
        for p in [&mut p, &mut other] {
            // things of others that look almost like brack's own
            for _ in 0..self.r.below(3) {
                let (m, repo, v) = match p.cfg.plugins.is_empty() {
                    true => ("a".to_string(), "b".to_string(), "1".to_string()),
                    false => {
                        let q = self.r.pick(&p.cfg.plugins);
                        (q.name.clone(), q.repo.clone(), q.version.clone())
                    }
                };
                let doc = p.docs.keys().next().cloned().unwrap_or_default();
                let doc = doc.trim_end_matches(".[]");
                let e = match self.r.below(10) {
                    // names that are no UTF-8
                    9 => self.r.pick(&["out/caf\u{10fee9}.jpg", "plugins/\u{10fe80}.wasm"]).to_string(),
                    0 => format!("plugins/{}.wasm", repo),
                    1 => format!("plugins/{}s.wasm", m),
                    2 => format!("plugins/{}_{}.wasm", m, v),
                    3 => format!("plugins/{}.wasm", m),
                    4 => "plugins/.keep".into(),
                    5 => "plugins/mine/x.wasm".into(),
                    6 => format!("out/{}.css", doc),
                    7 => format!("out/{}.{}.bak", doc, p.cfg.backend),
                    _ => format!("out/{}/img.png", doc),
                };
                let used = |f: &str| p.cfg.plugins.iter().any(|q| f.contains(&q.name) && q.name.contains('/'));
                if !used(&e) {
                    p.extra.insert(e, format!("kept {}", self.r.below(100)));
                }
            }
        }
        let mut cached: Option<Stage> = None;
        if self.r.chance(0.4) {
            let s = Stage::build(Want::Any, self.calm());
            cached = Some(s);
        }
        if self.r.chance(0.15) {
            // a name that leads elsewhere
            let mut m = gen_plugin(&mut self.r, "");
            m.name = self.r.pick(&["../up", "../docs/up", "../../up", "/home/user/up", "a/../../up", "sub/x", "..", "../plugins/x"]).to_string();
            p.cfg.plugins.push(m);
        }
        let kind = *self.r.pick(&["build", "build", "add", "compile", "ls", "ls", "two"]);
        for i in 0..self.r.range(1, 2) {
            let sc = self.sched();
            let mut s = match kind {
                "build" => Stage::build(Want::Any, sc),
                "add" => {
                    let m = self.new_plugin(&p);
                    Stage::new(P, Cmd::Add { spec: spec_of(&m) }, Want::Any, sc)
                }
                "compile" => {
                    let s = self.compile_stage(&p, true);
                    let mut s = s;
                    s.want = Want::Any;
                    s.sched = sc;
                    s
                }
                "ls" => {
                    let (evs, _) = self.mixed(&[p.clone(), other.clone()], 12, true);
                    let mut se = Session::new(evs);
                    se.cut = self.cut();
                    Stage::new(*self.r.pick(&[P, "/home/user", "/home/user/other", "/"]), Cmd::Ls(se), Want::Any, sc)
                }
                _ => {
                    let (evs, _) = self.mixed(&[p.clone(), other.clone()], 6, false);
                    let se = Session::new(evs);
                    Stage::new(P, Cmd::Two { ls: if self.r.chance(0.5) { Some(se) } else { None }, at: self.r.f() }, Want::Any, sc)
                }
            };
            if i == 0 {
                if let Some(c) = cached.take() {
                    let mut c = c;
                    c.proj = vec![p.clone(), other.clone()];
                    v.push(c);
                }
            }
            s.proj = vec![p.clone(), other.clone()];
            match self.r.below(4) {
                0 => {
                    let c = self.crash("");
                    s.crash = Some(c)
                }
                1 | 2 => {
                    let n = self.r.range(1, 3);
                    s.sel = (0..n).map(|_| self.storage("")).collect()
                }
                _ => {
                    let us = p.cfg.urls();
                    let u = self.r.pick(&us).clone();
                    s.net = vec![self.definite(&u)]
                }
            }
            s.opt = i > 0;
            v.push(s);
        }
        (kind, v, "")
    }
    fn b05(&mut self) -> Gen {
        let name = match self.r.below(10) {
            0..=3 => self.r.pick(&["doc", "my-doc", "doc1", "日本語", "with space", "a.b"]).to_string(),
            4 | 5 => self.r.pick(&["a\"b", "a\\b", "it's", "a\\\"b", "\"", "\"\"\"", "#x", "[document]", "tab\tx", "nl\nx", "é\u{301}", "{}", "$HOME", "%s", "\u{1}c", "-"]).to_string(),
            6 => "/home/user/abs".to_string(),
            7 => "sub/doc".to_string(),
            8 => "p/new".to_string(),
            _ => {
                let n = self.r.range(1, 12);
                let cs: Vec<char> = "abcXYZ09 _-\"'\\.#=[]{}<>éあ\n\t\u{7f}".chars().collect();
                let mut s: String = (0..n).map(|_| *self.r.pick(&cs)).collect();
                if s.trim_matches('.').is_empty() || s.starts_with('-') {
                    s = format!("x{}", s);
                }
                s
            }
        };
        let root = if name.starts_with('/') { name.clone() } else { format!("/home/user/{}", name) };
        let mut s = Stage::new("/home/user", Cmd::New { name: name.clone() }, Want::Ok, self.sched());
        // something to lose
        s.pre.push(edit("/home/user/Brack.toml", Some(b"[document]\n")));
        s.pre.push(edit("/home/user/.gitignore", Some(b"mine\n")));
        s.pre.push(edit("/home/user/docs/main.[]", Some(b"mine")));
        s.pre.push(Edit { path: "/home/user/p".into(), data: None, dir: true, mode: 0 });
        s.pre.push(edit("/home/user/p/docs/main.[]", Some(b"mine too")));
        let mut kind = "new";
        if name == "sub/doc" && self.r.chance(0.7) {
            s.want = Want::IfOk;
            kind = "no-parent";
        } else if name == "sub/doc" {
            s.pre.push(Edit { path: "/home/user/sub".into(), data: None, dir: true, mode: 0 });
        }
        let mut v = vec![];
        if kind == "new" && self.r.chance(0.15) {
            // twice at once
            let b = if self.r.chance(0.7) { name.clone() } else { "other".into() };
            s.cmd = Cmd::Race { a: Box::new(Cmd::New { name: name.clone() }), b: Box::new(Cmd::New { name: b }), at: self.r.f() };
            s.sched.preempt = *self.r.pick(&[0.1, 0.3, 0.6, 0.9]);
            v.push(s);
            return ("race", v, "");
        }
        match self.r.below(10) {
            0 | 1 if kind == "new" => {
                kind = "exists";
                s.want = Want::Fail;
                match self.r.below(5) {
                    0 => s.pre.push(edit(&root, Some(b"a file"))),
                    1 => s.pre.push(Edit { path: root.clone(), data: None, dir: true, mode: 0 }),
                    2 => {
                        s.pre.push(edit(&format!("{}/docs/main.[]", root), Some(b"precious")));
                        s.pre.push(edit(&format!("{}/Brack.toml", root), Some(b"precious")));
                    }
                    3 => s.pre.push(edit(&format!("{}/.gitignore", root), Some(b"precious"))),
                    _ => s.pre.push(edit(&format!("{}/docs/other.[]", root), Some(b"precious"))),
                }
            }
            2..=5 if kind == "new" => {
                kind = "faults";
                s.want = Want::IfOk;
                let n = self.r.range(1, 2);
                s.sel = (0..n)
                    .map(|_| {
                        let f = *self.r.pick(&["", "Brack.toml", "docs", ".gitignore", "main"]);
                        self.storage(f)
                    })
                    .collect();
            }
            6 if kind == "new" => {
                kind = "crash";
                s.want = Want::Any;
                let c = self.crash("");
                s.crash = Some(c);
            }
            _ => {}
        }
        let built = s.want == Want::Ok;
        v.push(s);
        if built {
            let mut b = self.build(Want::Ok);
            b.cwd = root.clone();
            let mut docs = std::collections::BTreeMap::new();
            docs.insert("main".to_string(), Doc::default());
            b.proj = vec![Proj { dir: root.clone(), cfg: Cfg { name, version: "0.1.0".into(), backend: "".into(), ..Default::default() }, docs, extra: Default::default() }];
            b.assume = true;
            v.push(b);
        }
        (kind, v, "")
    }
    /// A project of which the hooks are wrong is rejected, whatever else happens.
    fn b06(&mut self) -> Gen {
        let pg = ProjGen { plugins: (1, 4), docs: (1, 2), stmts: 2, ..Default::default() };
        let mut good = pg.gen(&mut self.r, P);
        let n = good.cfg.plugins.len();
        let h = self.r.below(4);
        let two = n > 1 && self.r.chance(0.5);
        for m in good.cfg.plugins.iter_mut() {
            m.hooks[h] = *self.r.pick(&[None, None, Some(false)]);
        }
        let mut bad = good.clone();
        let mut reg = std::collections::BTreeMap::new();
        let kind;
        if two {
            kind = "two";
            let mut k: Vec<usize> = (0..n).collect();
            self.r.shuffle(&mut k);
            let c = if n > 2 && self.r.chance(0.2) { 3 } else { 2 };
            for i in &k[..c] {
                bad.cfg.plugins[*i].hooks[h] = Some(true);
            }
            if self.r.chance(0.5) {
                // one of them alone is right
                good.cfg.plugins[k[0]].hooks[h] = Some(true);
            }
            if self.r.chance(0.3) {
                // both from the same release
                let m = bad.cfg.plugins[k[0]].clone();
                for p in [&mut good, &mut bad] {
                    let q = &mut p.cfg.plugins[k[1]];
                    q.owner = m.owner.clone();
                    q.repo = m.repo.clone();
                    q.version = m.version.clone();
                }
            }
        } else {
            let i = self.r.below(n);
            bad.cfg.plugins[i].hooks[h] = Some(true);
            let m = bad.cfg.plugins[i].clone();
            let b = if self.r.chance(0.4) {
                kind = "missing";
                Broken::NoHook(h as u8)
            } else {
                kind = "wrong-type";
                Broken::WrongHook(h as u8, self.r.chance(0.3))
            };
            reg.insert(m.url(&bad.cfg.backend), RegEntry::Broken(b));
            // others may have it, and a plugin need not have a hook nobody enabled
            if n > 1 && self.r.chance(0.5) {
                let j = (i + 1 + self.r.below(n - 1)) % n;
                if bad.cfg.plugins[j].url(&bad.cfg.backend) != m.url(&bad.cfg.backend) {
                    good.cfg.plugins[j].hooks[h] = Some(true);
                }
            }
        }
        // hooks are not called by name here
        let dot = format!(".{}", crate::doc::HOOKS[h]);
        for p in [&mut good, &mut bad] {
            let mut e = p.cfg.env();
            e.hooks[h] = p.cfg.plugins.iter().find(|m| m.hooks[h] == Some(true)).map(|m| m.name.clone());
            for d in p.docs.values_mut() {
                for _ in 0..50 {
                    *d = pg.doc(&mut self.r, &e);
                    if !d.text().contains(&dot) {
                        break;
                    }
                }
                if d.text().contains(&dot) {
                    *d = Doc::default();
                }
            }
            p.cover();
        }
        let mut v = vec![];
        if self.r.chance(0.4) {
            // was it right before?
            let mut s = self.build(Want::Ok);
            s.proj = vec![good.clone()];
            s.opt = true;
            v.push(s);
        }
        for k in 0..self.r.range(1, 3) {
            let mut s = self.build(Want::Fail);
            s.net = self.benign(&bad);
            s.clock = self.clock();
            if k == 0 {
                s.proj = vec![bad.clone()];
            } else {
                s.opt = true;
            }
            if self.r.chance(0.4) {
                let f = *self.r.pick(&["", "plugins", "docs", "out", "Brack.toml"]);
                s.sel = vec![self.storage(f)];
            } else if self.r.chance(0.2) {
                s.crash = Some(self.crash(""));
                s.want = Want::Any;
            }
            v.push(s);
        }
        if self.r.chance(0.4) {
            // nor does the editor offer its commands, until it is right
            let d = bad.docs.keys().next().map(|s| bad.doc_path(s)).unwrap();
            let mut se = self.opening(&bad);
            se.strict = true;
            let m = self.r.range(1, 3);
            se.evs.extend(self.completions(&bad, m, "bad"));
            se.evs.push(Ev::Settle);
            if kind == "two" || self.r.chance(0.5) {
                let mut q = good.cfg.clone();
                if kind != "two" && self.r.chance(0.5) {
                    q.plugins.retain(|p| !reg.contains_key(&p.url(&q.backend)));
                }
                if kind == "two" || !q.plugins.iter().any(|p| reg.contains_key(&p.url(&q.backend))) {
                    se.evs.push(Ev::Cfg { dir: P.into(), cfg: Some(q) });
                    se.evs.push(ls::msg(What::DidOpen(d), None));
                    se.evs.push(Ev::Settle);
                    let m = self.r.range(1, 3);
                    se.evs.extend(self.completions(&bad, m, "good"));
                }
            }
            if kind != "two" {
                se.broken = reg.keys().cloned().collect();
            }
            let sc = self.sched();
            let mut s = self.ls_stage(&[bad.clone()], se, sc);
            s.net = self.benign(&bad);
            s.opt = true;
            v.push(s);
        }
        let mut t = self.build(Want::Ok);
        t.proj = vec![good.clone()];
        v.push(t);
        for s in v.iter_mut() {
            s.reg.extend(reg.clone());
        }
        (kind, v, "")
    }
    fn compile_stage(&mut self, p: &Proj, calm: bool) -> Stage {
        let stems: Vec<String> = p.docs.keys().cloned().collect();
        let stem = self.r.pick(&stems).clone();
        let rel = self.r.chance(0.5);
        let doc = if rel { format!("docs/{}.[]", stem) } else { p.doc_path(&stem) };
        let plugins = if self.r.chance(0.5) { "/home/user/wasm".to_string() } else { "../wasm".to_string() };
        let sc = if calm { self.calm() } else { self.sched() };
        let mut s = Stage::new(P, Cmd::Compile { doc, plugins, env: self.r.chance(0.3), level: 5, json: false }, Want::Ok, sc);
        for m in &p.cfg.plugins {
            let h = *self.r.pick(&["0a1b2c", "deadbeef", "1", "XyZ9"]);
            s.pre.push(edit(&format!("/home/user/wasm/{}_{}.wasm", m.name, h), Some(&crate::plug::bytes(&m.tag(&p.cfg.backend)))));
        }
        for j in ["README.md", "notes.txt", "plain.wasm", "_.wasm", ".hidden", ".4711.partial", "std_0a.wasm.bak", "fig_0a.wasm~", "math_0awasm", "note_0a.wasm.partial", "caf\u{10fee9}.txt", "xy2.wasm", "tbl_0a.WASM"] {
            if self.r.chance(0.15) {
                s.pre.push(edit(&format!("/home/user/wasm/{}", j), Some(b"junk")));
            }
        }
        s.pre.push(Edit { path: "/home/user/wasm".into(), data: None, dir: true, mode: 0 });
        s
    }
    fn c01(&mut self) -> Gen {
        let mut p = ProjGen { plugins: (0, 4), docs: (1, 2), stmts: 4, depth: 3, hooks: 0.0, extra: 0.0 }.gen(&mut self.r, P);
        if self.r.chance(0.6) {
            p.cover();
        }
        if self.r.chance(0.2) {
            if let Some(d) = p.docs.values_mut().next() {
                let n = *self.r.pick(&[20, 40, 40, 60, 60, 60, 80, 80, 100, 100, 160, 600]);
                let w = "word 語 ".repeat(n);
                d.stmts.push(vec![vec![Item::Text(w.trim_end().to_string())]]);
            }
        }
        let env = p.cfg.env();
        if self.r.chance(0.2) {
            let g = DocGen { env: &env, depth: 1, bad: 0.0, wrong: 0.0, max_stmts: 3 };
            for x in p.docs.values_mut() {
                g.macros(&mut self.r, x);
            }
        }
        let kind;
        let mut s = self.compile_stage(&p, false);
        s.sched.short = *self.r.pick(&[0.0, 0.3, 0.8]);
        s.sched.eintr = *self.r.pick(&[0.0, 0.1, 0.4]);
        match self.r.below(11) {
            0..=2 => kind = "valid",
            3 if !p.cfg.plugins.is_empty() => {
                // which of them is meant?
                kind = "ambiguous";
                let m = self.r.pick(&p.cfg.plugins).clone();
                let mut t = m.clone();
                t.version = format!("{}-old", t.version);
                s.pre.push(edit(&format!("/home/user/wasm/{}_{}.wasm", m.name, self.r.pick(&["0", "zz", "77e"])), Some(&crate::plug::bytes(&t.tag(&p.cfg.backend)))));
                s.want = Want::Fail;
            }
            3 => kind = "valid",
            4 | 5 => {
                kind = "faults";
                s.want = Want::IfOk;
                let f = *self.r.pick(&["", "docs", "wasm", "wasm"]);
                s.sel = vec![self.storage(f)];
            }
            6 => {
                kind = "stdout";
                let len = p.docs.values().next().and_then(|d| env.compile(d).ok()).map_or(10, |t| t.len());
                let cut = if self.r.chance(0.3) { len.saturating_sub(self.r.below(3)) } else { self.r.below(len + 1) };
                s.out = OutPlan { limit: Some((cut as u64, *self.r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC]))), stall: 0 };
                s.want = Want::IfOk;
            }
            7 | 8 => {
                kind = "cannot-compile";
                match self.wrong_doc(&env) {
                    Some(d) => {
                        for x in p.docs.values_mut() {
                            *x = d.clone();
                        }
                        s.want = Want::Fail;
                    }
                    None => {}
                }
            }
            9 => {
                kind = "malformed";
                let d = self.bad_doc(&env);
                for x in p.docs.values_mut() {
                    *x = d.clone();
                }
                s.want = Want::Fail;
                if let Cmd::Compile { level, .. } = &mut s.cmd {
                    *level = *self.r.pick(&[5, 5, 4]);
                }
            }
            _ => {
                kind = "unreadable";
                s.want = Want::Fail;
                let f = if let Cmd::Compile { doc, .. } = &s.cmd { format!("{}/docs/{}", P, doc.rsplit('/').next().unwrap()) } else { unreachable!() };
                let w: Vec<String> = s.pre.iter().map(|e| e.path.clone()).filter(|w| w.contains("_") && w.ends_with(".wasm") && !w.contains("/_")).collect();
                match self.r.below(6) {
                    0 => s.pre.push(Edit { path: f, data: None, dir: false, mode: 0 }),
                    1 => s.pre.push(edit(&f, Some(b"abc \xff\xfe def"))),
                    2 => {
                        let t = p.docs.values().next().unwrap().text();
                        s.pre.push(Edit { path: f, data: Some(t.into_bytes()), dir: false, mode: 0o200 })
                    }
                    3 => {
                        if let Cmd::Compile { plugins, .. } = &mut s.cmd {
                            *plugins = "nowhere".into();
                        }
                    }
                    _ if !w.is_empty() => {
                        let b: Broken = *self.r.pick(&[Broken::Garbage, Broken::Html, Broken::Empty, Broken::Truncated, Broken::NoMetadata, Broken::BadMetadata]);
                        let k = self.r.below(w.len());
                        let t = p.cfg.plugins[k.min(p.cfg.plugins.len() - 1)].tag(&p.cfg.backend);
                        s.pre.push(edit(&w[k], Some(&broken(&t, b))));
                    }
                    _ => s.pre.push(Edit { path: f, data: None, dir: false, mode: 0 }),
                }
            }
        }
        s.proj = vec![p];
        (kind, vec![s], "")
    }

    /// The other output levels.
    fn c02(&mut self) -> Gen {
        let mut p = ProjGen { plugins: (0, 3), docs: (1, 2), stmts: 4, depth: 3, hooks: 0.0, extra: 0.0 }.gen(&mut self.r, P);
        if self.r.chance(0.6) {
            p.cover();
        }
        let env = p.cfg.env();
        if self.r.chance(0.3) {
            let d = self.bad_doc(&env);
            for x in p.docs.values_mut() {
                *x = d.clone();
            }
        }
        if self.r.chance(0.3) {
            let g = DocGen { env: &env, depth: 1, bad: 0.0, wrong: 0.0, max_stmts: 3 };
            for x in p.docs.values_mut().filter(|d| !d.is_bad()) {
                g.macros(&mut self.r, x);
            }
        }
        let mut s = self.compile_stage(&p, false);
        s.sched.short = *self.r.pick(&[0.0, 0.3, 0.8]);
        s.sched.eintr = *self.r.pick(&[0.0, 0.1, 0.4]);
        let l = *self.r.pick(&[1u32, 1, 2, 3, 3, 4, 4, 4]);
        let stem = if let Cmd::Compile { doc, level, json, .. } = &mut s.cmd {
            *level = l;
            *json = self.r.chance(0.8);
            doc.rsplit('/').next().unwrap().trim_end_matches(".[]").to_string()
        } else {
            unreachable!()
        };
        let d = p.docs[&stem].clone();
        if l > 1 && d.deep() || l == 4 && (d.is_bad() || crate::levels::possible(4, &d, &env).is_err()) {
            s.want = Want::Fail;
        }
        let kind;
        match self.r.below(12) {
            0..=5 => kind = "valid",
            6 | 7 => {
                kind = "faults";
                if s.want == Want::Ok {
                    s.want = Want::IfOk;
                }
                let f = *self.r.pick(&["", "docs", "wasm", "wasm"]);
                s.sel = vec![self.storage(f)];
            }
            8 => {
                kind = "stdout";
                let cut = if self.r.chance(0.3) { self.r.below(20) } else { self.r.below(6000) };
                s.out = OutPlan { limit: Some((cut as u64, *self.r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC]))), stall: 0 };
                if s.want == Want::Ok {
                    s.want = Want::IfOk;
                }
            }
            9 => {
                kind = "refused";
                s.want = Want::Fail;
                if let Cmd::Compile { doc, level, json, .. } = &mut s.cmd {
                    match self.r.below(3) {
                        0 => *level = *self.r.pick(&[0, 6, 7, 13, 255, 256, 260]),
                        1 => {
                            *level = 5;
                            *json = true;
                        }
                        _ => {
                            let f = *self.r.pick(&["docs/x.txt", "docs/x.[", "Brack.toml", "docs/nosuch.[]", "docs"]);
                            s.pre.push(edit("/home/user/p/docs/x.txt", Some(b"abc")));
                            s.pre.push(edit("/home/user/p/docs/x.[", Some(b"abc")));
                            *doc = f.into();
                        }
                    }
                }
            }
            _ => {
                kind = "same";
                // the same text with and without disturbance
                s.proj = vec![p];
                let mut a = s.clone();
                a.sched.short = 0.0;
                a.sched.eintr = 0.0;
                a.sched.preempt = 0.0;
                s.sched.dir_seed = self.r.u64() >> 12;
                s.proj = vec![];
                s.pre = vec![];
                return (kind, vec![a, s], "same");
            }
        }
        s.proj = vec![p];
        (kind, vec![s], "")
    }

    // ---- language server ---------------------------------------------------------
    fn cut(&mut self) -> Cut {
        *self.r.pick(&[Cut::Whole, Cut::PerMessage, Cut::Random, Cut::Nasty, Cut::Straddle])
    }
    /// Documents for the server: with errors or without, not too long.
    fn ls_doc(&mut self, env: &Env, bad: f64) -> Doc {
        let long = self.r.chance(0.04);
        let d = DocGen { env, depth: if long { 3 } else { 2 }, bad, wrong: 0.2, max_stmts: if long { 60 } else { 4 } };
        loop {
            let x = d.doc(&mut self.r);
            if x.text().chars().count() < if long { 4000 } else { 400 } {
                return x;
            }
        }
    }
    fn edited(&mut self, path: &str, d: Doc) -> Ev {
        Ev::File { path: path.into(), content: Content::Doc(d), atomic: self.r.chance(0.5), keep: self.r.chance(0.25) }
    }
    fn ls_proj(&mut self, dir: &str, bad: f64, plugins: (usize, usize)) -> Proj {
        let mut p = ProjGen { plugins, docs: (1, 3), stmts: 2, extra: 0.2, ..Default::default() }.gen(&mut self.r, dir);
        let env = p.cfg.env();
        let ks: Vec<String> = p.docs.keys().cloned().collect();
        for k in ks {
            let b = if self.r.chance(0.6) { bad } else { 0.0 };
            let d = self.ls_doc(&env, b);
            p.docs.insert(k, d);
        }
        p
    }
    fn id(&mut self, n: u64) -> Value {
        match self.r.below(10) {
            0..=4 => json!(n),
            5 if self.r.chance(0.5) => json!(format!("{}", n)),
            // the digits of the one before
            5 => json!(format!("{}", n.saturating_sub(1))),
            6 if self.r.chance(0.2) => json!(""),
            6 => json!(format!("é-{}", n)),
            7 if self.r.chance(0.2) => json!(u64::MAX - n),
            7 if self.r.chance(0.2) => json!(i64::MIN + n as i64),
            7 if self.r.chance(0.2) => json!(n as f64 + 0.5),
            7 => json!(-(n as i64) - 1),
            8 => json!(9_007_199_254_740_000u64 + n),
            _ => json!(format!("{{\"id\":{}}}", n)),
        }
    }
    fn style(&mut self) -> u64 {
        if self.r.chance(0.3) {
            0
        } else {
            self.r.u64() >> 12
        }
    }
    /// A random well-formed session over some projects.
    fn mixed(&mut self, ps: &[Proj], n: usize, edits: bool) -> (Vec<Ev>, u64) {
        let mut ids = 0u64;
        let mut evs = vec![];
        let caps = self.r.chance(0.9);
        let st = self.style();
        evs.push(Ev::Msg { what: What::Initialize(caps), id: Some(json!(0)), style: st });
        if self.r.chance(0.8) {
            evs.push(ls::msg(What::Initialized, None));
        }
        let mut cur: Vec<Proj> = ps.to_vec();
        for _ in 0..n {
            let k = self.r.below(cur.len());
            let stems: Vec<String> = cur[k].docs.keys().cloned().collect();
            if stems.is_empty() {
                continue;
            }
            let stem = self.r.pick(&stems).clone();
            let path = cur[k].doc_path(&stem);
            ids += 1;
            let id = self.id(ids);
            let style = self.style();
            let (what, id) = match self.r.below(if edits { 14 } else { 12 }) {
                0 | 1 => (What::DidOpen(path), None),
                2 => (What::DidChange(path), None),
                3 | 4 => (What::DidSave(path), None),
                5 | 6 => (What::Tokens(path), Some(id)),
                7 | 8 => {
                    let t = self.trigger();
                    (What::Completion(path, t), Some(id))
                }
                9 => (What::Unsupported(self.unsupported()), Some(id)),
                10 => (What::Silent(self.silent()), None),
                11 => (What::Reply, Some(id)),
                12 => {
                    let env = cur[k].cfg.env();
                    let bad = if self.r.chance(0.5) { 0.3 } else { 0.0 };
                    let d = self.ls_doc(&env, bad);
                    evs.push(self.edited(&path, d));
                    continue;
                }
                _ => {
                    let c = self.edit_cfg(&cur[k].cfg.clone());
                    cur[k].cfg = c.clone();
                    evs.push(Ev::Cfg { dir: cur[k].dir.clone(), cfg: Some(c) });
                    continue;
                }
            };
            evs.push(Ev::Msg { what, id, style });
        }
        (evs, ids)
    }
    fn trigger(&mut self) -> Option<String> {
        match self.r.below(9) {
            0..=2 => Some("[".into()),
            3..=5 => Some("{".into()),
            6 => Some(self.r.pick(&["<", " ", "."]).to_string()),
            7 => Some(self.r.pick(&["]", "}", "x", "あ", "[["]).to_string()),
            _ => None,
        }
    }
    fn unsupported(&mut self) -> String {
        self.r.pick(&["textDocument/hover", "textDocument/definition", "workspace/symbol", "foo/bar", "", "textDocument/completio", "textDocument/semanticTokens/range", "completionItem/resolve", "textDocument/didSave", "textDocument/didOpen", "initialized", "メソッド", "$/unknown"]).to_string()
    }
    fn silent(&mut self) -> String {
        self.r.pick(&["$/cancelRequest", "$/setTrace", "workspace/didChangeConfiguration", "textDocument/didClose", "textDocument/willSave", "foo/bar", "", "textDocument/completion", "textDocument/semanticTokens/full", "textDocument/hover", "initialize", "workspace/didChangeWatchedFiles"]).to_string()
    }
    /// The configuration a user might change this one to.
    fn edit_cfg(&mut self, c: &Cfg) -> Cfg {
        let mut c = c.clone();
        let n = c.plugins.len();
        match self.r.below(7) {
            6 if n > 0 => {
                let i = self.r.below(n);
                self.nearly(&mut c.plugins[i]);
            }
            0 | 1 if n > 0 => {
                let i = self.r.below(n);
                c.plugins[i].version = self.r.pick(&["v0.1.0", "v0.2.0", "1.0", "v3"]).to_string();
            }
            2 if n > 0 => {
                let i = self.r.below(n);
                c.plugins.remove(i);
            }
            3 => c.backend = crate::proj::backend(&mut self.r, &c.backend),
            4 => ProjGen::default().set_hooks(&mut self.r, &mut c),
            _ => {
                let free: Vec<&str> = MODULES.iter().copied().filter(|m| !c.plugins.iter().any(|p| p.name == *m)).collect();
                if !free.is_empty() {
                    let m = *self.r.pick(&free);
                    c.plugins.push(gen_plugin(&mut self.r, m));
                }
            }
        }
        c
    }
    /// Everything any configuration in the session names must be served.
    fn ls_stage(&mut self, ps: &[Proj], se: Session, sc: Sched) -> Stage {
        let cwd = self.r.pick(&[P, "/home/user", "/", "/home/user/q", "/tmp"]).to_string();
        let cwd = if cwd == "/home/user/q" && !ps.iter().any(|p| p.dir == cwd) { P.to_string() } else { cwd };
        let mut s = Stage::new(&cwd, Cmd::Ls(se), Want::Ok, sc);
        s.proj = ps.to_vec();
        s
    }
    fn two_projs(&mut self, bad: f64) -> Vec<Proj> {
        let mut v = vec![self.ls_proj(P, bad, (0, 2))];
        if self.r.chance(0.4) {
            v.push(self.ls_proj("/home/user/q", bad, (0, 2)));
        }
        v
    }
    fn s01(&mut self) -> Gen {
        let ps = self.two_projs(0.2);
        let n = self.r.range(2, 12);
        let edits = self.r.chance(0.5);
        let (evs, _) = self.mixed(&ps, n, edits);
        let base = self.calm();
        let mut v = vec![];
        let k = self.r.range(2, 3);
        for i in 0..=k {
            let mut se = Session::new(evs.clone());
            se.seed = self.r.u64() >> 12;
            se.cut = match i {
                0 => Cut::PerMessage,
                1 => *self.r.pick(&[Cut::Whole, Cut::Bytes]),
                _ => self.cut(),
            };
            if i > 0 {
                se.early = self.r.chance(0.4);
                se.pause = *self.r.pick(&[0, 0, 100, 1_000_000]);
            }
            let mut sc = base.clone();
            if i > 0 {
                let h = sc.hash_seed;
                sc = self.sched();
                sc.hash_seed = h;
            }
            let mut s = self.ls_stage(&ps, se, sc);
            s.cwd = P.into();
            s.opt = i > 0;
            v.push(s);
        }
        ("chunks", v, "same")
    }
    fn settle(&mut self, evs: Vec<Ev>, p: f64) -> Vec<Ev> {
        let mut o = vec![];
        for e in evs {
            o.push(e);
            if self.r.chance(p) {
                o.push(Ev::Settle);
            }
        }
        o
    }
    fn s02(&mut self) -> Gen {
        let ps = self.two_projs(0.2);
        let n = self.r.range(2, 14);
        let (evs, _) = self.mixed(&ps, n, false);
        let p = *self.r.pick(&[0.0, 0.15, 0.4, 1.0]);
        let mut se = Session::new(self.settle(evs, p));
        se.cut = self.cut();
        se.seed = self.r.u64() >> 12;
        se.early = self.r.chance(0.5);
        se.tail = self.r.chance(0.4);
        se.pause = *self.r.pick(&[0, 0, 100, 2_000_000]);
        let sc = self.sched();
        let s = self.ls_stage(&ps, se, sc);
        ("rest", vec![s], "")
    }
    fn s03(&mut self) -> Gen {
        let ps = vec![self.ls_proj(P, 0.1, (0, 1))];
        let n = self.r.range(3, 25);
        let (mut evs, _) = self.mixed(&ps, n, false);
        // requests that cannot be carried out are answered all the same
        for i in 0..self.r.below(4) {
            let id = self.id(1000 + i as u64);
            let p = self.bad_params(true);
            let at = self.r.range(1, evs.len());
            let style = self.style();
            let what = match self.r.below(3) {
                0 => What::Tokens(self.r.pick(&["/home/user/none.[]", "/nowhere/docs/a.[]", "/home/user/p/docs"]).to_string()),
                _ => What::Bad(p.clone()),
            };
            if let What::Bad(BadMsg::Params(m, _)) = &what {
                // answered exactly once
                let _ = m;
            }
            evs.insert(at, Ev::Msg { what, id: Some(id), style });
        }
        let mut se = Session::new(evs);
        se.cut = self.cut();
        se.seed = self.r.u64() >> 12;
        let sc = self.sched();
        let s = self.ls_stage(&ps, se, sc);
        ("requests", vec![s], "")
    }
    fn bad_params(&mut self, request: bool) -> BadMsg {
        let m = if request { *self.r.pick(&["textDocument/completion", "textDocument/semanticTokens/full", "initialize"]) } else { *self.r.pick(&["textDocument/didOpen", "textDocument/didSave", "textDocument/didChange"]) };
        let u = |u: &str| json!({"textDocument": {"uri": u, "languageId": "b", "version": 1, "text": ""}, "position": {"line": 0, "character": 0}, "contentChanges": []});
        let p = match self.r.below(10) {
            0 => None,
            1 => Some(Value::Null),
            2 => Some(json!([])),
            3 => Some(json!(5)),
            4 => Some(json!({"textDocument": 3})),
            5 => Some(json!({"textDocument": {"uri": 7}})),
            6 => Some(u("not a uri")),
            7 => Some(u("untitled:Untitled-1")),
            8 => Some(u("http://example.com/a.[]")),
            _ => Some(u("file:///")),
        };
        // what an initialize without capabilities means is up to the server
        BadMsg::Params(m.into(), p)
    }
    fn raw(&mut self) -> Vec<u8> {
        match self.r.below(14) {
            0 => b"{".to_vec(),
            1 => b"".to_vec(),
            2 => b"{\"jsonrpc\":\"2.0\",\"method\":".to_vec(),
            3 => b"{\"jsonrpc\":\"2.0\",\"method\":\"initialized\",\"params\":{\"a\":\"\xff\xfe\"}}".to_vec(),
            4 => b"[]".to_vec(),
            5 => b"17".to_vec(),
            6 => b"null".to_vec(),
            7 => b"\"text\"".to_vec(),
            8 => b"{\"jsonrpc\":\"2.0\"}".to_vec(),
            9 => b"{\"jsonrpc\":\"2.0\",\"method\":5}".to_vec(),
            10 => b"{\"jsonrpc\":\"2.0\",\"id\":null,\"method\":\"foo\"}".to_vec(),
            11 => vec![0xe3, 0x81],
            12 => "{\"jsonrpc\":\"2.0\",\"method\":\"x\"} trailing".as_bytes().to_vec(),
            _ => vec![b'['; self.r.range(100, 3000)],
        }
    }
    fn s04(&mut self) -> Gen {
        let mut ps = vec![self.ls_proj(P, 0.1, (1, 2))];
        ps.push(self.ls_proj("/home/user/q", 0.1, (1, 2)));
        // a project of which something is wrong, plugins of its own
        let mut w = self.ls_proj("/home/user/w", 0.0, (1, 3));
        for m in w.cfg.plugins.iter_mut() {
            m.owner = "wrong".into();
        }
        let n = self.r.range(4, 14);
        let edits = self.r.chance(0.3);
        let (evs, _) = self.mixed(&ps, n, edits);
        let wdoc = w.docs.keys().next().map(|s| w.doc_path(s)).unwrap();
        let urls = w.cfg.urls();
        let victim = self.r.pick(&urls).clone();
        let mut se = Session::new(vec![]);
        let mut net = vec![];
        let mut reg = std::collections::BTreeMap::new();
        let mut pre = vec![];
        match self.r.below(5) {
            0 | 1 => {
                se.dead.push(victim.clone());
                if self.r.chance(0.5) {
                    let act = match self.r.below(4) {
                        2 => NetAct::Silent(2),
                        3 => NetAct::Stall(self.r.below(9000) as u64),
                        0 => NetAct::Cut(self.r.below(9000) as u64, self.r.below(3) as u8),
                        _ => NetAct::Status(*self.r.pick(&ERROR_STATUS)),
                    };
                    net.push(NetRule { url: victim.clone(), nth: None, act });
                } else {
                    reg.insert(victim.clone(), RegEntry::Missing);
                }
            }
            2 | 3 => {
                se.broken.push(victim.clone());
                reg.insert(victim.clone(), RegEntry::Broken(*self.r.pick(&[Broken::Garbage, Broken::Html, Broken::Empty, Broken::Truncated, Broken::NoMetadata, Broken::BadMetadata])));
            }
            _ => {}
        }
        // unreadable documents
        let odd = format!("{}/docs/odd.[]", P);
        match self.r.below(4) {
            0 => {}
            1 => pre.push(edit(&odd, Some(b"a \xff\xfe b"))),
            2 => pre.push(Edit { path: odd.clone(), data: Some(b"abc".to_vec()), dir: false, mode: 0o200 }),
            _ => pre.push(Edit { path: odd.clone(), data: None, dir: true, mode: 0 }),
        }
        se.odd.push(odd.clone());
        let tails = ["]", "a}", "\n\na", "[std.em a]]", "<", "{", "\\", ".", ",", "[", "[.", "[,]", "[a.b.c]", "[a", "<m.x [n.y>]", "[]", "{}", "[ ]", "\u{0}", "\u{feff}a", "a\r\nb", "\r"];
        let stray = format!("{}/docs/stray.[]", P);
        let mut t = self.r.pick(&tails).to_string();
        if self.r.chance(0.1) {
            // so deep that it does not fit on the stack
            let o = *self.r.pick(&["[", "{", "<", "[a", "{a.b ", "<["]);
            t = o.repeat(self.r.range(900, 2400) / o.len());
        }
        pre.push(edit(&stray, Some(t.as_bytes())));
        se.odd.push(stray.clone());
        // put bad things in between
        let mut out: Vec<Ev> = vec![];
        let mut ids = 5000u64;
        for (i, e) in evs.into_iter().enumerate() {
            out.push(e);
            if i == 0 && self.r.chance(0.8) {
                continue;
            }
            while self.r.chance(0.45) {
                ids += 1;
                let style = self.style();
                let id = self.id(ids);
                let (what, id) = match self.r.below(11) {
                    0 | 1 => (What::Bad(BadMsg::Raw(self.raw())), None),
                    2 => (What::Bad(self.bad_params(true)), Some(id)),
                    3 => (What::Bad(self.bad_params(false)), None),
                    4 => (What::DidSave(self.r.pick(&[&odd, &stray]).to_string()), None),
                    5 => (What::Tokens(self.r.pick(&[&odd, &stray]).to_string()), Some(id)),
                    6 => (What::DidOpen(wdoc.clone()), None),
                    7 => {
                        out.push(Ev::Cfg { dir: w.dir.clone(), cfg: if self.r.chance(0.6) { None } else { Some(w.cfg.clone()) } });
                        (What::DidOpen(wdoc.clone()), None)
                    }
                    8 => (What::DidOpen(self.r.pick(&["/nowhere/docs/a.[]", "/a.[]", "/home/user/docs/x.[]", "/x/y/z/docs/main.[]"]).to_string()), None),
                    9 => (What::Completion(wdoc.clone(), Some("[".into())), Some(id)),
                    _ => (What::Tokens(self.r.pick(&["/nowhere/docs/a.[]", "/home/user/p/docs", "/home/user/p/Brack.toml/x"]).to_string()), Some(id)),
                };
                out.push(Ev::Msg { what, id, style });
                if self.r.chance(0.2) {
                    out.push(Ev::Settle);
                }
            }
        }
        se.evs = out;
        se.cut = self.cut();
        se.seed = self.r.u64() >> 12;
        ps.push(w);
        let sc = self.maybe_calm();
        let mut s = self.ls_stage(&ps, se, sc);
        s.net = net;
        s.reg = reg;
        s.pre = pre;
        ("bad-events", vec![s], "")
    }
    fn s05(&mut self) -> Gen {
        let ps = self.two_projs(0.2);
        let n = self.r.range(3, 14);
        let (evs, _) = self.mixed(&ps, n, false);
        let mut se = Session::new(evs);
        se.cut = self.cut();
        se.seed = self.r.u64() >> 12;
        let mut sc = self.sched();
        sc.short = *self.r.pick(&[0.2, 0.6, 0.95]);
        sc.eintr = *self.r.pick(&[0.0, 0.2, 0.6]);
        let mut out = OutPlan::default();
        let mut kind = "short-writes";
        if self.r.chance(0.4) {
            let m = *self.r.pick(&[300, 4000, 12000]);
            out.limit = Some((self.r.below(m) as u64, *self.r.pick(&[libc::EPIPE, libc::EPIPE, libc::EIO])));
            // something is always written, and more than the limit
            se.hold = false;
            kind = "stdout-closed";
            for i in 0..60 {
                se.evs.push(ls::msg(What::Unsupported("foo/bar".into()), Some(json!(format!("last{}", i)))));
            }
            out.limit = out.limit.map(|(a, b)| (a.min(4500), b));
            se.hold = self.r.chance(0.5);
        }
        if self.r.chance(0.5) {
            out.stall = *self.r.pick(&[1, 1000, 3_000_000]);
        }
        let mut s = self.ls_stage(&ps, se, sc);
        if out.limit.is_some() {
            s.want = Want::IfOk;
        }
        s.out = out;
        (kind, vec![s], "")
    }
    fn s06(&mut self) -> Gen {
        let mut ps = self.two_projs(0.35);
        let caps = self.r.chance(0.88);
        let mut evs = vec![];
        let style = self.style();
        if self.r.chance(0.97) {
            evs.push(Ev::Msg { what: What::Initialize(caps), id: Some(json!("init")), style });
        }
        for _ in 0..self.r.range(2, 10) {
            let k = self.r.below(ps.len());
            let stems: Vec<String> = ps[k].docs.keys().cloned().collect();
            let stem = self.r.pick(&stems).clone();
            let path = ps[k].doc_path(&stem);
            let style = self.style();
            match self.r.below(10) {
                0 => evs.push(Ev::Msg { what: What::DidOpen(path), id: None, style }),
                1 => evs.push(Ev::Msg { what: What::DidChange(path), id: None, style }),
                2..=4 => {
                    let env = ps[k].cfg.env();
                    let bad = *self.r.pick(&[0.0, 0.2, 0.5]);
                    let d = self.ls_doc(&env, bad);
                    let other = d.same_length(&mut self.r);
                    evs.push(self.edited(&path, d));
                    if self.r.chance(0.8) {
                        evs.push(Ev::Msg { what: What::DidSave(path.clone()), id: None, style });
                    }
                    if let Some(d) = other {
                        if self.r.chance(0.4) {
                            evs.push(self.edited(&path, d));
                            evs.push(Ev::Msg { what: What::DidSave(path), id: None, style });
                        }
                    }
                }
                _ => evs.push(Ev::Msg { what: What::DidSave(path), id: None, style }),
            }
        }
        let mut se = Session::new(evs);
        se.cut = self.cut();
        se.seed = self.r.u64() >> 12;
        let sc = self.sched();
        for p in ps.iter_mut() {
            p.cfg.no_table = true;
        }
        let s = self.ls_stage(&ps, se, sc);
        ("saves", vec![s], "")
    }
    fn s07(&mut self) -> Gen {
        let ps = self.two_projs(0.2);
        let style = self.style();
        let mut evs = vec![Ev::Msg { what: What::Initialize(true), id: Some(json!("init")), style }];
        for i in 0..self.r.range(2, 10) {
            let k = self.r.below(ps.len());
            let stems: Vec<String> = ps[k].docs.keys().cloned().collect();
            let stem = self.r.pick(&stems).clone();
            let path = ps[k].doc_path(&stem);
            let style = self.style();
            match self.r.below(10) {
                0 => evs.push(Ev::Msg { what: What::DidOpen(path), id: None, style }),
                1 => evs.push(Ev::Msg { what: What::DidChange(path), id: None, style }),
                2..=5 => {
                    let env = ps[k].cfg.env();
                    let bad = *self.r.pick(&[0.0, 0.0, 0.2]);
                    let d = self.ls_doc(&env, bad);
                    let other = d.same_length(&mut self.r);
                    evs.push(self.edited(&path, d));
                    evs.push(Ev::Msg { what: What::Tokens(path.clone()), id: Some(json!(i)), style });
                    if let Some(d) = other {
                        if self.r.chance(0.4) {
                            evs.push(self.edited(&path, d));
                            evs.push(Ev::Msg { what: What::Tokens(path), id: Some(json!(i + 100)), style });
                        }
                    }
                }
                _ => evs.push(Ev::Msg { what: What::Tokens(path), id: Some(json!(i)), style }),
            }
        }
        let mut se = Session::new(evs);
        se.cut = self.cut();
        se.seed = self.r.u64() >> 12;
        let sc = self.sched();
        let s = self.ls_stage(&ps, se, sc);
        ("tokens", vec![s], "")
    }
    fn s08(&mut self) -> Gen {
        let mut ps = vec![self.ls_proj(P, 0.0, (0, 4))];
        if self.r.chance(0.75) {
            ps.push(self.ls_proj("/home/user/q", 0.0, (0, 3)));
        }
        if self.r.chance(0.2) {
            // a project inside the other
            ps.push(self.ls_proj("/home/user/p/nested", 0.0, (1, 2)));
        }
        let mut cur = ps.clone();
        let mut evs = vec![ls::msg(What::Initialize(true), Some(json!("init")))];
        for i in 0..self.r.range(3, 12) {
            let k = self.r.below(cur.len());
            let stems: Vec<String> = cur[k].docs.keys().cloned().collect();
            let stem = self.r.pick(&stems).clone();
            let path = cur[k].doc_path(&stem);
            let style = self.style();
            match self.r.below(10) {
                0..=3 => evs.push(Ev::Msg { what: What::DidOpen(path), id: None, style }),
                4 | 5 => {
                    let c = self.edit_cfg(&cur[k].cfg.clone());
                    cur[k].cfg = c.clone();
                    evs.push(Ev::Cfg { dir: cur[k].dir.clone(), cfg: Some(c) });
                    if self.r.chance(0.5) {
                        evs.push(Ev::Msg { what: What::DidOpen(path), id: None, style });
                    }
                }
                _ => {
                    let t = self.trigger();
                    evs.push(Ev::Msg { what: What::Completion(path, t), id: Some(json!(i)), style });
                }
            }
        }
        let k = self.r.below(cur.len());
        if let Some(s) = cur[k].docs.keys().next() {
            let p = cur[k].doc_path(s);
            evs.push(ls::msg(What::DidOpen(p.clone()), None));
            evs.push(ls::msg(What::Completion(p.clone(), Some("[".into())), Some(json!("last"))));
            evs.push(ls::msg(What::Completion(p, Some("{".into())), Some(json!("last2"))));
        }
        let mut se = Session::new(evs);
        se.cut = if self.r.chance(0.5) { Cut::PerMessage } else { self.cut() };
        se.seed = self.r.u64() >> 12;
        let sc = self.sched();
        let mut s = self.ls_stage(&ps, se, sc);
        let urls: BTreeSet<String> = ps.iter().flat_map(|p| p.cfg.urls()).collect();
        for u in urls {
            if self.r.chance(0.3) {
                s.net.push(NetRule { url: u, nth: None, act: NetAct::Delay(self.r.below(3_000_000) as u64) });
            }
        }
        ("projects", vec![s], "")
    }
}

pub fn spec_of(m: &PCfg) -> String {
    format!("github:{}/{}@{}", m.owner, m.repo, m.version)
}
/// The project after adding this plugin.
pub fn with(p: &Proj, m: &PCfg) -> Proj {
    let mut q = p.clone();
    q.cfg.plugins.push(m.clone());
    q
}

/// Addresses one might read from a malformed plugin specification.
fn careless(spec: &str) -> BTreeSet<String> {
    let mut o = BTreeSet::new();
    let rest: Vec<&str> = vec![spec, spec.split_once(':').map_or("", |x| x.1), spec.rsplit_once(':').map_or("", |x| x.1), spec.split(':').nth(1).unwrap_or("")];
    for r in rest {
        for (path, v) in [r.split_once('@'), r.rsplit_once('@'), Some((r, "")), Some((r, "latest")), Some((r, "main"))].into_iter().flatten() {
            let v1 = v.split('@').next().unwrap_or("").to_string();
            for v in [v.to_string(), v1, v.trim_end_matches(':').to_string()] {
                let c: Vec<&str> = path.split('/').collect();
                let mut pairs = vec![];
                if c.len() > 1 {
                    pairs.push((c[0], c[1].to_string()));
                    pairs.push((c[0], c[c.len() - 1].to_string()));
                    pairs.push((c[0], c[1..].join("/")));
                    pairs.push((c[c.len() - 2], c[c.len() - 1].to_string()));
                } else {
                    pairs.push(("", path.to_string()));
                    pairs.push((path, path.to_string()));
                }
                for (a, b) in pairs {
                    o.insert(format!("github.com/{}/{}/releases/download/{}/{}.wasm", a, b, v, b.rsplit('/').next().unwrap_or("")));
                }
            }
        }
    }
    o
}
