//! Projects: a configuration, documents, and the registry that serves its plugins.
use crate::doc::*;
use crate::plug::{self, Broken, Tag};
use crate::rng::Rng;
use crate::spec::Registry;
use crate::vfs::Vfs;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct PCfg {
    pub name: String,
    pub owner: String,
    pub repo: String,
    pub version: String,
    /// document, stmt, expr, text: None = key absent
    #[serde(default)]
    pub hooks: [Option<bool>; 4],
}
impl PCfg {
    pub fn url(&self, backend: &str) -> String {
        let u = format!("github.com/{}/{}/releases/download/{}/{}.{}.wasm", self.owner, self.repo, self.version, self.name, backend);
        // as a client normalises it
        let mut v: Vec<&str> = vec![];
        for c in u.split('/') {
            if c == ".." {
                v.pop();
            } else {
                v.push(c);
            }
        }
        v.join("/")
    }
    pub fn tag(&self, backend: &str) -> Tag {
        Tag::of(&self.owner, &self.repo, &self.version, &format!("{}.{}", self.name, backend))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Cfg {
    pub name: String,
    pub version: String,
    pub backend: String,
    pub authors: Vec<String>,
    pub plugins: Vec<PCfg>,
    /// No [plugins] table at all when empty
    #[serde(default)]
    pub no_table: bool,
    /// how it is written down, see toml()
    #[serde(default)]
    pub style: u32,
}
impl Cfg {
    /// Style bits: 1 comments, 2 unknown keys, 4 inline tables, 8 other order,
    /// 16 CRLF, 32 literal strings, 64 quoted keys, 128 [document] last.
    pub fn toml(&self) -> String {
        let st = |b: u32| self.style & b != 0;
        let q = |s: &str| if st(32) && !s.contains(|c: char| c == '\'' || c.is_control()) { format!("'{}'", s) } else { serde_json::to_string(s).unwrap() };
        let mut d = vec![
            format!("name = {}", q(&self.name)),
            format!("version = {}", q(&self.version)),
            format!("backend = {}", q(&self.backend)),
            format!("authors = [{}]", self.authors.iter().map(|a| q(a)).collect::<Vec<_>>().join(if st(1) { ",\n  " } else { ", " })),
        ];
        if st(2) {
            d.push("title = \"A [b.c] title\"".into());
            d.push("since = 2024-01-31T10:00:00Z".into());
            d.push("weights = [1, 2.5]".into());
        }
        if st(8) {
            d.reverse();
        }
        let document = format!("{}[document]\n{}\n", if st(1) { "# what it is\n" } else { "" }, d.join("\n"));
        let mut o = String::new();
        if !self.plugins.is_empty() || !self.no_table {
            o += "\n[plugins]\n";
        }
        for p in &self.plugins {
            let key = if st(64) || !p.name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-') { serde_json::to_string(&p.name).unwrap() } else { p.name.clone() };
            let mut l = vec!["schema = \"github\"".to_string(), format!("owner = {}", q(&p.owner)), format!("repo = {}", q(&p.repo)), format!("version = {}", q(&p.version))];
            for (k, v) in HOOKS.iter().zip(p.hooks.iter()) {
                if let Some(v) = v {
                    l.push(format!("{}_hook = {}", k, v));
                }
            }
            if st(8) {
                l.reverse();
            }
            if st(4) {
                o += &format!("{} = {{ {} }}\n", key, l.join(", "));
            } else {
                o += &format!("\n[plugins.{}]{}\n{}\n", key, if st(1) { " # a plugin" } else { "" }, l.join("\n"));
            }
        }
        let mut o = if st(128) { format!("{}\n{}", o, document) } else { document + &o };
        if st(2) {
            o += "\n[tool.editor]\nwidth = 80\nnames = [\"x\", \"y\"]\n\n[[tool.list]]\na = true\n\n[[tool.list]]\na = false\n";
        }
        if st(16) {
            o = o.replace('\n', "\r\n");
        }
        o
    }
    pub fn env(&self) -> Env {
        let mut e = Env::default();
        for p in &self.plugins {
            e.modules.insert(p.name.clone(), p.tag(&self.backend));
            for h in 0..4 {
                if p.hooks[h] == Some(true) {
                    e.hooks[h] = Some(p.name.clone());
                }
            }
        }
        e
    }
    /// All plugins this configuration needs, as served.
    pub fn serve(&self, reg: &mut Registry) {
        for p in &self.plugins {
            reg.insert(p.url(&self.backend), plug::bytes(&p.tag(&self.backend)));
        }
    }
    /// Do two plugins provide the same hook?
    pub fn contested(&self) -> bool {
        (0..4).any(|h| self.plugins.iter().filter(|p| p.hooks[h] == Some(true)).count() > 1)
    }
    pub fn urls(&self) -> Vec<String> {
        self.plugins.iter().map(|p| p.url(&self.backend)).collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Proj {
    pub dir: String,
    pub cfg: Cfg,
    pub docs: BTreeMap<String, Doc>,
    /// Other files, by path relative to the project.
    #[serde(default)]
    pub extra: BTreeMap<String, String>,
}
impl Proj {
    pub fn write(&self, v: &mut Vfs) {
        v.mkdirs(&format!("{}/docs", self.dir));
        let t = 1_000_000_000;
        v.put(&format!("{}/Brack.toml", self.dir), self.cfg.toml().as_bytes(), t);
        for (s, d) in &self.docs {
            v.put(&self.doc_path(s), d.text().as_bytes(), t);
        }
        for (p, c) in &self.extra {
            v.put(&format!("{}/{}", self.dir, p), c.as_bytes(), t);
        }
    }
    pub fn doc_path(&self, stem: &str) -> String {
        format!("{}/docs/{}.[]", self.dir, stem)
    }
    /// What decides about the content of out/.
    pub fn content(&self) -> String {
        let mut p = self.cfg.plugins.clone();
        p.sort_by(|a, b| a.name.cmp(&b.name));
        serde_json::to_string(&(p, &self.cfg.backend, &self.docs)).unwrap()
    }
    /// out/<stem>.<backend> -> content, or why it cannot be built
    pub fn expected(&self) -> Result<BTreeMap<String, Vec<u8>>, String> {
        let e = self.cfg.env();
        let mut o = BTreeMap::new();
        for (s, d) in &self.docs {
            o.insert(format!("{}/out/{}.{}", self.dir, s, self.cfg.backend), e.compile(d).map_err(|x| format!("{}: {}", s, x))?.into_bytes());
        }
        Ok(o)
    }
    /// Is out/ what a fresh build gives? Returns what is wrong.
    pub fn check_out(&self, v: &Vfs) -> Result<(), String> {
        for (p, want) in self.expected().map_err(|e| format!("harness: {}", e))? {
            match v.read(&p) {
                None => return Err(format!("{} is missing", p)),
                Some(got) if uncounted(got) != want => return Err(format!("{} is {:?}, expected {:?}", p, short(got), short(&want))),
                _ => {}
            }
        }
        Ok(())
    }
}
pub fn short(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 300 {
        format!("{}... ({} bytes)", s.chars().take(300).collect::<String>(), b.len())
    } else {
        s.to_string()
    }
}

pub const MODULES: [&str; 8] = ["std", "fig", "math", "note", "tbl", "x_y2", "h1", "a-b"];
const OWNERS: [&str; 3] = ["alice", "bob-x", "brack-lang"];
const REPOS: [&str; 3] = ["core", "brack.std", "x_y"];
const VERSIONS: [&str; 3] = ["v0.1.0", "v0.2.0", "1.0"];
const BACKENDS: [&str; 3] = ["html", "tex", "md"];
const STEMS: [&str; 8] = ["main", "intro", "a.b", "日本", "ch 1", "z", "x-y", "README"];

pub struct ProjGen {
    pub plugins: (usize, usize),
    pub docs: (usize, usize),
    pub hooks: f64,
    pub depth: usize,
    pub stmts: usize,
    pub extra: f64,
}
impl Default for ProjGen {
    fn default() -> Self {
        ProjGen { plugins: (1, 3), docs: (1, 3), hooks: 0.3, depth: 2, stmts: 3, extra: 0.4 }
    }
}
/// Another backend, sometimes one that looks much the same.
pub fn backend(r: &mut Rng, b: &str) -> String {
    match r.below(10) {
        0 if b.len() > 1 => b[..b.len() - 1].into(),
        1 if b.len() > 1 => b[1..].into(),
        2 if b.len() < 12 => format!("{}{}", b, r.pick(&["x", "5", "l"])),
        3 if b.len() < 12 => format!("x{}", b),
        4 => {
            if b.chars().any(|c| c.is_ascii_uppercase()) {
                b.to_lowercase()
            } else {
                b.to_uppercase()
            }
        }
        _ => r.pick(&BACKENDS).to_string(),
    }
}
pub fn gen_plugin(r: &mut Rng, name: &str) -> PCfg {
    PCfg { name: name.into(), owner: r.pick(&OWNERS).to_string(), repo: r.pick(&REPOS).to_string(), version: r.pick(&VERSIONS).to_string(), hooks: [None; 4] }
}
impl ProjGen {
    pub fn cfg(&self, r: &mut Rng) -> Cfg {
        let mut names: Vec<&str> = MODULES.to_vec();
        r.shuffle(&mut names);
        let n = r.range(self.plugins.0, self.plugins.1);
        let mut c = Cfg {
            name: r.pick(&["doc", "my document", "本", "a\"b"]).to_string(),
            version: r.pick(&["0.1.0", "2"]).to_string(),
            backend: r.pick(&BACKENDS).to_string(),
            authors: r.pick(&[vec![], vec!["me <me@x>".to_string()], vec!["a".to_string(), "b".to_string()]]).clone(),
            plugins: names[..n].iter().map(|m| gen_plugin(r, m)).collect(),
            no_table: r.chance(0.5),
            style: if r.chance(0.5) { 0 } else { (r.u64() & r.u64() & 255) as u32 },
        };
        if self.plugins.1 > 3 && r.chance(0.025) {
            // many
            for k in 0..r.range(6, 14) {
                c.plugins.push(gen_plugin(r, &format!("m{}", k)));
            }
        }
        let n = c.plugins.len();
        // often two modules from one repository and version
        if n > 1 && r.chance(0.4) {
            let p = c.plugins[0].clone();
            c.plugins[1].owner = p.owner;
            c.plugins[1].repo = p.repo;
            c.plugins[1].version = p.version;
        }
        // sometimes two that read the same when their parts are put together
        if n > 1 && r.chance(0.12) {
            let mut p = c.plugins[0].clone();
            let front = r.chance(0.5);
            let part = match r.below(4) {
                0 => &mut p.owner,
                1 => &mut p.version,
                2 => &mut p.repo,
                _ => {
                    p.name = p.name.to_uppercase();
                    &mut p.repo
                }
            };
            if p.name == c.plugins[0].name && part.len() > 1 {
                if front {
                    let x = part.remove(0);
                    p.name.push(x);
                } else {
                    let x = part.pop().unwrap();
                    p.name.insert(0, x);
                }
            }
            let fits = |s: &str| s.chars().next().map_or(false, |x| x.is_ascii_alphanumeric()) && s.trim_end_matches('.') == s;
            let plain = p.name.chars().all(|x| x.is_ascii_alphanumeric() || x == '_' || x == '-');
            if plain && fits(&p.owner) && fits(&p.repo) && fits(&p.version) && !c.plugins.iter().any(|q| q.name == p.name) {
                p.hooks = [None; 4];
                c.plugins[1] = p;
            }
        }
        self.set_hooks(r, &mut c);
        c
    }
    pub fn set_hooks(&self, r: &mut Rng, c: &mut Cfg) {
        for p in c.plugins.iter_mut() {
            p.hooks = [None; 4];
        }
        if c.plugins.is_empty() {
            return;
        }
        for h in 0..4 {
            if r.chance(self.hooks) {
                let i = r.below(c.plugins.len());
                c.plugins[i].hooks[h] = Some(true);
            }
            if r.chance(0.1) {
                let i = r.below(c.plugins.len());
                if c.plugins[i].hooks[h].is_none() {
                    c.plugins[i].hooks[h] = Some(false);
                }
            }
        }
    }
    pub fn doc(&self, r: &mut Rng, env: &Env) -> Doc {
        let hooked = env.hooks.iter().filter(|h| h.is_some()).count();
        let g = DocGen { env, depth: if hooked > 1 { self.depth.min(1) } else { self.depth }, bad: 0.0, wrong: 0.0, max_stmts: self.stmts };
        let mut d = g.doc(r);
        if r.chance(0.08) {
            g.macros(r, &mut d);
        }
        d
    }
    pub fn gen(&self, r: &mut Rng, dir: &str) -> Proj {
        let cfg = self.cfg(r);
        let env = cfg.env();
        let mut stems: Vec<&str> = STEMS.to_vec();
        r.shuffle(&mut stems);
        let n = r.range(self.docs.0, self.docs.1);
        let mut docs: BTreeMap<String, Doc> = stems[..n].iter().map(|s| (s.to_string(), self.doc(r, &env))).collect();
        if self.docs.1 > 2 && r.chance(0.025) {
            // many
            let g = DocGen { env: &env, depth: 0, bad: 0.0, wrong: 0.0, max_stmts: 1 };
            for k in 0..r.range(8, 40) {
                docs.insert(format!("ch{}", k), g.doc(r));
            }
        }
        let mut extra = BTreeMap::new();
        if r.chance(self.extra) {
            for _ in 0..r.range(1, 3) {
                let p = *r.pick(&["docs/notes.md", "docs/img/a.png", "docs/main.[]~", "docs/x.txt", "docs/Makefile", ".gitignore", "docs/old/main.md", "docs/.#main", "docs/main[]", "docs/list[]", "docs/.[]", "docs/x.[].bak", "docs/[]", "docs/caf\u{10fee9}.jpg", "docs/\u{10feff}", "docs/x\u{10fe80}/y"]);
                extra.insert(p.to_string(), format!("other {}", r.below(100)));
            }
        }
        Proj { dir: dir.into(), cfg, docs, extra }
    }
}

/// Damaged plugin bytes for a tag.
pub fn broken(t: &Tag, b: Broken) -> Vec<u8> {
    t.wasm_kind(b)
}
impl Proj {
    /// Bring the project directory from one state to another, touching only what differs.
    pub fn sync(&self, v: &mut Vfs, old: Option<&Proj>, t: u64) {
        v.mkdirs(&format!("{}/docs", self.dir));
        let mut put = |v: &mut Vfs, p: String, c: &[u8]| {
            if v.read(&p) != Some(c) {
                v.put(&p, c, t)
            }
        };
        put(v, format!("{}/Brack.toml", self.dir), self.cfg.toml().as_bytes());
        for (s, d) in &self.docs {
            put(v, self.doc_path(s), d.text().as_bytes());
        }
        for (p, c) in &self.extra {
            put(v, format!("{}/{}", self.dir, p), c.as_bytes());
        }
        if let Some(o) = old {
            let mut gone: Vec<String> = o.docs.keys().filter(|s| !self.docs.contains_key(*s)).map(|s| self.doc_path(s)).collect();
            gone.extend(o.extra.keys().filter(|e| !self.extra.contains_key(*e)).map(|e| format!("{}/{}", self.dir, e)));
            for g in gone {
                for op in v.edit_ops(&g, None, t, false) {
                    v.apply(&op);
                }
            }
        }
    }
    /// Nothing else is in out/.
    pub fn check_exact(&self, v: &Vfs) -> Result<(), String> {
        let want = self.expected().map_err(|e| format!("harness: {}", e))?;
        let pre = format!("{}/out/", self.dir);
        for p in v.tree().keys() {
            if p.starts_with(&pre) && !want.contains_key(p) {
                return Err(format!("{} should not be there", p));
            }
        }
        Ok(())
    }
    /// A statement naming every module, so that each plugin's bytes show.
    pub fn cover(&mut self) {
        let mods: Vec<String> = self.cfg.plugins.iter().map(|p| p.name.clone()).collect();
        if let Some((_, d)) = self.docs.iter_mut().next() {
            d.stmts.insert(0, vec![mods.iter().map(|m| Item::Cmd(Cmd { open: '[', module: m.clone(), name: "now".into(), args: vec![], pad: 0, br: None })).collect()]);
            if mods.is_empty() {
                d.stmts.remove(0);
            }
        }
    }
}
