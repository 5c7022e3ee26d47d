//! The simulated disk: an in-memory file tree changed only through `FsOp`s, so
//! that the parent can rebuild it from a run's log, and a durability model that
//! gives the trees a power loss can leave behind.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub mod hex {
    use serde::{Deserialize, Deserializer, Serializer};
    // Printable text stays readable in replay files ("t:..."), the rest is hex ("x:...").
    pub fn serialize<S: Serializer>(b: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        if let Ok(t) = std::str::from_utf8(b) {
            return s.serialize_str(&format!("t:{}", t));
        }
        let mut o = String::with_capacity(b.len() * 2 + 2);
        o.push_str("x:");
        for x in b {
            o.push(char::from_digit((*x >> 4) as u32, 16).unwrap());
            o.push(char::from_digit((*x & 15) as u32, 16).unwrap());
        }
        s.serialize_str(&o)
    }
    pub fn deserialize<'d, D: Deserializer<'d>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(t) = s.strip_prefix("t:") {
            return Ok(t.as_bytes().to_vec());
        }
        let h = s.strip_prefix("x:").unwrap_or(&s).as_bytes();
        Ok(h.chunks(2)
            .map(|c| {
                let v = |x: u8| (x as char).to_digit(16).unwrap_or(0) as u8;
                v(c[0]) << 4 | v(*c.get(1).unwrap_or(&b'0'))
            })
            .collect())
    }
}

pub type Ino = u64;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FsOp {
    Create { dir: Ino, name: String, ino: Ino, t: u64 },
    Mkdir { dir: Ino, name: String, ino: Ino, t: u64 },
    Write {
        ino: Ino,
        off: u64,
        #[serde(with = "hex")]
        data: Vec<u8>,
        t: u64,
    },
    Trunc { ino: Ino, len: u64, t: u64 },
    Unlink { dir: Ino, name: String },
    Rmdir { dir: Ino, name: String },
    Rename { dir: Ino, name: String, dir2: Ino, name2: String },
    Link { dir: Ino, name: String, ino: Ino },
    Fsync { ino: Ino },
    Utime { ino: Ino, t: u64 },
    Chmod { ino: Ino, mode: u32 },
}

#[derive(Clone, Debug)]
pub struct Inode {
    pub dir: Option<BTreeMap<String, Ino>>,
    pub data: Vec<u8>,
    pub mtime: u64,
    pub mode: u32,
}

#[derive(Clone, Debug)]
pub struct Vfs {
    pub nodes: BTreeMap<Ino, Inode>,
    pub next: Ino,
}

pub const ROOT: Ino = 1;

impl Default for Vfs {
    fn default() -> Self {
        let mut nodes = BTreeMap::new();
        nodes.insert(ROOT, Inode { dir: Some(BTreeMap::new()), data: vec![], mtime: 0, mode: 0o755 });
        Vfs { nodes, next: 2 }
    }
}

impl Vfs {
    pub fn apply(&mut self, op: &FsOp) {
        match op {
            FsOp::Create { dir, name, ino, t } | FsOp::Mkdir { dir, name, ino, t } => {
                let isdir = matches!(op, FsOp::Mkdir { .. });
                self.nodes.insert(
                    *ino,
                    Inode { dir: if isdir { Some(BTreeMap::new()) } else { None }, data: vec![], mtime: *t, mode: if isdir { 0o755 } else { 0o644 } },
                );
                self.next = self.next.max(*ino + 1);
                self.ent(*dir, |e| {
                    e.insert(name.clone(), *ino);
                });
            }
            FsOp::Write { ino, off, data, t } => {
                if let Some(n) = self.nodes.get_mut(ino) {
                    let end = *off as usize + data.len();
                    if n.data.len() < end {
                        n.data.resize(end, 0);
                    }
                    n.data[*off as usize..end].copy_from_slice(data);
                    n.mtime = *t;
                }
            }
            FsOp::Trunc { ino, len, t } => {
                if let Some(n) = self.nodes.get_mut(ino) {
                    n.data.resize(*len as usize, 0);
                    n.mtime = *t;
                }
            }
            FsOp::Unlink { dir, name } | FsOp::Rmdir { dir, name } => {
                // inodes are kept: an open descriptor may still refer to them
                self.ent(*dir, |e| {
                    e.remove(name);
                });
            }
            FsOp::Rename { dir, name, dir2, name2 } => {
                let ino = self.nodes.get(dir).and_then(|n| n.dir.as_ref()).and_then(|e| e.get(name)).copied();
                if let Some(ino) = ino {
                    self.ent(*dir, |e| {
                        e.remove(name);
                    });
                    self.ent(*dir2, |e| {
                        e.insert(name2.clone(), ino);
                    });
                }
            }
            FsOp::Link { dir, name, ino } => self.ent(*dir, |e| {
                e.insert(name.clone(), *ino);
            }),
            FsOp::Fsync { .. } => {}
            FsOp::Utime { ino, t } => {
                if let Some(n) = self.nodes.get_mut(ino) {
                    n.mtime = *t;
                }
            }
            FsOp::Chmod { ino, mode } => {
                if let Some(n) = self.nodes.get_mut(ino) {
                    n.mode = *mode;
                }
            }
        }
    }
    fn ent(&mut self, dir: Ino, f: impl FnOnce(&mut BTreeMap<String, Ino>)) {
        if let Some(n) = self.nodes.get_mut(&dir) {
            if let Some(e) = n.dir.as_mut() {
                f(e)
            }
        }
    }
    /// Resolve a path; errors are errno values.
    pub fn lookup(&self, base: Ino, path: &str) -> Result<Ino, i32> {
        let mut cur = vec![if path.starts_with('/') { ROOT } else { base }];
        // for ".." from a base below the root the parent chain is searched
        if !path.starts_with('/') {
            cur = self.chain(base);
        }
        for c in path.split('/') {
            match c {
                "" | "." => {
                    if self.dir(*cur.last().unwrap()).is_none() {
                        return Err(libc::ENOTDIR);
                    }
                }
                ".." => {
                    if self.dir(*cur.last().unwrap()).is_none() {
                        return Err(libc::ENOTDIR);
                    }
                    if cur.len() > 1 {
                        cur.pop();
                    }
                }
                _ => {
                    let d = self.dir(*cur.last().unwrap()).ok_or(libc::ENOTDIR)?;
                    if c.len() > 255 {
                        return Err(libc::ENAMETOOLONG);
                    }
                    cur.push(*d.get(c).ok_or(libc::ENOENT)?);
                }
            }
        }
        Ok(*cur.last().unwrap())
    }
    /// Parent directory and last component.
    pub fn parent(&self, base: Ino, path: &str) -> Result<(Ino, String), i32> {
        let p = path.trim_end_matches('/');
        if p.is_empty() {
            return Err(if path.is_empty() { libc::ENOENT } else { libc::EEXIST });
        }
        let (d, n) = match p.rfind('/') {
            Some(0) => ("/", &p[1..]),
            Some(i) => (&p[..i], &p[i + 1..]),
            None => (".", p),
        };
        if n == "." || n == ".." {
            return Err(libc::EINVAL);
        }
        if n.len() > 255 {
            return Err(libc::ENAMETOOLONG);
        }
        let d = self.lookup(base, d)?;
        if self.dir(d).is_none() {
            return Err(libc::ENOTDIR);
        }
        Ok((d, n.to_string()))
    }
    pub fn dir(&self, ino: Ino) -> Option<&BTreeMap<String, Ino>> {
        self.nodes.get(&ino).and_then(|n| n.dir.as_ref())
    }
    fn chain(&self, ino: Ino) -> Vec<Ino> {
        let mut v = vec![ino];
        let mut c = ino;
        while c != ROOT {
            match self.nodes.iter().find(|(_, n)| n.dir.as_ref().map_or(false, |e| e.values().any(|x| *x == c))) {
                Some((p, _)) => {
                    c = *p;
                    v.push(c)
                }
                None => break,
            }
        }
        v.reverse();
        v
    }
    pub fn path_of(&self, ino: Ino) -> Option<String> {
        if ino == ROOT {
            return Some("/".into());
        }
        for (p, n) in &self.nodes {
            if let Some(e) = &n.dir {
                if let Some((name, _)) = e.iter().find(|(_, i)| **i == ino) {
                    let b = self.path_of(*p)?;
                    return Some(if b == "/" { format!("/{}", name) } else { format!("{}/{}", b, name) });
                }
            }
        }
        None
    }
    pub fn mtime(&self, path: &str) -> Option<u64> {
        Some(self.nodes[&self.lookup(ROOT, path).ok()?].mtime)
    }
    pub fn read(&self, path: &str) -> Option<&[u8]> {
        let i = self.lookup(ROOT, path).ok()?;
        let n = &self.nodes[&i];
        if n.dir.is_some() {
            None
        } else {
            Some(&n.data)
        }
    }
    pub fn exists(&self, path: &str) -> bool {
        self.lookup(ROOT, path).is_ok()
    }
    /// Every file and directory reachable, as path -> content (None for a directory).
    pub fn tree(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        let mut o = BTreeMap::new();
        self.walk(ROOT, "", &mut o);
        o
    }
    fn walk(&self, d: Ino, p: &str, o: &mut BTreeMap<String, Option<Vec<u8>>>) {
        if let Some(e) = self.dir(d) {
            for (n, i) in e {
                let q = format!("{}/{}", p, n);
                if self.nodes[i].dir.is_some() {
                    o.insert(q.clone(), None);
                    self.walk(*i, &q, o);
                } else {
                    o.insert(q, Some(self.nodes[i].data.clone()));
                }
            }
        }
    }
    /// Ops a user's editor performs. `None` content deletes.
    pub fn edit_ops(&self, path: &str, content: Option<&[u8]>, t: u64, atomic: bool) -> Vec<FsOp> {
        let mut tmp = self.clone();
        let mut ops = vec![];
        macro_rules! go {
            ($o:expr) => {{
                let o = $o;
                tmp.apply(&o);
                ops.push(o);
            }};
        }
        // directories on the way
        let comps: Vec<&str> = path.split('/').filter(|c| !c.is_empty()).collect();
        let mut d = ROOT;
        for c in &comps[..comps.len().saturating_sub(1)] {
            match tmp.dir(d).and_then(|e| e.get(*c)).copied() {
                Some(i) => d = i,
                None => {
                    if content.is_none() {
                        return ops;
                    }
                    let ino = tmp.next;
                    go!(FsOp::Mkdir { dir: d, name: c.to_string(), ino, t });
                    d = ino;
                }
            }
        }
        let name = match comps.last() {
            Some(n) => n.to_string(),
            None => return ops,
        };
        let old = tmp.dir(d).and_then(|e| e.get(&name)).copied();
        match content {
            None => {
                if let Some(i) = old {
                    if tmp.nodes[&i].dir.is_some() {
                        let kids: Vec<String> = tmp.dir(i).unwrap().keys().cloned().collect();
                        for k in kids {
                            for o in tmp.edit_ops(&format!("{}/{}", path, k), None, t, false) {
                                go!(o);
                            }
                        }
                        go!(FsOp::Rmdir { dir: d, name });
                    } else {
                        go!(FsOp::Unlink { dir: d, name });
                    }
                }
            }
            Some(c) => {
                if let (Some(i), false) = (old, atomic) {
                    go!(FsOp::Trunc { ino: i, len: 0, t });
                    go!(FsOp::Write { ino: i, off: 0, data: c.to_vec(), t });
                } else {
                    let ino = tmp.next;
                    let n2 = format!("{}~", name);
                    go!(FsOp::Create { dir: d, name: n2.clone(), ino, t });
                    go!(FsOp::Write { ino, off: 0, data: c.to_vec(), t });
                    go!(FsOp::Rename { dir: d, name: n2, dir2: d, name2: name });
                }
            }
        }
        ops
    }
    pub fn put(&mut self, path: &str, content: &[u8], t: u64) {
        for o in self.edit_ops(path, Some(content), t, true) {
            self.apply(&o);
        }
    }
    pub fn mkdirs(&mut self, path: &str) {
        let mut d = ROOT;
        for c in path.split('/').filter(|c| !c.is_empty()) {
            match self.dir(d).and_then(|e| e.get(c)).copied() {
                Some(i) => d = i,
                None => {
                    let ino = self.next;
                    self.apply(&FsOp::Mkdir { dir: d, name: c.to_string(), ino, t: 0 });
                    d = ino;
                }
            }
        }
    }
}

/// What a power loss leaves: `start` is durable, `ops` happened since.
///
/// Model (ext4 data=ordered-like, without the auto_da_alloc heuristics):
/// metadata operations reach the journal in order; an fsync of any file makes
/// every earlier metadata operation and that file's content durable; a seeded
/// prefix of the later metadata operations survives; unsynced file content
/// survives not at all, as a prefix, with zeroed blocks, or completely.
pub fn power_loss(start: &Vfs, ops: &[FsOp], seed: u64) -> Vfs {
    let mut r = Rng::new(seed ^ 0x706f7765726c6f73);
    let last_sync = ops.iter().rposition(|o| matches!(o, FsOp::Fsync { .. })).map_or(0, |i| i + 1);
    let cut = match r.below(4) {
        0 => ops.len(),
        1 => last_sync,
        _ => r.range(last_sync, ops.len()),
    };
    let mut v = start.clone();
    // durable data content per inode written during the run
    let mut live = start.clone();
    let mut durable: BTreeMap<Ino, Vec<u8>> = BTreeMap::new();
    let mut dirty: BTreeSet<Ino> = BTreeSet::new();
    for (i, o) in ops.iter().enumerate() {
        live.apply(o);
        match o {
            FsOp::Write { ino, .. } | FsOp::Trunc { ino, .. } => {
                dirty.insert(*ino);
            }
            FsOp::Create { ino, .. } => {
                durable.insert(*ino, vec![]);
            }
            FsOp::Fsync { ino } => {
                if let Some(n) = live.nodes.get(ino) {
                    durable.insert(*ino, n.data.clone());
                }
                dirty.remove(ino);
            }
            _ => {}
        }
        if i < cut {
            match o {
                FsOp::Write { .. } | FsOp::Trunc { .. } => {}
                o => v.apply(o),
            }
        }
    }
    for (ino, d) in &durable {
        if let Some(n) = v.nodes.get_mut(ino) {
            n.data = d.clone();
        }
    }
    for ino in dirty {
        let want = match live.nodes.get(&ino) {
            Some(n) => n.data.clone(),
            None => continue,
        };
        if let Some(n) = v.nodes.get_mut(&ino) {
            match r.below(5) {
                0 => {}
                1 => n.data.clear(),
                2 => n.data = want[..r.below(want.len() + 1)].to_vec(),
                3 => {
                    n.data = want;
                    let bs = *r.pick(&[16usize, 512, 4096]);
                    let nb = (n.data.len() + bs - 1) / bs;
                    for b in 0..nb {
                        if r.chance(0.5) {
                            let e = ((b + 1) * bs).min(n.data.len());
                            n.data[b * bs..e].fill(0);
                        }
                    }
                }
                _ => n.data = want,
            }
        }
    }
    v
}
