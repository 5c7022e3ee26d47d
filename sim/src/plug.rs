//! Generated plugins. A plugin's behaviour is determined by its tag, and its tag
//! by what it was fetched as, so that every compiled document and every
//! completion list tells which plugin's bytes were really used.
use crate::rng::{hash_bytes, Rng};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Ty {
    Inline,
    Block,
    Ast,
    OptInline,
    ArrInline,
}
impl Ty {
    fn json(self) -> serde_json::Value {
        use serde_json::json;
        match self {
            Ty::Inline => json!("TInline"),
            Ty::Block => json!("TBlock"),
            Ty::Ast => json!("TAST"),
            Ty::OptInline => json!({"TOption":"TInline"}),
            Ty::ArrInline => json!({"TArray":"TInline"}),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Command {
    pub name: String,
    pub ret: Ty,
    pub args: Vec<Ty>,
}
impl Command {
    pub fn call_name(&self) -> String {
        format!("{}_{}", self.name, match self.ret { Ty::Inline => "i", Ty::Block => "b", _ => "m" })
    }
    pub fn arity(&self) -> (usize, usize) {
        let min = self.args.iter().filter(|t| !matches!(t, Ty::OptInline | Ty::ArrInline)).count();
        let max = if self.args.contains(&Ty::ArrInline) { usize::MAX } else { self.args.len() };
        (min, max)
    }
}

/// What a plugin was published as.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Tag(pub String);

impl Tag {
    pub fn of(owner: &str, repo: &str, version: &str, file: &str) -> Tag {
        Tag(format!("{}/{}/{}/{}", owner, repo, version, file))
    }
    fn h(&self) -> u64 {
        hash_bytes(7, self.0.as_bytes())
    }
    /// Mark in the outputs.
    pub fn mark(&self) -> String {
        format!("{}~{:04x}", self.0, self.h() & 0xffff)
    }
    pub fn commands(&self) -> Vec<Command> {
        let c = |n: &str, ret, args: &[Ty]| Command { name: n.into(), ret, args: args.to_vec() };
        let mut v = vec![
            c("em", Ty::Inline, &[Ty::Inline]),
            c("em", Ty::Block, &[Ty::Inline, Ty::OptInline]),
            c("now", Ty::Inline, &[]),
            c("link", Ty::Inline, &[Ty::Inline, Ty::OptInline]),
            c("cat", Ty::Inline, &[Ty::ArrInline]),
            c("pair", Ty::Inline, &[Ty::Inline, Ty::Inline]),
            c("boom", Ty::Inline, &[Ty::Inline]),
            // nothing at all
            c("nil", Ty::Inline, &[Ty::ArrInline]),
            // how often it has been called
            c("tick", Ty::Inline, &[]),
            c("sec", Ty::Block, &[Ty::Inline]),
            c("list", Ty::Block, &[Ty::Inline, Ty::ArrInline]),
            c("opts", Ty::Inline, &[Ty::Inline, Ty::OptInline, Ty::ArrInline]),
            c("late", Ty::Block, &[Ty::OptInline, Ty::Inline]),
            // macros: the arguments, a constant, the number of statements of the document
            c("mac", Ty::Ast, &[Ty::ArrInline]),
            c("em", Ty::Ast, &[Ty::ArrInline]),
            c("whole", Ty::Ast, &[]),
            c("boom", Ty::Ast, &[]),
            c("document", Ty::Block, &[Ty::Inline]),
            c("stmt", Ty::Block, &[Ty::Inline]),
            c("expr", Ty::Inline, &[Ty::Inline]),
            c("text", Ty::Inline, &[Ty::Inline]),
        ];
        // commands only this version has
        let mut r = Rng::new(self.h());
        for i in 0..r.below(4) {
            let n = format!("x{:x}", r.below(4096) * 8 + i);
            let ret = if r.chance(0.5) { Ty::Inline } else { Ty::Block };
            v.push(Command { name: n, ret, args: vec![Ty::Inline] });
        }
        v
    }
    pub fn command(&self, name: &str, ret: Ty) -> Option<Command> {
        self.commands().into_iter().find(|c| c.name == name && c.ret == ret)
    }
    pub fn prefix(&self, c: &Command) -> String {
        format!("<{}#{} ", self.mark(), c.call_name())
    }
    pub fn metadata(&self) -> serde_json::Value {
        let mut v: Vec<serde_json::Value> = self
            .commands()
            .iter()
            .map(|c| {
                let a: Vec<serde_json::Value> = c.args.iter().enumerate().map(|(i, t)| serde_json::json!([format!("a{}", i), t.json()])).collect();
                serde_json::json!({"command_name": c.name, "call_name": c.call_name(), "argument_types": a, "return_type": c.ret.json()})
            })
            .collect();
        let mut r = Rng::new(self.h() ^ 5);
        r.shuffle(&mut v);
        serde_json::Value::Array(v)
    }
    pub fn wasm(&self) -> Vec<u8> {
        self.wasm_kind(Broken::No)
    }
    pub fn wasm_kind(&self, b: Broken) -> Vec<u8> {
        match b {
            Broken::Garbage => {
                let mut r = Rng::new(self.h() ^ 9);
                return (0..200).map(|_| r.below(256) as u8).collect();
            }
            Broken::Html => return b"<!DOCTYPE html><html><body>maintenance</body></html>".to_vec(),
            Broken::Empty => return vec![],
            _ => {}
        }
        let mut data = String::new();
        let mut off = 0usize;
        let mut funcs = String::new();
        let mut put = |s: &[u8]| {
            let mut e = String::new();
            for c in s {
                e.push_str(&format!("\\{:02x}", c));
            }
            let at = off;
            data.push_str(&format!("(data (i32.const {}) \"{}\")\n", at, e));
            off += s.len() + 1;
            (at, s.len())
        };
        let mut meta = serde_json::to_vec(&self.metadata()).unwrap();
        match b {
            Broken::NoHook(h) | Broken::WrongHook(h, _) => {
                let name = crate::doc::HOOKS[h as usize];
                let mut v = self.metadata().as_array().unwrap().clone();
                match b {
                    Broken::WrongHook(_, ast) => {
                        for c in v.iter_mut().filter(|c| c["command_name"] == name) {
                            c["return_type"] = if ast {
                                Ty::Ast.json()
                            } else if c["return_type"] == "TBlock" {
                                Ty::Inline.json()
                            } else {
                                Ty::Block.json()
                            };
                        }
                    }
                    _ => v.retain(|c| c["command_name"] != name),
                }
                meta = serde_json::to_vec(&v).unwrap();
            }
            _ => {}
        }
        if b == Broken::BadMetadata {
            meta.truncate(meta.len() / 2);
        }
        let (mp, ml) = put(&meta);
        if b != Broken::NoMetadata {
            funcs.push_str(&format!("(func (export \"get_metadata\") (result i32) (call $emit (i32.const {}) (i32.const {}) (i32.const 0)) (i32.const 0))\n", mp, ml));
        }
        let loc = r#"{"start":{"line":0,"character":0},"end":{"line":0,"character":0}}"#;
        for c in self.commands() {
            if c.ret == Ty::Ast && c.name != "boom" {
                let quoted = |s: &str| {
                    let q = serde_json::to_string(s).unwrap();
                    q[1..q.len() - 1].to_string()
                };
                let text = |s: &str| format!(r#"{{"Text":{{"id":"t","value":"{}"#, s);
                let mark = quoted(&self.prefix(&c));
                let end = format!(r#"","location":{}}}}}"#, loc);
                let (a, an, b, bn, kind) = match c.name.as_str() {
                    "mac" => {
                        let a = format!(r#"{{"Expr":{{"id":"e","children":[{}{}"#, text(&mark), end);
                        let (a, an) = put(a.as_bytes());
                        let (b, bn) = put(br#"],"location":"#);
                        (a, an, b, bn, "mac")
                    }
                    n => {
                        let (a, an) = put(text(&mark).as_bytes());
                        let (b, bn) = put(format!(">{}", end).as_bytes());
                        (a, an, b, bn, if n == "whole" { "whole" } else { "con" })
                    }
                };
                funcs.push_str(&format!("(func (export \"{}\") (result i32) (call ${} (i32.const {}) (i32.const {}) (i32.const {}) (i32.const {})) (i32.const 0))\n", c.call_name(), kind, a, an, b, bn));
                continue;
            }
            if c.name == "boom" {
                funcs.push_str(&format!("(func (export \"{}\") (result i32) unreachable)\n", c.call_name()));
                continue;
            }
            if c.name == "nil" {
                funcs.push_str(&format!("(func (export \"{}\") (result i32) (call $emit (i32.const 0) (i32.const 0) (i32.const 0)) (i32.const 0))\n", c.call_name()));
                continue;
            }
            let (p, l) = put(self.prefix(&c).as_bytes());
            if c.name == "tick" {
                funcs.push_str(&format!("(func (export \"{}\") (result i32) (call $tick (i32.const {}) (i32.const {})) (i32.const 0))\n", c.call_name(), p, l));
                continue;
            }
            funcs.push_str(&format!("(func (export \"{}\") (result i32) (call $emit (i32.const {}) (i32.const {}) (i32.const 1)) (i32.const 0))\n", c.call_name(), p, l));
        }
        // ballast: downloads of different sizes
        let mut r = Rng::new(self.h() ^ 11);
        let n = *r.pick(&[0usize, 100, 3000, 12000]);
        let ballast: Vec<u8> = (0..n).map(|_| b'a' + r.below(26) as u8).collect();
        put(&ballast);
        let (stmt, stmt_n) = put(b"\"Stmt\":{");
        let pages = off / 65536 + 1;
        let base = pages * 65536;
        let wat = format!(
            r#"(module
 (import "extism:host/env" "alloc" (func $alloc (param i64) (result i64)))
 (import "extism:host/env" "input_length" (func $il (result i64)))
 (import "extism:host/env" "input_load_u8" (func $ld (param i64) (result i32)))
 (import "extism:host/env" "store_u8" (func $st (param i64 i32)))
 (import "extism:host/env" "output_set" (func $out (param i64 i64)))
 (import "extism:host/env" "input_load_u64" (func $ld8 (param i64) (result i64)))
 (memory (export "memory") {pages})
 (global $o (mut i32) (i32.const 0))
 (global $ob (mut i32) (i32.const 0))
 (global $ticks (mut i32) (i32.const 0))
 {data}
 (func $emit (param $p i32) (param $n i32) (param $q i32)
  (local $i i32) (local $a i64) (local $m i64) (local $t i64)
  (local.set $m (if (result i64) (local.get $q) (then (i64.add (call $il) (i64.const 1))) (else (i64.const 0))))
  (local.set $t (i64.add (i64.extend_i32_u (local.get $n)) (local.get $m)))
  (local.set $a (call $alloc (local.get $t)))
  (block $b1 (loop $l1
    (br_if $b1 (i32.ge_u (local.get $i) (local.get $n)))
    (call $st (i64.add (local.get $a) (i64.extend_i32_u (local.get $i))) (i32.load8_u (i32.add (local.get $p) (local.get $i))))
    (local.set $i (i32.add (local.get $i) (i32.const 1)))
    (br $l1)))
  (if (local.get $q) (then
    (local.set $m (i64.const 0))
    (block $b2 (loop $l2
      (br_if $b2 (i64.ge_u (local.get $m) (call $il)))
      (call $st (i64.add (i64.add (local.get $a) (i64.extend_i32_u (local.get $n))) (local.get $m)) (call $ld (local.get $m)))
      (local.set $m (i64.add (local.get $m) (i64.const 1)))
      (br $l2)))
    (call $st (i64.add (i64.add (local.get $a) (i64.extend_i32_u (local.get $n))) (local.get $m)) (i32.const 62))))
  (call $out (local.get $a) (local.get $t)))
 ;; the input at {base}, and room for the output behind it
 (func $input (result i32) (local $n i32) (local $i i32)
  (local.set $n (i32.wrap_i64 (call $il)))
  (drop (memory.grow (i32.add (i32.shr_u (local.get $n) (i32.const 15)) (i32.const 3))))
  (block $x (loop $l
    (br_if $x (i32.ge_u (i32.add (local.get $i) (i32.const 8)) (local.get $n)))
    (i64.store (i32.add (i32.const {base}) (local.get $i)) (call $ld8 (i64.extend_i32_u (local.get $i))))
    (local.set $i (i32.add (local.get $i) (i32.const 8)))
    (br $l)))
  (block $x (loop $l
    (br_if $x (i32.ge_u (local.get $i) (local.get $n)))
    (i32.store8 (i32.add (i32.const {base}) (local.get $i)) (call $ld (i64.extend_i32_u (local.get $i))))
    (local.set $i (i32.add (local.get $i) (i32.const 1)))
    (br $l)))
  (global.set $ob (i32.add (i32.const {base}) (i32.add (local.get $n) (i32.const 64))))
  (global.set $o (global.get $ob))
  (local.get $n))
 (func $putc (param $c i32)
  (i32.store8 (global.get $o) (local.get $c))
  (global.set $o (i32.add (global.get $o) (i32.const 1))))
 (func $put (param $p i32) (param $n i32)
  (block $x (loop $l
    (br_if $x (i32.eqz (local.get $n)))
    (call $putc (i32.load8_u (local.get $p)))
    (local.set $p (i32.add (local.get $p) (i32.const 1)))
    (local.set $n (i32.sub (local.get $n) (i32.const 1)))
    (br $l))))
 (func $flush (local $a i64) (local $i i32) (local $n i32)
  (local.set $n (i32.sub (global.get $o) (global.get $ob)))
  (local.set $a (call $alloc (i64.extend_i32_u (local.get $n))))
  (block $x (loop $l
    (br_if $x (i32.ge_u (local.get $i) (local.get $n)))
    (call $st (i64.add (local.get $a) (i64.extend_i32_u (local.get $i))) (i32.load8_u (i32.add (global.get $ob) (local.get $i))))
    (local.set $i (i32.add (local.get $i) (i32.const 1)))
    (br $l)))
  (call $out (local.get $a) (i64.extend_i32_u (local.get $n))))
 (func $same (param $p i32) (param $q i32) (param $n i32) (result i32)
  (block $x (loop $l
    (br_if $x (i32.eqz (local.get $n)))
    (if (i32.ne (i32.load8_u (local.get $p)) (i32.load8_u (local.get $q))) (then (return (i32.const 0))))
    (local.set $p (i32.add (local.get $p) (i32.const 1)))
    (local.set $q (i32.add (local.get $q) (i32.const 1)))
    (local.set $n (i32.sub (local.get $n) (i32.const 1)))
    (br $l)))
  (i32.const 1))
 (func $tick (param $a i32) (param $an i32)
  (drop (call $input))
  (global.set $ticks (i32.rem_u (i32.add (global.get $ticks) (i32.const 1)) (i32.const 100)))
  (call $put (local.get $a) (local.get $an))
  (call $putc (i32.add (i32.const 48) (i32.div_u (global.get $ticks) (i32.const 10))))
  (call $putc (i32.add (i32.const 48) (i32.rem_u (global.get $ticks) (i32.const 10))))
  (call $putc (i32.const 62))
  (call $flush))
 (func $con (param $a i32) (param $an i32) (param $b i32) (param $bn i32)
  (drop (call $input))
  (call $put (local.get $a) (local.get $an))
  (call $put (local.get $b) (local.get $bn))
  (call $flush))
 (func $whole (param $a i32) (param $an i32) (param $b i32) (param $bn i32) (local $n i32) (local $i i32) (local $k i32)
  (local.set $n (call $input))
  (block $x (loop $l
    (br_if $x (i32.ge_u (i32.add (local.get $i) (i32.const {stmt_n})) (local.get $n)))
    (if (call $same (i32.add (i32.const {base}) (local.get $i)) (i32.const {stmt}) (i32.const {stmt_n})) (then (local.set $k (i32.add (local.get $k) (i32.const 1)))))
    (local.set $i (i32.add (local.get $i) (i32.const 1)))
    (br $l)))
  (call $put (local.get $a) (local.get $an))
  (call $putc (i32.add (i32.const 48) (i32.div_u (local.get $k) (i32.const 10))))
  (call $putc (i32.add (i32.const 48) (i32.rem_u (local.get $k) (i32.const 10))))
  (call $put (local.get $b) (local.get $bn))
  (call $flush))
 (func $mac (param $a i32) (param $an i32) (param $b i32) (param $bn i32)
  (local $n i32) (local $p i32) (local $id i32) (local $end i32) (local $d i32) (local $str i32) (local $c i32) (local $commas i32) (local $from i32) (local $to i32)
  (local.set $n (call $input))
  (local.set $end (i32.add (i32.const {base}) (local.get $n)))
  ;; ..."<id of 36 characters>"]
  (local.set $id (i32.sub (local.get $end) (i32.const 38)))
  (local.set $p (i32.const {base}))
  (block $x (loop $l
    (if (i32.ge_u (local.get $p) (local.get $id)) (then unreachable))
    (br_if $x (call $same (local.get $p) (local.get $id) (i32.const 36)))
    (local.set $p (i32.add (local.get $p) (i32.const 1)))
    (br $l)))
  ;; ","children":[
  (local.set $p (i32.add (local.get $p) (i32.const 50)))
  (block $x (loop $l
    (if (i32.ge_u (local.get $p) (local.get $end)) (then unreachable))
    (local.set $c (i32.load8_u (local.get $p)))
    (if (local.get $str)
     (then
      (if (i32.eq (local.get $c) (i32.const 92)) (then (local.set $p (i32.add (local.get $p) (i32.const 1)))))
      (if (i32.eq (local.get $c) (i32.const 34)) (then (local.set $str (i32.const 0)))))
     (else
      (if (i32.eq (local.get $c) (i32.const 34)) (then (local.set $str (i32.const 1))))
      (if (i32.or (i32.eq (local.get $c) (i32.const 91)) (i32.eq (local.get $c) (i32.const 123))) (then (local.set $d (i32.add (local.get $d) (i32.const 1)))))
      (if (i32.or (i32.eq (local.get $c) (i32.const 93)) (i32.eq (local.get $c) (i32.const 125))) (then
        (br_if $x (i32.eqz (local.get $d)))
        (local.set $d (i32.sub (local.get $d) (i32.const 1)))))
      (if (i32.and (i32.eq (local.get $c) (i32.const 44)) (i32.eqz (local.get $d))) (then
        (local.set $commas (i32.add (local.get $commas) (i32.const 1)))
        (if (i32.eq (local.get $commas) (i32.const 2)) (then (local.set $from (local.get $p))))))))
    (local.set $p (i32.add (local.get $p) (i32.const 1)))
    (br $l)))
  (local.set $to (local.get $p))
  (call $put (local.get $a) (local.get $an))
  (if (local.get $from) (then (call $put (local.get $from) (i32.sub (local.get $to) (local.get $from)))))
  (call $put (local.get $b) (local.get $bn))
  ;; "location": up to the third closing brace
  (local.set $p (i32.add (local.get $p) (i32.const 13)))
  (local.set $d (i32.const 0))
  (block $x (loop $l
    (if (i32.ge_u (local.get $p) (local.get $end)) (then unreachable))
    (local.set $c (i32.load8_u (local.get $p)))
    (call $putc (local.get $c))
    (if (i32.eq (local.get $c) (i32.const 125)) (then (local.set $d (i32.add (local.get $d) (i32.const 1)))))
    (br_if $x (i32.eq (local.get $d) (i32.const 3)))
    (local.set $p (i32.add (local.get $p) (i32.const 1)))
    (br $l)))
  (call $putc (i32.const 125))
  (call $putc (i32.const 125))
  (call $flush))
 {funcs})"#
        );
        let bin = wat::parse_str(&wat).expect("plugin");
        match b {
            Broken::Truncated => bin[..bin.len() * 2 / 3].to_vec(),
            _ => bin,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Broken {
    No,
    Garbage,
    Html,
    Empty,
    Truncated,
    NoMetadata,
    BadMetadata,
    /// without the command of this hook
    NoHook(u8),
    /// the command of this hook returns something else
    WrongHook(u8, bool),
}

static mut POOL: BTreeMap<Tag, Vec<u8>> = BTreeMap::new();

/// The bytes of a plugin; compiled once per harness process, before any fork
/// that uses it.
#[allow(static_mut_refs)]
pub fn bytes(t: &Tag) -> Vec<u8> {
    unsafe {
        if let Some(b) = POOL.get(t) {
            return b.clone();
        }
        let b = t.wasm();
        extism::simcache::record(true);
        let mut p = extism::Plugin::new(b.clone(), [], true).expect("plugin loads");
        let m: Vec<u8> = p.call("get_metadata", "").expect("metadata");
        extism::simcache::record(false);
        assert_eq!(m, serde_json::to_vec(&t.metadata()).unwrap());
        POOL.insert(t.clone(), b.clone());
        b
    }
}
