//! Documents by construction: a tree is generated, rendered to text, and the
//! tokens, diagnostics and compiled output that text must give are computed from
//! the tree, without the code under test.
use crate::plug::{Tag, Ty};
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Item {
    Text(String),
    /// A backslash and this character.
    Esc(char),
    Cmd(Cmd),
    /// Spaces between the parts of an argument.
    Sp(usize),
    /// A line break between the parts of an argument.
    Nl,
    /// Malformed pieces, each with a known set of diagnostics.
    Bad(Bad),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Cmd {
    /// '[' or '{'
    pub open: char,
    pub module: String,
    pub name: String,
    pub args: Vec<Vec<Item>>,
    /// Break the line after this argument's comma.
    #[serde(default)]
    pub br: Option<usize>,
    /// 1: another space before the arguments, 2: one before commas, 4: one before
    /// the closing bracket, 8: none after commas
    #[serde(default)]
    pub pad: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bad {
    /// `[foo]`
    NoModule(char, String),
    /// `[foo bar]`
    NoModuleArg(char, String, String),
    /// `[m. x]`
    NoIdent(char, String, String),
    /// `[m.c x,, y]`
    CommaTwice(char, String, String),
    /// `[m.c ,x]`
    CommaFirst(char, String, String),
    /// `[m.c x,]`
    CommaLast(char, String, String),
    /// `[m.c a.b]`
    Dot(char, String, String),
    /// `\a`
    Backslash(char),
    /// `[m.c {n.d x]`
    InnerOpen(char, char, String, String),
    /// `[m.c x` at the very end of the document
    Unclosed(char, String, String),
    /// `x]` where nothing is open
    Stray(char),
    /// `[m.c x}` where nothing is open
    Mismatch(char, char, String, String),
    /// `[[m.c x]]`, but many more
    Deep(char, usize),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Doc {
    /// statements -> lines -> items
    pub stmts: Vec<Vec<Vec<Item>>>,
    /// newline characters at the end
    #[serde(default)]
    pub tail: usize,
    /// newline characters at the beginning
    #[serde(default)]
    pub lead: usize,
    /// lines end in a carriage return and a line feed
    #[serde(default)]
    pub crlf: bool,
}

/// (line, start, length, kind)
pub type Tok = (u32, u32, u32, &'static str);
/// (message, start, end)
pub type Diag = (String, (u32, u32), (u32, u32));

#[derive(Default)]
pub struct Rendered {
    pub text: String,
    pub toks: Vec<Tok>,
    pub diags: Vec<Diag>,
    l: u32,
    c: u32,
    crlf: bool,
}
fn close(open: char) -> char {
    match open {
        '[' => ']',
        '{' => '}',
        _ => '>',
    }
}
fn kind(open: char) -> &'static str {
    match open {
        '[' => "function",
        '{' => "method",
        _ => "macro",
    }
}
fn not_closed(open: char) -> &'static str {
    match open {
        '[' => "Square bracket not closed",
        '{' => "Curly bracket not closed",
        _ => "Angle bracket not closed",
    }
}
impl Rendered {
    fn at(&self) -> (u32, u32) {
        (self.l, self.c)
    }
    fn s(&mut self, t: &str) {
        for ch in t.chars() {
            if ch == '\n' {
                self.text.push_str(if self.crlf { "\r\n" } else { "\n" });
                self.l += 1;
                self.c = 0;
            } else {
                self.text.push(ch);
                self.c += ch.len_utf16() as u32;
            }
        }
    }
    fn tok(&mut self, t: &str, k: &'static str) {
        let n = t.encode_utf16().count() as u32;
        self.toks.push((self.l, self.c, n, k));
        self.s(t);
    }
    fn one(&mut self, t: &str, msg: &str) {
        let a = self.at();
        self.s(t);
        let b = self.at();
        self.diags.push((msg.into(), a, b));
    }
    fn open(&mut self, o: char) {
        self.tok(&o.to_string(), kind(o));
    }
    fn close(&mut self, o: char) {
        self.tok(&close(o).to_string(), kind(o));
    }
    fn head(&mut self, o: char, m: &str, c: &str) {
        self.open(o);
        self.tok(m, "namespace");
        self.s(".");
        self.tok(c, "variable");
    }
    fn item(&mut self, i: &Item) {
        match i {
            Item::Text(t) => self.s(t),
            Item::Esc(c) => self.s(&format!("\\{}", c)),
            Item::Sp(n) => self.s(&" ".repeat(*n)),
            Item::Nl => self.s("\n"),
            Item::Cmd(c) => {
                self.head(c.open, &c.module, &c.name);
                for (k, a) in c.args.iter().enumerate() {
                    if k > 0 && c.pad & 2 != 0 {
                        self.s(" ");
                    }
                    if k == 0 {
                        self.s(if c.pad & 1 != 0 { "  " } else { " " });
                    } else if c.br == Some(k - 1) {
                        self.s(",\n");
                    } else {
                        self.s(if c.pad & 8 != 0 { "," } else { ", " });
                    }
                    for x in a {
                        self.item(x);
                    }
                }
                if c.pad & 4 != 0 {
                    self.s(" ");
                }
                self.close(c.open);
            }
            Item::Bad(b) => self.bad(b),
        }
    }
    fn stray(&mut self, o: char) {
        let a = self.at();
        self.close(o);
        let b = self.at();
        let m = match o {
            '[' => "Square bracket not opened",
            '{' => "Curly bracket not opened",
            _ => "Angle bracket not opened",
        };
        self.diags.push((m.into(), a, b));
    }
    fn bad(&mut self, b: &Bad) {
        match b {
            Bad::NoModule(o, x) => {
                self.open(*o);
                let (l, c) = self.at();
                let n = x.encode_utf16().count() as u32;
                self.tok(x, "variable");
                self.diags.push(("Need module".into(), (l, c), (l, c + n)));
                let (l, c) = self.at();
                self.diags.push(("Need dot after module".into(), (l, c), (l, c + 1)));
                self.close(*o);
            }
            Bad::NoModuleArg(o, x, y) => {
                self.open(*o);
                let (l, c) = self.at();
                let n = x.encode_utf16().count() as u32;
                self.tok(x, "variable");
                self.diags.push(("Need module".into(), (l, c), (l, c + n)));
                self.one(" ", "Need dot after module");
                self.one(y, "Need identifier after module");
                self.close(*o);
            }
            Bad::NoIdent(o, m, x) => {
                self.open(*o);
                self.tok(m, "namespace");
                self.s(".");
                self.one(" ", "Need identifier after module");
                self.tok(x, "variable");
                self.close(*o);
            }
            Bad::CommaTwice(o, m, c) => {
                self.head(*o, m, c);
                self.s(" x,");
                self.one(",", "Unexpected comma");
                self.s(" y");
                self.close(*o);
            }
            Bad::CommaFirst(o, m, c) => {
                self.head(*o, m, c);
                self.s(" ");
                self.one(",", "Unexpected comma");
                self.s("x");
                self.close(*o);
            }
            Bad::CommaLast(o, m, c) => {
                self.head(*o, m, c);
                self.s(" x");
                self.one(",", "Unexpected comma");
                self.close(*o);
            }
            Bad::Dot(o, m, c) => {
                self.head(*o, m, c);
                self.s(" a");
                self.one(".", "Unexpected dot");
                self.s("b");
                self.close(*o);
            }
            Bad::Backslash(ch) => {
                self.one("\\", "Backslash must be followed by dot, comma, backslash, or bracket");
                self.s(&ch.to_string());
            }
            Bad::InnerOpen(o, p, m, c) => {
                self.head(*o, m, c);
                self.s(" ");
                let a = self.at();
                self.head(*p, m, c);
                self.s(" x");
                let b = self.at();
                self.diags.push((not_closed(*p).into(), a, b));
                self.close(*o);
            }
            Bad::Unclosed(o, m, c) => {
                let a = self.at();
                self.head(*o, m, c);
                self.s(" x");
                let b = self.at();
                self.diags.push((not_closed(*o).into(), a, b));
            }
            Bad::Stray(o) => self.stray(*o),
            Bad::Mismatch(o, p, m, c) => {
                let a = self.at();
                self.head(*o, m, c);
                self.s(" x");
                let b = self.at();
                self.diags.push((not_closed(*o).into(), a, b));
                self.stray(*p);
            }
            Bad::Deep(o, n) => {
                for _ in 1..*n {
                    self.open(*o);
                }
                self.head(*o, "m", "c");
                self.s(" x");
                for _ in 0..*n {
                    self.close(*o);
                }
            }
        }
    }
}

impl Doc {
    pub fn render(&self) -> Rendered {
        let mut r = Rendered { crlf: self.crlf, ..Default::default() };
        for _ in 0..self.lead {
            r.s("\n");
        }
        for (i, s) in self.stmts.iter().enumerate() {
            if i > 0 {
                r.s("\n\n");
            }
            for (j, l) in s.iter().enumerate() {
                if j > 0 {
                    r.s("\n");
                }
                for x in l {
                    r.item(x);
                }
            }
        }
        if !self.stmts.is_empty() && !self.unclosed() {
            for _ in 0..self.tail {
                r.s("\n");
            }
        }
        r
    }
    pub fn text(&self) -> String {
        self.render().text
    }
    fn unclosed(&self) -> bool {
        matches!(self.stmts.last().and_then(|s| s.last()).and_then(|l| l.last()), Some(Item::Bad(Bad::Unclosed(..))))
    }
    pub fn is_bad(&self) -> bool {
        fn b(i: &Item) -> bool {
            match i {
                Item::Bad(_) => true,
                Item::Cmd(c) => c.args.iter().flatten().any(b),
                _ => false,
            }
        }
        self.stmts.iter().flatten().flatten().any(b)
    }
    /// Nested too deeply to be more than a list of tokens.
    pub fn deep(&self) -> bool {
        self.stmts.iter().flatten().flatten().any(|i| matches!(i, Item::Bad(Bad::Deep(..))))
    }
    /// Other content of the same length in bytes.
    pub fn same_length(&self, r: &mut Rng) -> Option<Doc> {
        let t = self.text();
        for _ in 0..8 {
            let mut d = self.clone();
            match r.below(4) {
                0 => d.stmts.reverse(),
                1 => {
                    for l in d.stmts.iter_mut().flatten() {
                        l.reverse();
                    }
                }
                2 => {
                    let mut it: Vec<&mut Item> = d.stmts.iter_mut().flatten().flatten().collect();
                    if it.is_empty() {
                        return None;
                    }
                    let k = r.below(it.len());
                    match &mut *it[k] {
                        // an escape instead of a pair, and the other way round
                        Item::Esc(c) => *c = if *c == '[' { '}' } else { '[' },
                        Item::Text(s) => *s = s.chars().map(|c| if c == 'a' { 'b' } else { 'a' }).collect(),
                        Item::Cmd(c) if c.open == '[' => c.name = c.name.chars().rev().collect(),
                        Item::Cmd(c) => c.module = c.module.chars().rev().collect(),
                        Item::Bad(_) | Item::Sp(_) | Item::Nl => {}
                    }
                    // commands of other names can no longer be compiled
                    if matches!(it[k], Item::Cmd(_)) && !self.is_bad() {
                        continue;
                    }
                }
                _ => {
                    for s in d.stmts.iter_mut() {
                        s.reverse();
                    }
                }
            }
            if d.unclosed() != self.unclosed() || d.stmts.iter().flatten().any(|l| l.windows(2).any(|w| matches!(w, [Item::Text(_) | Item::Bad(Bad::Backslash(_)), Item::Text(_)]))) {
                continue;
            }
            if d.stmts.iter().flatten().flatten().filter(|i| matches!(i, Item::Bad(Bad::Unclosed(..)))).count() > d.unclosed() as usize {
                continue;
            }
            let u = d.text();
            if u.len() == t.len() && u != t {
                return Some(d);
            }
        }
        None
    }
    /// Smaller documents, most aggressive first.
    pub fn shrink(&self) -> Vec<Doc> {
        let mut o = vec![];
        for i in 0..self.stmts.len() {
            let mut d = self.clone();
            d.stmts.remove(i);
            o.push(d);
        }
        for i in 0..self.stmts.len() {
            if self.stmts[i].len() > 1 {
                for j in 0..self.stmts[i].len() {
                    let mut d = self.clone();
                    d.stmts[i].remove(j);
                    o.push(d);
                }
            }
            for j in 0..self.stmts[i].len() {
                let l = &self.stmts[i][j];
                if l.len() > 1 {
                    for k in 0..l.len() {
                        let mut d = self.clone();
                        d.stmts[i][j].remove(k);
                        o.push(d);
                    }
                }
                for k in 0..l.len() {
                    match &l[k] {
                        Item::Text(t) if t != "a" => {
                            let mut d = self.clone();
                            d.stmts[i][j][k] = Item::Text("a".into());
                            o.push(d);
                        }
                        Item::Cmd(c) => {
                            for a in 0..c.args.len() {
                                if c.args[a] != vec![Item::Text("a".into())] {
                                    let mut c2 = c.clone();
                                    c2.args[a] = vec![Item::Text("a".into())];
                                    let mut d = self.clone();
                                    d.stmts[i][j][k] = Item::Cmd(c2);
                                    o.push(d);
                                }
                            }
                            if c.br.is_some() {
                                let mut c2 = c.clone();
                                c2.br = None;
                                let mut d = self.clone();
                                d.stmts[i][j][k] = Item::Cmd(c2);
                                o.push(d);
                            }
                            if c.pad != 0 {
                                let mut c2 = c.clone();
                                c2.pad = 0;
                                let mut d = self.clone();
                                d.stmts[i][j][k] = Item::Cmd(c2);
                                o.push(d);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if self.lead > 0 {
            let mut d = self.clone();
            d.lead = 0;
            o.push(d);
        }
        if self.crlf {
            let mut d = self.clone();
            d.crlf = false;
            o.push(d);
        }
        if self.tail > 0 {
            let mut d = self.clone();
            d.tail = 0;
            o.push(d);
        }
        o
    }
}

// ---- the reference compiler ------------------------------------------------

#[derive(Clone, Debug, Default)]
pub struct Env {
    pub modules: BTreeMap<String, Tag>,
    /// document, stmt, expr, text
    pub hooks: [Option<String>; 4],
}
pub const HOOKS: [&str; 4] = ["document", "stmt", "expr", "text"];

fn has_macro(i: &Item) -> bool {
    match i {
        Item::Cmd(c) => c.open == '<' || c.args.iter().flatten().any(has_macro),
        _ => false,
    }
}
/// Numbers that plugins count up are not in the model.
pub fn uncounted(b: &[u8]) -> Vec<u8> {
    let pat = b"#tick_i ";
    let mut v = b.to_vec();
    for i in 0..v.len().saturating_sub(pat.len() + 1) {
        if v[i..].starts_with(pat) && v[i + pat.len()..i + pat.len() + 2].iter().all(|c| c.is_ascii_digit()) {
            v[i + pat.len()..i + pat.len() + 2].copy_from_slice(b"##");
        }
    }
    v
}
impl Env {
    fn hook(&self, h: usize, s: String) -> String {
        match &self.hooks[h] {
            None => s,
            Some(m) => {
                let t = &self.modules[m];
                let ret = if h < 2 { Ty::Block } else { Ty::Inline };
                let c = t.command(HOOKS[h], ret).unwrap();
                format!("{}{}>", t.prefix(&c), json!([{"Text": s}]))
            }
        }
    }
    /// `n` is the number of statements.
    fn items(&self, v: &[Item], n: usize) -> Result<String, String> {
        let mut o = String::new();
        for i in v {
            match i {
                Item::Text(t) => o += &self.hook(3, t.clone()),
                Item::Esc(c) => o += &self.hook(3, c.to_string()),
                Item::Sp(n) => (0..*n).for_each(|_| o += &self.hook(3, " ".into())),
                Item::Nl => {}
                Item::Cmd(c) if c.open == '<' => o += &self.mac(c, n)?,
                Item::Cmd(c) => o += &self.cmd(c, n)?,
                Item::Bad(_) => return Err("malformed".into()),
            }
        }
        Ok(self.hook(2, o))
    }
    fn cmd(&self, c: &Cmd, n: usize) -> Result<String, String> {
        let mut args = vec![];
        for a in &c.args {
            args.push(self.items(a, n)?);
        }
        let t = self.modules.get(&c.module).ok_or("unknown module")?;
        let ret = if c.open == '[' { Ty::Inline } else { Ty::Block };
        let k = t.command(&c.name, ret).ok_or("unknown command")?;
        let (lo, hi) = k.arity();
        if args.len() < lo || args.len() > hi {
            return Err("wrong number of arguments".into());
        }
        if k.name == "boom" {
            return Err("plugin trap".into());
        }
        if k.name == "nil" {
            return Ok(String::new());
        }
        if k.name == "tick" {
            return Ok(format!("{}##>", t.prefix(&k)));
        }
        let vals: Vec<Value> = k
            .args
            .iter()
            .enumerate()
            .map(|(i, t)| {
                Ok(match t {
                    Ty::OptInline => json!({"TextOption": args.get(i)}),
                    Ty::ArrInline => json!({"TextArray": args[i.min(args.len())..]}),
                    _ => json!({"Text": args.get(i).ok_or("wrong number of arguments")?}),
                })
            })
            .collect::<Result<_, String>>()?;
        Ok(format!("{}{}>", t.prefix(&k), Value::Array(vals)))
    }
    /// A macro call is replaced by what the macro makes of it.
    fn mac(&self, c: &Cmd, n: usize) -> Result<String, String> {
        let t = self.modules.get(&c.module).ok_or("unknown module")?;
        let k = t.command(&c.name, Ty::Ast).ok_or("unknown macro")?;
        if k.name == "boom" {
            return Err("plugin trap".into());
        }
        let mark = t.prefix(&k);
        Ok(match k.name.as_str() {
            "mac" => {
                let mut o = self.hook(3, mark);
                for a in &c.args {
                    if a.iter().any(has_macro) {
                        return Err("macro in the expansion of a macro".into());
                    }
                    o += &self.items(a, n)?;
                }
                self.hook(2, o)
            }
            "whole" => self.hook(3, format!("{}{:02}>", mark, n)),
            _ => self.hook(3, format!("{}>", mark)),
        })
    }
    pub fn compile(&self, d: &Doc) -> Result<String, String> {
        let mut o = String::new();
        for s in &d.stmts {
            let mut x = String::new();
            for l in s {
                x += &self.items(l, d.stmts.len())?;
            }
            o += &self.hook(1, x);
        }
        Ok(self.hook(0, o))
    }
}

// ---- generation --------------------------------------------------------------

const WORDS: [&str; 28] = [
    "a", "Hello", "world", "x1", "こんにちは", "日本語", "é", "Ω", "naïve", "#", "$5", "a-b", "\"q\"", "it's", "&amp;", "100%", "Привет", "http://e", "=", "ü", "foo_bar", "2+2", "😀", "e\u{301}", "👨\u{200d}👩\u{200d}👧", "🇯🇵", "𝕏", "n\0l",
];

pub struct DocGen<'a> {
    pub env: &'a Env,
    pub depth: usize,
    pub bad: f64,
    /// probability that a command call is wrong (unknown, arity, trap)
    pub wrong: f64,
    pub max_stmts: usize,
}
impl<'a> DocGen<'a> {
    fn word(&self, r: &mut Rng) -> String {
        let mut s = r.pick(&WORDS).to_string();
        if r.chance(0.3) {
            s += *r.pick(&WORDS);
        }
        s
    }
    fn top_text(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        for i in 0..r.range(1, 4) {
            if i > 0 {
                s += *r.pick(&[" ", ", ", ". ", "  ", "."]);
            }
            s += &self.word(r);
        }
        if r.chance(0.2) {
            s += *r.pick(&[".", ",", " "]);
        }
        s
    }
    fn arg(&self, r: &mut Rng, depth: usize) -> Vec<Item> {
        let mut v = vec![];
        let mut text = false;
        for i in 0..if r.chance(0.04) { r.range(4, 9) } else { r.range(1, 3) } {
            if i > 0 && r.chance(0.25) {
                v.push(if r.chance(0.2) { Item::Nl } else { Item::Sp(if r.chance(0.2) { 2 } else { 1 }) });
                text = false;
            }
            match r.below(6) {
                0 if depth > 0 => {
                    if let Some(c) = self.cmd(r, depth - 1) {
                        v.push(Item::Cmd(c));
                        text = false;
                        continue;
                    }
                }
                1 => {
                    v.push(Item::Esc(*r.pick(&['.', ',', '\\', '[', ']', '{', '}', '<', '>'])));
                    text = false;
                    continue;
                }
                _ => {}
            }
            if !text {
                v.push(Item::Text(self.word(r)));
                text = true;
            }
        }
        v
    }
    fn pad(&self, r: &mut Rng) -> u8 {
        if r.chance(0.15) {
            r.below(16) as u8
        } else {
            0
        }
    }
    pub fn cmd(&self, r: &mut Rng, depth: usize) -> Option<Cmd> {
        if self.env.modules.is_empty() {
            return None;
        }
        let names: Vec<&String> = self.env.modules.keys().collect();
        let m = r.pick(&names).to_string();
        let t = &self.env.modules[&m];
        if r.chance(0.15) {
            let name = r.pick(&["mac", "mac", "em", "whole"]).to_string();
            let mut args: Vec<Vec<Item>> = (0..r.below(4)).map(|_| self.arg(r, depth)).collect();
            if name == "mac" && !r.chance(self.wrong) {
                args.retain(|a| !a.iter().any(has_macro));
            }
            let mut c = Cmd { open: '<', module: m, name, pad: self.pad(r), br: if args.len() > 1 && r.chance(0.15) { Some(0) } else { None }, args };
            if r.chance(self.wrong) {
                match r.below(3) {
                    0 => c.module = "nosuch".into(),
                    1 => c.name = "now".into(),
                    _ => c.name = "boom".into(),
                }
            }
            return Some(c);
        }
        let cs: Vec<_> = t.commands().into_iter().filter(|c| c.ret != Ty::Ast && c.name != "boom").collect();
        let c = r.pick(&cs).clone();
        let (lo, hi) = c.arity();
        let lo = if c.name == "late" { 2 } else { lo };
        let most = if hi != usize::MAX { hi } else if depth < self.depth && r.chance(0.03) { lo + 100 } else { lo + 3 };
        let n = r.range(lo, most);
        let depth = if n > 10 { 0 } else { depth };
        let mut k = Cmd {
            open: if c.ret == Ty::Inline { '[' } else { '{' },
            module: m,
            name: c.name.clone(),
            args: (0..n).map(|_| self.arg(r, depth)).collect(),
            br: if n > 1 && r.chance(0.15) { Some(r.below(n - 1)) } else { None },
            pad: self.pad(r),
        };
        if r.chance(self.wrong) {
            match r.below(5) {
                0 => k.module = "nosuch".into(),
                1 => k.name = "nope".into(),
                // too few
                4 if c.arity().0 > 0 => k.args.truncate(c.arity().0 - 1),
                2 if hi != usize::MAX => k.args = (0..hi + 1).map(|_| self.arg(r, 0)).collect(),
                _ => {
                    k.open = '[';
                    k.name = "boom".into();
                    k.args = vec![self.arg(r, 0)];
                }
            }
            k.br = None;
        }
        Some(k)
    }
    fn bad(&self, r: &mut Rng) -> Bad {
        let o = *r.pick(&['[', '{', '<']);
        let p = loop {
            let p = *r.pick(&['[', '{', '<']);
            if p != o {
                break p;
            }
        };
        let m = if r.chance(0.02) { "mod".repeat(90) } else { r.pick(&["std", "fig", "mm"]).to_string() };
        let c = r.pick(&["em", "あ", "c2", "😀"]).to_string();
        match r.below(11) {
            0 => Bad::NoModule(o, c),
            1 => Bad::NoModuleArg(o, c, "bar".into()),
            2 => Bad::NoIdent(o, m, c),
            3 => Bad::CommaTwice(o, m, c),
            4 => Bad::CommaFirst(o, m, c),
            5 => Bad::CommaLast(o, m, c),
            6 => Bad::Dot(o, m, c),
            7 => Bad::Backslash(*r.pick(&['a', 'Z', '1', 'é'])),
            8 => Bad::Stray(o),
            9 => Bad::Mismatch(o, p, m, c),
            _ => Bad::InnerOpen(o, p, m, c),
        }
    }
    fn line(&self, r: &mut Rng) -> Vec<Item> {
        let mut v: Vec<Item> = vec![];
        for _ in 0..if r.chance(0.06) { r.range(4, 12) } else { r.range(1, 3) } {
            let text = matches!(v.last(), Some(Item::Text(_)) | Some(Item::Bad(Bad::Backslash(_))));
            if r.chance(self.bad) {
                v.push(Item::Bad(self.bad(r)));
            } else if r.chance(0.5) {
                if let Some(c) = self.cmd(r, self.depth) {
                    v.push(Item::Cmd(c));
                } else if !text {
                    v.push(Item::Text(self.top_text(r)));
                }
            } else if r.chance(0.15) {
                v.push(Item::Esc(*r.pick(&['\\', '\\', '[', ']', '{', '}', '<', '>'])));
            } else if !text {
                v.push(Item::Text(self.top_text(r)));
            }
        }
        if v.is_empty() {
            v.push(Item::Text(self.word(r)));
        }
        v
    }
    /// One of the calls once more, the same or nearly so.
    fn echo(&self, r: &mut Rng, d: &mut Doc) {
        fn all<'a>(v: &'a [Item], o: &mut Vec<&'a Cmd>) {
            for i in v {
                if let Item::Cmd(c) = i {
                    o.push(c);
                    for a in &c.args {
                        all(a, o);
                    }
                }
            }
        }
        let mut v = vec![];
        for l in d.stmts.iter().flatten() {
            all(l, &mut v);
        }
        if r.chance(0.5) && v.iter().any(|c| c.open == '<') {
            v.retain(|c| c.open == '<');
        }
        if v.is_empty() {
            return;
        }
        let mut c = (*r.pick(&v)).clone();
        let Some(k) = self.env.modules.get(&c.module).and_then(|t| t.commands().into_iter().find(|k| k.name == c.name && (k.ret == Ty::Ast) == (c.open == '<'))) else { return };
        match r.below(5) {
            0 => {}
            // the same text, divided otherwise
            1 | 2 => {
                if c.args.len() > if c.open == '<' { 1 } else { k.arity().0.max(1) } && c.name != "late" {
                    let i = r.below(c.args.len() - 1);
                    let b = c.args.remove(i + 1);
                    for x in b {
                        match (c.args[i].last_mut(), x) {
                            (Some(Item::Text(a)), Item::Text(t)) => a.push_str(&t),
                            (_, x) => c.args[i].push(x),
                        }
                    }
                    c.br = None;
                }
            }
            3 => c.args.reverse(),
            _ => {
                let o: Vec<&String> = self.env.modules.iter().filter(|(_, t)| t.command(&k.name, k.ret).is_some()).map(|(m, _)| m).collect();
                c.module = r.pick(&o).to_string();
            }
        }
        let at = r.below(d.stmts.len() + 1);
        d.stmts.insert(at, vec![vec![Item::Cmd(c)]]);
    }
    /// More calls of macros.
    pub fn macros(&self, r: &mut Rng, d: &mut Doc) {
        if self.env.modules.is_empty() {
            return;
        }
        for _ in 0..r.range(1, 3) {
            let names: Vec<&String> = self.env.modules.keys().collect();
            let module = r.pick(&names).to_string();
            let name = r.pick(&["mac", "mac", "mac", "em", "whole"]).to_string();
            let args = (0..r.below(4)).map(|_| if r.chance(0.5) { vec![Item::Text(self.word(r))] } else { self.arg(r, 0) }).collect();
            let at = r.below(d.stmts.len() + 1);
            d.stmts.insert(at, vec![vec![Item::Cmd(Cmd { open: '<', module, name, args, br: None, pad: self.pad(r) })]]);
        }
        for _ in 0..r.range(1, 2) {
            self.echo(r, d);
        }
    }
    pub fn doc(&self, r: &mut Rng) -> Doc {
        let n = if r.chance(0.05) { 0 } else { r.range(1, self.max_stmts) };
        let mut d = Doc { stmts: (0..n).map(|_| (0..if r.chance(0.3) { 2 } else { 1 }).map(|_| self.line(r)).collect()).collect(), tail: r.below(3), lead: if r.chance(0.15) { r.range(1, 3) } else { 0 }, crlf: r.chance(0.15) };
        if n > 0 && r.chance(0.3) {
            self.echo(r, &mut d);
        }
        // more lines or columns than a byte can count
        if r.chance(0.012) {
            d.lead = r.range(200, 330);
        }
        if n > 0 && r.chance(0.012) {
            let w = r.pick(&["あ", "long ", "w", "é", "😀 "]).to_string();
            let l = r.below(d.stmts[0].len());
            let line = &mut d.stmts[0][l];
            if !matches!(line[0], Item::Text(_)) {
                line.insert(0, Item::Text(w.repeat(270 / w.chars().count())));
            }
        }
        if n > 0 && r.chance(self.bad * 0.7) {
            let m = r.pick(&["std", "fig"]).to_string();
            d.stmts.last_mut().unwrap().last_mut().unwrap().push(Item::Bad(Bad::Unclosed(*r.pick(&['[', '{', '<']), m, "em".into())));
        }
        d
    }
}
