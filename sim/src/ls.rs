//! Language-server sessions: what a client sends, how the bytes arrive, and what
//! the server must have written in return.
use crate::case::{errs, Case, Stage, State, Verdict, Want};
use crate::doc::{Diag, Doc, Tok};
use crate::plug::Ty;
use crate::proj::*;
use crate::rng::{mix, Rng};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum What {
    /// With the publishDiagnostics capability or not.
    Initialize(bool),
    Initialized,
    DidOpen(String),
    DidChange(String),
    DidSave(String),
    Tokens(String),
    /// Path, trigger character; None: invoked without one
    Completion(String, Option<String>),
    /// A request for a method the server does not have.
    Unsupported(String),
    /// A notification (or a request method without an id): nothing may happen.
    Silent(String),
    /// The client's answer to a request (never) made by the server.
    Reply,
    Bad(BadMsg),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum BadMsg {
    /// This body, verbatim.
    Raw(#[serde(with = "crate::vfs::hex")] Vec<u8>),
    /// A request or notification with these parameters (None: left out).
    Params(String, Option<Value>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    Doc(Doc),
    /// Not a document the model can judge.
    Odd(#[serde(with = "crate::vfs::hex")] Vec<u8>),
    Gone,
}
impl Content {
    fn bytes(&self) -> Option<Vec<u8>> {
        match self {
            Content::Doc(d) => Some(d.text().into_bytes()),
            Content::Odd(b) => Some(b.clone()),
            Content::Gone => None,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Ev {
    Msg {
        what: What,
        #[serde(default)]
        id: Option<Value>,
        /// Seed of the wire format: header fields, key order, escapes, extra fields.
        style: u64,
    },
    /// The editor stores a file.
    File {
        path: String,
        content: Content,
        atomic: bool,
        #[serde(default)]
        keep: bool,
    },
    /// Brack.toml of this project becomes this; None: invalid.
    Cfg { dir: String, cfg: Option<Cfg> },
    /// Every reply to what was sent must be there now.
    Settle,
}
pub fn msg(what: What, id: Option<Value>) -> Ev {
    Ev::Msg { what, id, style: 0 }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Cut {
    /// Everything up to the next point of rest in one piece.
    Whole,
    PerMessage,
    Bytes,
    Random,
    /// In the middle of headers, separators and multi-byte characters.
    Nasty,
    /// The end of one message arrives with the beginning of the next.
    Straddle,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Session {
    pub evs: Vec<Ev>,
    pub cut: Cut,
    pub seed: u64,
    /// Longest pause between two pieces, microseconds.
    #[serde(default)]
    pub pause: u64,
    /// A part of the next message has arrived at every point of rest.
    #[serde(default)]
    pub early: bool,
    /// An incomplete message before the end of input.
    #[serde(default)]
    pub tail: bool,
    /// Stdin is not closed at the end.
    #[serde(default)]
    pub hold: bool,
    /// URLs of plugins that cannot be downloaded.
    #[serde(default)]
    pub dead: Vec<String>,
    /// URLs of plugins that cannot be loaded.
    #[serde(default)]
    pub broken: Vec<String>,
    /// A project that cannot be loaded must not offer anything.
    #[serde(default)]
    pub strict: bool,
    /// Documents that cannot be read although the project has them.
    #[serde(default)]
    pub odd: Vec<String>,
}
impl Session {
    pub fn new(evs: Vec<Ev>) -> Session {
        Session { evs, cut: Cut::PerMessage, seed: 0, pause: 0, early: false, tail: false, hold: false, dead: vec![], broken: vec![], strict: false, odd: vec![] }
    }
}

pub fn uri(path: &str, style: u64) -> String {
    let mut o = String::from("file://");
    for b in path.bytes() {
        let c = b as char;
        let plain = c.is_ascii_alphanumeric() || "-._~/".contains(c) || (style & 1 == 0 && "[]".contains(c));
        if plain {
            o.push(c)
        } else if style & 2 == 0 {
            o += &format!("%{:02X}", b)
        } else {
            o += &format!("%{:02x}", b)
        }
    }
    o
}
const FILLER: &str = "長い文書 — ünïcödé 🙂 \\ \" \r\n Content-Length: 7\r\n\r\n{}";

fn body(what: &What, id: &Option<Value>, style: u64) -> Vec<u8> {
    let mut r = Rng::new(style);
    let us = r.u64() & 3;
    let doc = |p: &str| json!({"uri": uri(p, us)});
    let filler = |r: &mut Rng| {
        // the texts of real documents reach hundreds of kilobytes
        let n = if r.chance(0.03) { r.range(300, 3000) } else { *r.pick(&[0, 0, 1, 1, 3, 14, 40, 300]) };
        FILLER.repeat(n)
    };
    let (method, params): (Option<String>, Option<Value>) = match what {
        What::Initialize(d) => {
            let mut td = json!({"synchronization": {"didSave": true}, "completion": {"completionItem": {"snippetSupport": true}}});
            if *d {
                td["publishDiagnostics"] = if r.chance(0.5) { json!({}) } else { json!({"relatedInformation": true}) };
            }
            let mut p = json!({"processId": null, "rootUri": null, "capabilities": {"textDocument": td}});
            if !*d && r.chance(0.3) {
                p["capabilities"] = json!({});
            }
            if r.chance(0.5) {
                p["clientInfo"] = json!({"name": filler(&mut r)});
            }
            (Some("initialize".into()), Some(p))
        }
        What::Initialized => (Some("initialized".into()), Some(json!({}))),
        What::DidOpen(p) => (
            Some("textDocument/didOpen".into()),
            Some(json!({"textDocument": {"uri": uri(p, us), "languageId": "brack", "version": 1, "text": filler(&mut r)}})),
        ),
        What::DidChange(p) => (
            Some("textDocument/didChange".into()),
            Some(json!({"textDocument": {"uri": uri(p, us), "version": 2}, "contentChanges": [{"text": filler(&mut r)}]})),
        ),
        What::DidSave(p) => {
            let mut v = json!({"textDocument": doc(p)});
            if r.chance(0.3) {
                v["text"] = json!("[[[ not what is on disk");
            }
            (Some("textDocument/didSave".into()), Some(v))
        }
        What::Tokens(p) => (Some("textDocument/semanticTokens/full".into()), Some(json!({"textDocument": doc(p)}))),
        What::Completion(p, t) => {
            let mut v = json!({"textDocument": doc(p), "position": {"line": 0, "character": 1}});
            v["context"] = match t {
                Some(c) => json!({"triggerKind": 2, "triggerCharacter": c}),
                None => json!({"triggerKind": 1}),
            };
            (Some("textDocument/completion".into()), Some(v))
        }
        What::Unsupported(m) => (Some(m.clone()), if r.chance(0.7) { Some(json!({"a": filler(&mut r)})) } else { None }),
        What::Silent(m) => (Some(m.clone()), if r.chance(0.7) { Some(json!({"id": 3, "a": filler(&mut r)})) } else { None }),
        What::Reply => (None, None),
        What::Bad(BadMsg::Raw(b)) => return b.clone(),
        What::Bad(BadMsg::Params(m, p)) => (Some(m.clone()), p.clone()),
    };
    let mut kv: Vec<(&str, Value)> = vec![("jsonrpc", json!("2.0"))];
    if let Some(i) = id {
        kv.push(("id", i.clone()));
    }
    if let Some(m) = method {
        kv.push(("method", json!(m)));
    }
    if let Some(p) = params {
        kv.push(("params", p));
    }
    if *what == What::Reply {
        kv.push(if r.chance(0.5) { ("result", Value::Null) } else { ("error", json!({"code": -32601, "message": "no"})) });
    }
    if r.chance(0.4) {
        r.shuffle(&mut kv);
    }
    let sp = if r.chance(0.2) { "\r\n  " } else { "" };
    let mut o = String::from("{");
    for (i, (k, v)) in kv.iter().enumerate() {
        if i > 0 {
            o += ",";
        }
        o += sp;
        o += &format!("\"{}\":{}", k, v);
    }
    o += "}";
    if r.chance(0.2) {
        // ASCII-only JSON
        let mut a = String::new();
        for c in o.chars() {
            if c.is_ascii() {
                a.push(c)
            } else {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    a += &format!("\\u{:04x}", u);
                }
            }
        }
        o = a;
    }
    o.into_bytes()
}
fn frame(b: &[u8], style: u64) -> Vec<u8> {
    let n = b.len();
    let h = match mix(style) % 10 {
        0 => format!("Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", n),
        1 => format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {}\r\n\r\n", n),
        _ => format!("Content-Length: {}\r\n\r\n", n),
    };
    let mut o = h.into_bytes();
    o.extend_from_slice(b);
    if style > 0 && mix(style ^ 3) % 8 == 0 && b.last() == Some(&b'}') {
        // a message that ends where a buffer does
        let to = [512, 1024, 1024, 1024, 2048, 4096][mix(style ^ 4) as usize % 6];
        let mut m = n;
        loop {
            let h = String::from_utf8_lossy(&o[..o.len() - n]).replace(&format!(": {}\r", n), &format!(": {}\r", m));
            if (h.len() + m) % to == 0 {
                let mut p = h.into_bytes();
                p.extend_from_slice(b);
                p.resize(p.len() + m - n, b' ');
                return p;
            }
            m += 1;
            if m > n + 2 * to {
                break;
            }
        }
    }
    o
}

/// What one message must lead to.
#[derive(Debug)]
enum Exp {
    Resp { id: Value, rule: Rule, what: String },
    /// None: it may or may not be published, with whatever content.
    Diag { path: String, want: Option<Vec<Diag>> },
    Bad { id: Option<Value> },
}
#[derive(Debug)]
enum Rule {
    Any,
    Init,
    NotFound,
    Nothing,
    NothingOrError,
    Items(BTreeSet<String>),
    Toks(Vec<Tok>),
}

struct Model {
    files: BTreeMap<String, Content>,
    cfgs: BTreeMap<String, Option<Cfg>>,
    caps: bool,
    /// None: nothing opened; Some(None): opened, but its plugins cannot be judged
    cur: Option<Option<Cfg>>,
    dead: BTreeSet<String>,
    broken: BTreeSet<String>,
    strict: bool,
}
impl Model {
    fn new(se: &Session, st: &State) -> Model {
        let mut m = Model { files: BTreeMap::new(), cfgs: BTreeMap::new(), caps: false, cur: None, dead: se.dead.iter().cloned().collect(), broken: se.broken.iter().cloned().collect(), strict: se.strict };
        for p in st.projs.values() {
            m.cfgs.insert(p.dir.clone(), Some(p.cfg.clone()));
            for (s, d) in &p.docs {
                m.files.insert(p.doc_path(s), Content::Doc(d.clone()));
            }
        }
        for o in &se.odd {
            m.files.insert(o.clone(), Content::Odd(vec![]));
        }
        m
    }
    fn step(&mut self, e: &Ev) -> Vec<Exp> {
        match e {
            Ev::Settle => vec![],
            Ev::File { path, content, .. } => {
                self.files.insert(path.clone(), content.clone());
                vec![]
            }
            Ev::Cfg { dir, cfg } => {
                self.cfgs.insert(dir.clone(), cfg.clone());
                vec![]
            }
            Ev::Msg { what, id, style } => {
                let resp = |rule: Rule| match id {
                    Some(id) => vec![Exp::Resp { id: id.clone(), rule, what: format!("{:?}", what) }],
                    None => vec![],
                };
                match what {
                    What::Initialize(d) => {
                        if id.is_some() {
                            self.caps = *d;
                        }
                        resp(Rule::Init)
                    }
                    What::Initialized | What::Silent(_) | What::Reply | What::DidChange(_) => vec![],
                    What::Unsupported(_) => resp(Rule::NotFound),
                    What::Bad(BadMsg::Params(..)) if id.is_some() => resp(Rule::Any),
                    What::Bad(_) => vec![Exp::Bad { id: id.clone() }],
                    What::DidOpen(p) => {
                        let dir = p.rsplitn(3, '/').nth(2).unwrap_or("").to_string();
                        if let Some(Some(c)) = self.cfgs.get(&dir) {
                            let urls = c.urls();
                            if !urls.iter().any(|u| self.dead.contains(u)) {
                                self.cur = Some(if urls.iter().any(|u| self.broken.contains(u)) || c.contested() { None } else { Some(c.clone()) });
                            }
                        }
                        vec![]
                    }
                    What::DidSave(p) => {
                        if !self.caps {
                            return vec![];
                        }
                        let want = match self.files.get(p) {
                            Some(Content::Doc(d)) => Some(d.render().diags),
                            _ => None,
                        };
                        vec![Exp::Diag { path: uri(p, Rng::new(*style).u64() & 3), want }]
                    }
                    What::Tokens(p) => resp(match self.files.get(p) {
                        Some(Content::Doc(d)) => Rule::Toks(d.render().toks),
                        _ => Rule::Any,
                    }),
                    What::Completion(_, t) => resp(match (&self.cur, t.as_deref()) {
                        (None, _) => Rule::NothingOrError,
                        (Some(None), _) if self.strict => Rule::NothingOrError,
                        (Some(None), _) => Rule::Any,
                        (Some(Some(c)), Some(t)) if t == "[" || t == "{" => {
                            let ty = if t == "[" { Ty::Inline } else { Ty::Block };
                            Rule::Items(c.plugins.iter().flat_map(|p| p.tag(&c.backend).commands().into_iter().filter(|k| k.ret == ty).map(|k| format!("{}.{}", p.name, k.name)).collect::<Vec<_>>()).collect())
                        }
                        (Some(Some(_)), _) => Rule::Nothing,
                    }),
                }
            }
        }
    }
}

/// (end offset, message) for every frame; an incomplete one at the end is an error
/// unless `open`.
fn frames(b: &[u8], open: bool) -> Result<Vec<(usize, Value)>, String> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let bad = |why: &str| Err(format!("framing: {} at byte {} of the output: {:?}", why, i, short(&b[i..b.len().min(i + 120)])));
        let h = match b[i..].windows(4).position(|w| w == b"\r\n\r\n") {
            Some(h) => h,
            None => {
                let rest = &b[i..];
                let pre = b"Content-Length: ";
                let k = rest.len().min(pre.len());
                if open && rest[..k] == pre[..k] && rest[k..].iter().all(|c| c.is_ascii_digit() || *c == b'\r' || *c == b'\n') {
                    return Ok(o);
                }
                return bad("no complete header");
            }
        };
        let head = match std::str::from_utf8(&b[i..i + h]) {
            Ok(s) => s,
            Err(_) => return bad("the header is not text"),
        };
        let mut len = None;
        for l in head.split("\r\n") {
            match l.split_once(": ") {
                Some(("Content-Length", n)) if len.is_none() && n.bytes().all(|c| c.is_ascii_digit()) => len = n.parse::<usize>().ok(),
                Some(("Content-Type", _)) => {}
                _ => return bad("not a header"),
            }
        }
        let n = match len {
            Some(n) => n,
            None => return bad("no Content-Length"),
        };
        let at = i + h + 4;
        if at + n > b.len() {
            if open {
                return Ok(o);
            }
            return bad("fewer bytes than Content-Length says");
        }
        let v: Value = match serde_json::from_slice(&b[at..at + n]) {
            Ok(v) => v,
            Err(_) => return bad("the body is not JSON"),
        };
        if v["jsonrpc"] != "2.0" || !v.is_object() {
            return bad("not JSON-RPC 2.0");
        }
        let method = v.get("method").map_or(false, |m| m.is_string());
        let resp = v.get("id").is_some() && (v.get("result").is_some() != v.get("error").is_some());
        if method == resp {
            return bad("neither a response nor a notification");
        }
        i = at + n;
        o.push((i, v));
    }
    Ok(o)
}

fn show(v: &Value) -> String {
    short(v.to_string().as_bytes())
}

impl Session {
    /// The stdin plan, and for each of its Settle events how many events precede it.
    fn lay(&self, st: &State) -> (Vec<In>, BTreeMap<usize, usize>) {
        let _ = st;
        let mut r = Rng::new(self.seed ^ 77);
        let mut ins: Vec<In> = vec![];
        let mut settles = BTreeMap::new();
        // messages up to a point of rest: (bytes, event index after)
        let mut pend: Vec<Vec<u8>> = vec![];
        // bytes of the following message that were sent before
        let mut ahead = 0usize;
        let n = self.evs.len();
        let next_msg = |i: usize| self.evs[i..].iter().find_map(|e| if let Ev::Msg { what, id, style } = e { Some(frame(&body(what, id, *style), *style)) } else { None });
        let mut send = |pend: &mut Vec<Vec<u8>>, extra: Vec<u8>, ins: &mut Vec<In>, r: &mut Rng| {
            let mut all: Vec<u8> = pend.iter().flatten().copied().collect();
            all.extend_from_slice(&extra);
            let mut cuts: BTreeSet<usize> = BTreeSet::new();
            let mut at = 0;
            let mut ends = vec![];
            for p in pend.iter() {
                at += p.len();
                ends.push(at);
            }
            match self.cut {
                Cut::Whole => {}
                Cut::PerMessage => cuts.extend(ends.iter()),
                Cut::Bytes => {
                    // long stretches in larger pieces
                    let step = 1 + all.len() / 3000;
                    cuts.extend((0..all.len()).step_by(step));
                }
                Cut::Random => {
                    for _ in 0..r.range(1, 12) {
                        cuts.insert(r.below(all.len().max(1)));
                    }
                }
                Cut::Straddle => {
                    for e in &ends {
                        for _ in 0..r.range(1, 2) {
                            let d = *r.pick(&[1usize, 2, 3, 9, 16, 18, 20, 30]);
                            cuts.insert(if r.chance(0.5) { e + d } else { e.saturating_sub(d) });
                        }
                    }
                }
                Cut::Nasty => {
                    let mut spots: Vec<usize> = vec![];
                    for i in 1..all.len() {
                        let c = all[i];
                        if c & 0xc0 == 0x80 || c == b'\r' || c == b'\n' || c == b'\\' || all[i - 1] == b'\\' || all[i - 1] == b'\n' || ends.contains(&i) {
                            spots.push(i);
                        }
                    }
                    let k = r.range(1, 30).min(spots.len());
                    for _ in 0..k {
                        cuts.insert(*r.pick(&spots));
                    }
                }
            }
            cuts.insert(all.len());
            let mut from = 0;
            for c in cuts {
                if c > from && c <= all.len() {
                    let after = if self.pause > 0 && r.chance(0.5) { r.below(self.pause as usize) as u64 } else { 0 };
                    ins.push(In::Bytes { data: all[from..c].to_vec(), after });
                    from = c;
                }
            }
            pend.clear();
        };
        let mut i = 0;
        while i < n {
            match &self.evs[i] {
                Ev::Msg { what, id, style } => {
                    let f = frame(&body(what, id, *style), *style);
                    pend.push(f[ahead..].to_vec());
                    ahead = 0;
                }
                e => {
                    // everything so far, and perhaps the beginning of what follows
                    let extra = match next_msg(i) {
                        Some(f) if self.early && ahead == 0 => {
                            ahead = *r.pick(&[1usize, 10, 17, 21, f.len() / 2, f.len() - 1]);
                            ahead = ahead.min(f.len() - 1);
                            f[..ahead].to_vec()
                        }
                        _ => vec![],
                    };
                    send(&mut pend, extra, &mut ins, &mut r);
                    settles.insert(ins.len(), i);
                    ins.push(In::Settle);
                    let (path, data, atomic, keep) = match e {
                        Ev::File { path, content, atomic, keep } => (path.clone(), content.bytes(), *atomic, *keep),
                        Ev::Cfg { dir, cfg } => {
                            let t = match cfg {
                                Some(c) => c.toml(),
                                None => "[document\nname = \"broken".to_string(),
                            };
                            (format!("{}/Brack.toml", dir), Some(t.into_bytes()), true, false)
                        }
                        _ => {
                            i += 1;
                            continue;
                        }
                    };
                    ins.push(In::Edit { path, data, after: 0, atomic, keep });
                }
            }
            i += 1;
        }
        let extra = if self.tail {
            let f = frame("{\"jsonrpc\":\"2.0\",\"id\":\"終\",\"method\":\"textDocument/hover\"}".as_bytes(), 7);
            let k = r.range(1, f.len() - 1);
            f[..k].to_vec()
        } else {
            vec![]
        };
        send(&mut pend, extra, &mut ins, &mut r);
        settles.insert(ins.len(), n);
        ins.push(In::Settle);
        if self.hold {
            ins.push(In::Hold);
        }
        (ins, settles)
    }
    pub fn configs(&self) -> impl Iterator<Item = &Cfg> {
        self.evs.iter().filter_map(|e| if let Ev::Cfg { cfg, .. } = e { cfg.as_ref() } else { None })
    }
    pub fn plan(&self, st: &State) -> Vec<In> {
        self.lay(st).0
    }

    /// Replies without logs, in a form that can be compared between runs.
    pub fn canonical(&self, out: &[u8]) -> Result<Vec<String>, String> {
        let mut o = vec![];
        for (_, mut v) in frames(out, false)? {
            if v["method"] == "window/logMessage" {
                continue;
            }
            if let Some(a) = v.get_mut("result").and_then(|r| r.as_array_mut()) {
                a.sort_by_key(|x| x["label"].to_string());
            }
            if v["error"].is_object() {
                v["error"]["message"] = json!("");
            }
            o.push(v.to_string());
        }
        Ok(o)
    }

    pub fn judge(&self, st: &State, res: &Res, node: usize, stage: &Stage, case: &Case) -> Verdict {
        let _ = case;
        let out = &res.out[node];
        let cut = stage.out.limit.is_some() || res.end == End::Crashed || stage.crash.is_some();
        if stage.want == Want::Any {
            return Ok(());
        }
        let fr = frames(out, cut)?;
        let code = res.codes[node];
        if code != Some(0) && !cut {
            return Err(format!("ended: the server ended with {:?}{}", code, errs(res)));
        }
        // what must have been written
        let mut m = Model::new(self, st);
        let mut exps: Vec<(usize, Exp)> = vec![];
        for (i, e) in self.evs.iter().enumerate() {
            for x in m.step(e) {
                exps.push((i, x));
            }
        }
        let mut got_r: Vec<(usize, &Value)> = vec![];
        let mut got_d: Vec<(usize, &Value)> = vec![];
        let mut nulls = 0;
        let mut legend: Vec<String> = vec![];
        for (end, v) in &fr {
            match v["method"].as_str() {
                Some("textDocument/publishDiagnostics") => got_d.push((*end, v)),
                Some(_) => {}
                None if v["id"].is_null() => {
                    if v.get("error").is_none() {
                        return Err(format!("response: a result for no request: {}", show(v)));
                    }
                    nulls += 1
                }
                None => got_r.push((*end, v)),
            }
            if let Some(l) = v["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"].as_array() {
                legend = l.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect();
            }
        }
        if legend.is_empty() {
            legend = "namespace type class enum interface struct typeParameter parameter variable property enumMember event function method macro".split(' ').map(|s| s.to_string()).collect();
        }
        let bads = exps.iter().filter(|(_, e)| matches!(e, Exp::Bad { .. })).count();
        if nulls > bads {
            return Err(format!("response: {} responses without id to {} malformed messages", nulls, bads));
        }
        // responses
        let mut k = 0;
        let mut seen_r: Vec<(usize, usize)> = vec![];
        for (i, e) in &exps {
            match e {
                Exp::Resp { id, rule, what } => {
                    let (end, v) = match got_r.get(k) {
                        Some(x) => *x,
                        None if cut => break,
                        None => return Err(format!("response: none to request {} ({})", id, what)),
                    };
                    if v["id"] != *id {
                        return Err(format!("response: expected one to request {} ({}), got {}", id, what, show(v)));
                    }
                    rule.check(v, &legend).map_err(|e| format!("{} [request {} {}]", e, id, what))?;
                    if matches!(rule, Rule::Init) {
                        announced(&case.prop, &v["result"]["capabilities"])?;
                    }
                    seen_r.push((*i, end));
                    k += 1;
                }
                Exp::Bad { id: Some(id) } => {
                    if got_r.get(k).map_or(false, |(_, v)| v["id"] == *id) {
                        k += 1;
                    }
                }
                _ => {}
            }
        }
        if let Some((_, v)) = got_r.get(k) {
            return Err(format!("response: one too many: {}", show(v)));
        }
        // diagnostics
        let want_d: Vec<(usize, &String, &Option<Vec<Diag>>)> = exps.iter().filter_map(|(i, e)| if let Exp::Diag { path, want } = e { Some((*i, path, want)) } else { None }).collect();
        let mut seen_d = vec![];
        let mut why = String::new();
        if !match_diags(&want_d, &got_d, cut, &mut seen_d, &mut why) {
            return Err(format!("diagnostics: {}", why));
        }
        // at every point of rest, everything that was complete has been answered
        if !cut {
            let (_, settles) = self.lay(st);
            let mut len = 0;
            for r in &res.recs {
                match r {
                    Rec::Out { node: n, fd: 1, data, .. } if *n as usize == node => len += data.len(),
                    Rec::Settled { n, .. } => {
                        let upto = settles.get(n).copied().unwrap_or(0);
                        for (i, end) in seen_r.iter().chain(seen_d.iter()) {
                            if *i < upto && *end > len {
                                return Err(format!("late: message {} ({:?}) was complete, but its reply came only after more input", i, self.evs[*i]));
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    pub fn shrinks(&self) -> Vec<Session> {
        let mut o = vec![];
        let n = self.evs.len();
        let mut size = n / 2;
        while size >= 1 {
            let mut i = 0;
            while i + size <= n {
                let mut s = self.clone();
                s.evs.drain(i..i + size);
                o.push(s);
                i += size;
            }
            size /= 2;
        }
        for i in 0..n {
            match &self.evs[i] {
                Ev::Msg { style, .. } if *style != 0 => {
                    let mut s = self.clone();
                    if let Ev::Msg { style, .. } = &mut s.evs[i] {
                        *style = 0;
                    }
                    o.push(s);
                }
                Ev::File { path, content: Content::Doc(d), atomic, keep } => {
                    for d in d.shrink() {
                        let mut s = self.clone();
                        s.evs[i] = Ev::File { path: path.clone(), content: Content::Doc(d), atomic: *atomic, keep: *keep };
                        o.push(s);
                    }
                }
                _ => {}
            }
        }
        for c in [Cut::PerMessage, Cut::Whole, Cut::Straddle] {
            if self.cut != c && self.cut != Cut::PerMessage {
                let mut s = self.clone();
                s.cut = c;
                o.push(s);
            }
        }
        for f in [|s: &mut Session| s.early = false, |s: &mut Session| s.tail = false, |s: &mut Session| s.pause = 0] {
            let mut s = self.clone();
            f(&mut s);
            if s != *self {
                o.push(s);
            }
        }
        o
    }
}

fn match_diags(want: &[(usize, &String, &Option<Vec<Diag>>)], got: &[(usize, &Value)], cut: bool, seen: &mut Vec<(usize, usize)>, why: &mut String) -> bool {
    let (i, path, w) = match want.first() {
        None => {
            if let Some((_, v)) = got.first() {
                *why = format!("one publication too many: {}", show(v));
                return false;
            }
            return true;
        }
        Some(x) => (x.0, x.1, x.2),
    };
    match w {
        Some(w) => {
            let (end, v) = match got.first() {
                Some(x) => *x,
                None if cut => return true,
                None => {
                    *why = format!("nothing was published after {} was saved", path);
                    return false;
                }
            };
            let u = v["params"]["uri"].as_str().unwrap_or("");
            if u != path {
                *why = format!("published for {:?} after {} was saved", u, path);
                return false;
            }
            let pos = |p: &Value| (p["line"].as_u64().unwrap_or(9999) as u32, p["character"].as_u64().unwrap_or(9999) as u32);
            let mut g: Vec<Diag> = v["params"]["diagnostics"].as_array().map(|a| a.iter().map(|d| (d["message"].as_str().unwrap_or("").to_string(), pos(&d["range"]["start"]), pos(&d["range"]["end"]))).collect()).unwrap_or_default();
            let mut w = w.clone();
            g.sort();
            w.sort();
            if g != w {
                *why = format!("for {}: published {:?}, the file has {:?}", path, g, w);
                return false;
            }
            let n = seen.len();
            seen.push((i, end));
            if match_diags(&want[1..], &got[1..], cut, seen, why) {
                return true;
            }
            seen.truncate(n);
            false
        }
        None => {
            if let Some((_, v)) = got.first() {
                if v["params"]["uri"].as_str() == Some(path) && match_diags(&want[1..], &got[1..], cut, seen, why) {
                    return true;
                }
            }
            match_diags(&want[1..], got, cut, seen, why)
        }
    }
}

/// What the server must announce, for editors to ask for it at all.
fn announced(prop: &str, c: &Value) -> Verdict {
    let on = |v: &Value| v == &json!(true) || v.is_object();
    let sync = &c["textDocumentSync"];
    let ok = match prop {
        "S06" => sync.as_u64().map_or(false, |k| k > 0) || on(&sync["save"]),
        "S07" => on(&c["semanticTokensProvider"]["full"]) && c["semanticTokensProvider"]["legend"]["tokenTypes"].is_array(),
        "S08" => {
            let t: Vec<&str> = c["completionProvider"]["triggerCharacters"].as_array().map(|a| a.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
            t.contains(&"[") && t.contains(&"{") && (sync.as_u64().map_or(false, |k| k > 0) || sync["openClose"] == json!(true))
        }
        _ => true,
    };
    if !ok {
        return Err(format!("announced: an editor is not told of it: {}", show(c)));
    }
    Ok(())
}

impl Rule {
    fn check(&self, v: &Value, legend: &[String]) -> Verdict {
        let r = &v["result"];
        let empty = r.is_null() || r.as_array().map_or(false, |a| a.is_empty()) || r["items"].as_array().map_or(false, |a| a.is_empty());
        let err = v.get("error").is_some();
        match self {
            Rule::Any => Ok(()),
            Rule::Init if r["capabilities"].is_object() => Ok(()),
            Rule::Init => Err(format!("response: initialize answered {}", show(v))),
            Rule::NotFound if v["error"]["code"] == -32601 => Ok(()),
            Rule::NotFound => Err(format!("response: an unsupported method was answered {}", show(v))),
            Rule::Nothing if !err && empty => Ok(()),
            Rule::NothingOrError if err || empty => Ok(()),
            Rule::Nothing | Rule::NothingOrError => Err(format!("completion: something was offered: {}", show(v))),
            Rule::Items(w) => {
                let a = r.as_array().or_else(|| r["items"].as_array());
                let mut g: Vec<String> = match a {
                    Some(a) => a.iter().map(|i| i["label"].as_str().unwrap_or("?").to_string()).collect(),
                    None if w.is_empty() && r.is_null() && !err => vec![],
                    None => return Err(format!("completion: answered {}", show(v))),
                };
                // and each inserts what it says
                for i in a.into_iter().flatten() {
                    let (l, t) = (i["label"].as_str().unwrap_or("?"), i["insertText"].as_str().or_else(|| i["textEdit"]["newText"].as_str()));
                    if t.map_or(false, |t| !t.starts_with(l)) {
                        return Err(format!("completion: {} inserts {:?}", l, t));
                    }
                }
                g.sort();
                let w: Vec<String> = w.iter().cloned().collect();
                if g != w {
                    let miss: Vec<_> = w.iter().filter(|x| !g.contains(x)).collect();
                    let more: Vec<_> = g.iter().filter(|x| !w.contains(x)).collect();
                    return Err(format!("completion: {} items for {}, missing {:?}, not expected {:?}", g.len(), w.len(), miss, more));
                }
                Ok(())
            }
            Rule::Toks(w) => {
                let d: Vec<u64> = match r["data"].as_array() {
                    Some(a) => a.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect(),
                    None if w.is_empty() && r.is_null() && !err => vec![],
                    None => return Err(format!("tokens: answered {}", show(v))),
                };
                if d.len() % 5 != 0 {
                    return Err(format!("tokens: {} numbers", d.len()));
                }
                let (mut l, mut c) = (0u64, 0u64);
                let mut g: Vec<(u32, u32, u32, &str)> = vec![];
                for t in d.chunks(5) {
                    if t[0] > 0 {
                        c = 0;
                    }
                    l = l.wrapping_add(t[0]);
                    c = c.wrapping_add(t[1]);
                    if let Some(k) = legend.get(t[3] as usize) {
                        g.push((l as u32, c as u32, t[2] as u32, k));
                    }
                }
                let same = g.len() == w.len() && g.iter().zip(w).all(|(a, b)| a.0 == b.0 && a.1 == b.1 && a.2 == b.2 && a.3 == b.3);
                if !same {
                    return Err(format!("tokens: got {:?}, the file has {:?}", g, w));
                }
                Ok(())
            }
        }
    }
}
