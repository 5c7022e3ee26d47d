//! What `brack compile --output-level 1..4 --json` has to print, from the model of
//! the document.
use crate::doc::{Cmd, Doc, Env, Item};
use crate::plug::Ty;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use unicode_segmentation::UnicodeSegmentation;

/// Lines without their ends.
struct Text {
    whole: String,
    /// byte offset of each line, its graphemes' offsets
    lines: Vec<Vec<usize>>,
}
impl Text {
    fn new(t: &str) -> Text {
        let whole = t.replace("\r\n", "\n");
        let mut lines = vec![];
        let mut at = 0;
        for l in whole.split('\n') {
            let mut g: Vec<usize> = l.grapheme_indices(true).map(|(i, _)| at + i).collect();
            g.push(at + l.len());
            lines.push(g);
            at += l.len() + 1;
        }
        Text { whole, lines }
    }
    fn offset(&self, p: &Value) -> Option<usize> {
        let l = self.lines.get(p["line"].as_u64()? as usize)?;
        let c = p["character"].as_u64()? as usize;
        match l.get(c) {
            Some(o) => Some(*o),
            // behind the line end
            None if c == l.len() => Some(l[c - 1] + 1),
            None => None,
        }
    }
    fn span<'a>(&'a self, loc: &Value) -> Option<(usize, &'a str)> {
        let (a, b) = (self.offset(&loc["start"])?, self.offset(&loc["end"])?);
        Some((a, self.whole.get(a..b.min(self.whole.len()))?))
    }
}
fn one(v: &Value) -> Result<(&str, &Value), String> {
    match v.as_object() {
        Some(o) if o.len() == 1 => o.iter().next().map(|(k, v)| (k.as_str(), v)).ok_or_else(|| "empty".into()),
        _ => Err(format!("{} is no node", v)),
    }
}
fn fixed(kind: &str) -> Option<&'static str> {
    Some(match kind {
        "NewLine" | "Newline" => "\n",
        "WhiteSpace" | "Whitespace" => " ",
        "Dot" => ".",
        "BackSlash" => "\\",
        "AngleBracketOpen" => "<",
        "AngleBracketClose" => ">",
        "SquareBracketOpen" => "[",
        "SquareBracketClose" => "]",
        "CurlyBracketOpen" => "{",
        "CurlyBracketClose" => "}",
        "Comma" => ",",
        "EOF" => "",
        _ => return None,
    })
}
/// The pieces in their order must be the document.
fn pieces(t: &Text, p: &[(String, String, Value)]) -> Result<(), String> {
    let mut at = 0;
    for (k, s, loc) in p {
        match t.span(loc) {
            Some((a, x)) if a == at && x == s => at += s.len(),
            _ => return Err(format!("{} {:?} is said to be at {}, where the document does not have it; {:?} was due", k, s, loc, t.whole[at..].chars().take(12).collect::<String>())),
        }
    }
    if at != t.whole.len() {
        return Err(format!("{:?} of the document is missing", &t.whole[at..]));
    }
    match p.last() {
        Some((k, _, _)) if k == "EOF" => {}
        _ => return Err("it does not end in EOF".into()),
    }
    if p[..p.len() - 1].iter().any(|x| x.0 == "EOF") {
        return Err("EOF in the middle".into());
    }
    Ok(())
}
/// Names and brackets as the language server decorates them.
fn decorated(d: &Doc, p: &[(String, String, Value)]) -> Result<(), String> {
    let r = d.render();
    let lines: Vec<Vec<u16>> = r.text.replace("\r\n", "\n").split('\n').map(|l| l.encode_utf16().collect()).collect();
    let want: Vec<(&str, String)> = r.toks.iter().map(|(l, c, n, k)| (*k, String::from_utf16_lossy(&lines[*l as usize][*c as usize..(*c + *n) as usize]))).collect();
    let mut got = vec![];
    let mut i = 0;
    while i < p.len() {
        let (k, s, _) = &p[i];
        match k.as_str() {
            "BackSlash" if p.get(i + 1).map_or(false, |n| n.0.contains("Bracket") || n.0 == "BackSlash") => i += 1,
            "Module" => got.push(("namespace", s.clone())),
            "Ident" => got.push(("variable", s.clone())),
            "AngleBracketOpen" | "AngleBracketClose" => got.push(("macro", s.clone())),
            "SquareBracketOpen" | "SquareBracketClose" => got.push(("function", s.clone())),
            "CurlyBracketOpen" | "CurlyBracketClose" => got.push(("method", s.clone())),
            _ => {}
        }
        i += 1;
    }
    if got != want {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("name or bracket {} is {:?}, expected {:?}", k, got.get(k), want.get(k)));
    }
    Ok(())
}
fn tokens(d: &Doc, v: &Value) -> Result<(), String> {
    let t = Text::new(&d.text());
    let mut p = vec![];
    for x in v.as_array().ok_or("no array")? {
        let (k, b) = one(x)?;
        match (fixed(k), b) {
            (Some(s), loc) => p.push((k.to_string(), s.to_string(), loc.clone())),
            (None, Value::Array(a)) if a.len() == 2 && ["Text", "Module", "Ident"].contains(&k) => p.push((k.to_string(), a[0].as_str().ok_or("no text")?.to_string(), a[1].clone())),
            _ => return Err(format!("unexpected token {}", x)),
        }
    }
    pieces(&t, &p)?;
    decorated(d, &p)
}
fn id(b: &Value, ids: &mut BTreeSet<String>) -> Result<(), String> {
    let i = b["id"].as_str().ok_or("a node has no id")?;
    if !ids.insert(i.to_string()) {
        return Err("two nodes have one id".into());
    }
    Ok(())
}
fn leaves(v: &Value, good: bool, p: &mut Vec<(String, String, Value)>, ids: &mut BTreeSet<String>) -> Result<(), String> {
    let (k, b) = one(v)?;
    id(b, ids)?;
    match k {
        "Document" | "Stmt" | "Expr" | "Angle" | "Curly" | "Square" => {
            let c = b["children"].as_array().ok_or("no children")?;
            if good && ["Angle", "Curly", "Square"].contains(&k) {
                let (o, z) = (format!("{}BracketOpen", k), format!("{}BracketClose", k));
                let n = c.len();
                if n < 2 || one(&c[0])?.0 != o || one(&c[n - 1])?.0 != z {
                    return Err(format!("a node {} is not inside of its brackets", k));
                }
                for x in &c[1..n - 1] {
                    if one(x)?.0.contains("Bracket") {
                        return Err(format!("a bracket inside of a node {}", k));
                    }
                }
            }
            for x in c {
                leaves(x, good, p, ids)?;
            }
        }
        "BackSlash" => {
            p.push((k.into(), "\\".into(), b["location"].clone()));
            for x in b["children"].as_array().ok_or("no children")? {
                leaves(x, good, p, ids)?;
            }
        }
        "Text" | "Module" | "Ident" => p.push((k.into(), b["value"].as_str().ok_or("no value")?.into(), b["location"].clone())),
        k => match fixed(k) {
            Some(s) => p.push((k.into(), s.into(), b["location"].clone())),
            None => return Err(format!("unexpected node {}", k)),
        },
    }
    Ok(())
}
fn cst(d: &Doc, v: &Value) -> Result<(), String> {
    let t = Text::new(&d.text());
    let (mut p, mut ids) = (vec![], BTreeSet::new());
    let good = !d.is_bad();
    leaves(v, good, &mut p, &mut ids)?;
    pieces(&t, &p)?;
    if good {
        let n = v["Document"]["children"].as_array().map_or(0, |c| c.iter().filter(|x| x.get("Stmt").is_some()).count());
        if n != d.stmts.len() {
            return Err(format!("{} statements for {}", n, d.stmts.len()));
        }
    }
    Ok(())
}
/// Without ids and places, texts next to each other joined.
fn push(o: &mut Vec<Value>, v: Value) {
    if let (Some(Value::String(a)), Value::String(b)) = (o.last_mut(), &v) {
        a.push_str(b);
    } else {
        o.push(v);
    }
}
fn shape(v: &Value, t: Option<&Text>, ids: &mut BTreeSet<String>) -> Result<Value, String> {
    let (k, b) = one(v)?;
    if t.is_some() {
        id(b, ids)?;
    }
    match k {
        "Text" | "Module" | "Ident" => {
            let s = b["value"].as_str().ok_or("no value")?;
            if let Some(t) = t {
                if t.span(&b["location"]).map(|x| x.1) != Some(s) {
                    return Err(format!("{} {:?} is not at {}", k, s, b["location"]));
                }
            }
            Ok(if k == "Text" { json!(s) } else { json!({ k: s }) })
        }
        "Document" | "Stmt" | "Expr" | "Angle" | "Curly" | "Square" => {
            let mut o = vec![];
            for x in b["children"].as_array().ok_or("no children")? {
                push(&mut o, shape(x, t, ids)?);
            }
            Ok(json!({ k: o }))
        }
        k => Err(format!("unexpected node {}", k)),
    }
}
fn model_items(v: &[Item], x: Option<(&Env, usize)>) -> Result<Value, String> {
    let mut o = vec![];
    for i in v {
        match i {
            Item::Text(t) => push(&mut o, json!(t)),
            Item::Esc(c) => push(&mut o, json!(c.to_string())),
            Item::Sp(n) => push(&mut o, json!(" ".repeat(*n))),
            Item::Nl => {}
            Item::Cmd(c) => push(&mut o, model_cmd(c, x)?),
            Item::Bad(_) => return Err("malformed".into()),
        }
    }
    Ok(json!({ "Expr": o }))
}
fn model_cmd(c: &Cmd, x: Option<(&Env, usize)>) -> Result<Value, String> {
    if let ('<', Some((env, n))) = (c.open, x) {
        let t = env.modules.get(&c.module).ok_or("unknown module")?;
        let k = t.command(&c.name, Ty::Ast).ok_or("unknown macro")?;
        let mark = t.prefix(&k);
        return Ok(match k.name.as_str() {
            "boom" => return Err("plugin trap".into()),
            "mac" => {
                let mut o = vec![json!(mark)];
                for a in &c.args {
                    o.push(model_items(a, None)?);
                }
                json!({ "Expr": o })
            }
            "whole" => json!(format!("{}{:02}>", mark, n)),
            _ => json!(format!("{}>", mark)),
        });
    }
    let mut o = vec![json!({ "Module": c.module }), json!({ "Ident": c.name })];
    for a in &c.args {
        o.push(model_items(a, x)?);
    }
    Ok(json!({ match c.open { '[' => "Square", '{' => "Curly", _ => "Angle" }: o }))
}
fn model(d: &Doc, env: Option<&Env>) -> Result<Value, String> {
    let n = d.stmts.len();
    let s = d.stmts.iter().map(|s| Ok(json!({ "Stmt": s.iter().map(|l| model_items(l, env.map(|e| (e, n)))).collect::<Result<Vec<_>, String>>()? }))).collect::<Result<Vec<_>, String>>()?;
    Ok(json!({ "Document": s }))
}
/// Must it fail at this level?
pub fn possible(level: u32, d: &Doc, env: &Env) -> Result<(), String> {
    match level {
        4 => model(d, Some(env)).map(|_| ()),
        _ => Ok(()),
    }
}
fn first_difference(a: &Value, b: &Value, at: String) -> String {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if p != q {
                    return first_difference(p, q, format!("{}/{}", at, i));
                }
            }
            format!("{} has {} parts, expected {}", at, x.len(), y.len())
        }
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
            let (k, v) = x.iter().find(|(k, v)| y[*k] != **v).unwrap();
            first_difference(v, &y[k], format!("{}/{}", at, k))
        }
        _ => {
            let s = |v: &Value| v.to_string().chars().take(120).collect::<String>();
            format!("{} is {}, expected {}", at, s(a), s(b))
        }
    }
}
pub fn check(level: u32, json: bool, out: &[u8], d: &Doc, env: &Env) -> Result<(), String> {
    let s = std::str::from_utf8(out).map_err(|_| "not UTF-8")?;
    let s = s.strip_suffix('\n').ok_or("the last line is not complete")?;
    if !json {
        if level == 3 && d.is_bad() {
            let n = d.render().diags.len();
            return if s.lines().count() == n { Ok(()) } else { Err(format!("{} lines for {} errors", s.lines().count(), n)) };
        }
        return if s.is_empty() { Err("nothing".into()) } else { Ok(()) };
    }
    let v: Value = serde_json::from_str(s).map_err(|e| format!("no JSON: {}", e))?;
    match level {
        1 => tokens(d, &v),
        2 => cst(d, &v),
        3 if d.is_bad() => one(&v).map(|_| ()),
        _ => {
            let want = model(d, if level == 4 { Some(env) } else { None })?;
            let t = Text::new(&d.text());
            let got = shape(&v, if level == 3 { Some(&t) } else { None }, &mut BTreeSet::new())?;
            if got != want {
                return Err(first_difference(&got, &want, String::new()));
            }
            Ok(())
        }
    }
}
