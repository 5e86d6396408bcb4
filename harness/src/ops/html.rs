//! HTML of a page against the tokens the specification derives.
use crate::expect::{normal, unescape};
use crate::text::{arr, num, st, Text};
use crate::Outcome;
use serde_json::{json, Value};
use std::path::PathBuf;
use vimwiki::{HtmlConfig, HtmlRuntimeConfig, HtmlWikiConfig, Language, Page, ToHtmlString};

/// a piece of real HTML
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Open(String, Vec<(String, String)>),
    Close(String),
    Void(String, Vec<(String, String)>),
    Text(String),
    Comment(String),
}

const ENTITIES: &[(&str, char)] = &[("amp", '&'), ("lt", '<'), ("gt", '>'), ("quot", '"'), ("apos", '\'')];

/// character references; anything else after & is an error
pub fn unentity(s: &str) -> Result<String, Value> {
    let mut out = String::new();
    let mut r = s;
    while let Some(i) = r.find('&') {
        out.push_str(&r[..i]);
        r = &r[i + 1..];
        let e = r.find(';').ok_or_else(|| json!({"bare & in": s}))?;
        let n = &r[..e];
        let c = if let Some(h) = n.strip_prefix("#x").or_else(|| n.strip_prefix("#X")) {
            u32::from_str_radix(h, 16).ok().and_then(std::char::from_u32)
        } else if let Some(d) = n.strip_prefix('#') {
            d.parse().ok().and_then(std::char::from_u32)
        } else {
            ENTITIES.iter().find(|x| x.0 == n).map(|x| x.1)
        };
        out.push(c.ok_or_else(|| json!({"bare & in": s}))?);
        r = &r[e + 1..];
    }
    out.push_str(r);
    Ok(out)
}

const VOID: &[&str] = &["hr", "img", "br"];

pub fn tokens(html: &str) -> Result<Vec<Tok>, Value> {
    let mut out = vec![];
    let mut r = html;
    while !r.is_empty() {
        if let Some(x) = r.strip_prefix("<!--") {
            // where a browser ends the comment
            if x.starts_with('>') || x.starts_with("->") {
                return Err(json!({"comment ends at once": r}));
            }
            let e = match (x.find("-->"), x.find("--!>")) {
                (Some(a), Some(b)) => a.min(b),
                (Some(a), None) => a,
                _ => return Err(json!({"open comment": r})),
            };
            out.push(Tok::Comment(x[..e].to_string()));
            r = &x[e..];
            r = r.strip_prefix("-->").or_else(|| r.strip_prefix("--!>")).unwrap();
        } else if let Some(x) = r.strip_prefix("</") {
            let e = x.find('>').ok_or_else(|| json!({"open tag": r}))?;
            out.push(Tok::Close(x[..e].to_string()));
            r = &x[e + 1..];
        } else if let Some(x) = r.strip_prefix('<') {
            let (tag, attrs, n) = open_tag(x)?;
            r = &x[n..];
            out.push(if VOID.contains(&tag.as_str()) { Tok::Void(tag, attrs) } else { Tok::Open(tag, attrs) });
        } else {
            let e = r.find('<').unwrap_or(r.len());
            if r[..e].contains('>') {
                return Err(json!({"bare > in": &r[..e]}));
            }
            let t = unentity(&r[..e])?;
            if let Some(Tok::Text(p)) = out.last_mut() {
                p.push_str(&t)
            } else {
                out.push(Tok::Text(t))
            }
            r = &r[e..];
        }
    }
    Ok(out)
}

type Attrs = Vec<(String, String)>;

fn open_tag(x: &str) -> Result<(String, Attrs, usize), Value> {
    let b = x.as_bytes();
    let bad = |w: &str| Err(json!({ w: x.chars().take(60).collect::<String>() }));
    let ws = |c: u8| c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' || c == 12;
    let mut i = 0;
    while i < b.len() && (b[i].is_ascii_alphanumeric()) {
        i += 1;
    }
    if i == 0 {
        return bad("no tag name");
    }
    let tag = x[..i].to_string();
    let mut attrs = vec![];
    loop {
        while i < b.len() && (ws(b[i]) || (b[i] == b'/' && x[i..].starts_with("/>"))) {
            i += 1;
        }
        if i >= b.len() {
            return bad("open tag");
        }
        if b[i] == b'>' {
            return Ok((tag, attrs, i + 1));
        }
        let a = i;
        while i < b.len() && !ws(b[i]) && b[i] != b'=' && b[i] != b'>' && !(b[i] == b'/' && x[i..].starts_with("/>")) {
            if b[i] == b'"' || b[i] == b'\'' || b[i] == b'<' {
                return bad("attribute name");
            }
            i += 1;
        }
        let name = unentity(&x[a..i])?;
        let mut k = i;
        while k < b.len() && ws(b[k]) {
            k += 1;
        }
        if k < b.len() && b[k] == b'=' {
            i = k;
        }
        if x[i..].starts_with("=\"") {
            let v = i + 2;
            let e = match x[v..].find('"') {
                Some(e) => v + e,
                None => return bad("open value"),
            };
            if x[v..e].contains(|c| c == '<' || c == '>') {
                return bad("markup in value");
            }
            // a target is a URI reference, in which a bare & is as good as an escaped one
            if name != "href" && name != "src" {
                unentity(&x[v..e])?;
            }
            attrs.push((name, x[v..e].to_string()));
            i = e + 1;
            if i < b.len() && !ws(b[i]) && b[i] != b'>' && b[i] != b'/' {
                return bad("text after value");
            }
        } else if i < b.len() && b[i] == b'=' {
            return bad("unquoted value");
        } else {
            attrs.push((name, String::new()));
        }
    }
}

pub fn path(v: &Value) -> Vec<String> {
    arr(v).iter().map(|c| Text::new(c).s).collect()
}
pub fn absolute(p: &[String]) -> PathBuf {
    let mut r = PathBuf::from("/");
    p.iter().for_each(|c| r.push(c));
    r
}

pub fn config(c: &Value) -> HtmlConfig {
    let wikis: Vec<HtmlWikiConfig> = arr(&c["wikis"])
        .iter()
        .map(|w| HtmlWikiConfig {
            path: absolute(&path(&w["path"])),
            path_html: absolute(&path(&w["html"])),
            name: Some(Text::new(&w["name"]).s).filter(|x| !x.is_empty()),
            diary_rel_path: path(&w["diary"]).iter().collect(),
            ..Default::default()
        })
        .collect();
    let wi = num(&c["wi"]) - 1;
    let mut page = wikis[wi].path.clone();
    path(&c["page"]).iter().for_each(|x| page.push(x));
    let mut h = HtmlConfig {
        runtime: HtmlRuntimeConfig { wiki_index: Some(wi), page },
        wikis,
        ..Default::default()
    };
    h.paragraph.ignore_newline = c["nl"] != true;
    h.comment.include = c["com"] == true;
    h.header.table_of_contents = Text::new(&c["toc"]).s;
    h.code.server_side = c["server"] == true;
    h
}

/// following a reference from the place of a file: the file and the anchor
fn follow(out: &[String], r: &str) -> Result<(Vec<String>, String), Value> {
    let (p, frag) = match r.find('#') {
        Some(i) => (&r[..i], &r[i + 1..]),
        None => (r, ""),
    };
    if p.contains('?') {
        return Err(json!({"a query in": r}));
    }
    if p.split('/').next().unwrap().contains(':') || p.starts_with("//") {
        return Err(json!({"not a path": r}));
    }
    if p.is_empty() {
        return Ok((out.to_vec(), unescape(frag)));
    }
    let mut at: Vec<String> = if p.starts_with('/') { vec![] } else { out[..out.len() - 1].to_vec() };
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                if at.pop().is_none() {
                    return Err(json!({"above the root": r}));
                }
            }
            s => at.push(unescape(s)),
        }
    }
    if p.ends_with('/') {
        return Err(json!({"a directory": r}));
    }
    Ok((at, unescape(frag)))
}

struct Case<'a> {
    t: &'a Text,
    out: Vec<String>,
}

impl Case<'_> {
    /// what the value of an attribute must be; Err tells why the actual one is not it
    fn value(&self, e: &Value, raw: &str) -> Result<(), Value> {
        let v = arr(e);
        let decoded = unentity(raw);
        match st(&v[0]) {
            "s" => {
                let w = Text::new(&v[1]).s;
                if w == decoded? { Ok(()) } else { Err(json!({"expected": w})) }
            }
            "uri" => {
                let w = unescape(&normal(&self.t.sub(num(&v[1]), num(&v[2]))));
                if w == unescape(raw) || decoded.map_or(false, |a| w == unescape(&a)) { Ok(()) } else { Err(json!({"expected": w})) }
            }
            "loc" => {
                let comps: Vec<String> = path(&v[1]).iter().map(|x| unescape(x)).collect();
                let frag = unescape(&Text::new(&v[2]).s);
                let want = (comps, frag);
                if let Ok(a) = decoded {
                    if follow(&self.out, &a) == Ok(want.clone()) {
                        return Ok(());
                    }
                }
                let got = follow(&self.out, raw)?;
                if got == want {
                    Ok(())
                } else {
                    Err(json!({"leads to": got.0.join("/"), "anchor": got.1, "expected": want.0.join("/"), "expected anchor": want.1}))
                }
            }
            x => panic!("value {}", x),
        }
    }

    fn attrs(&self, e: &Value, a: &[(String, String)]) -> Result<(), Value> {
        let mut left: Vec<&(String, String)> = a.iter().collect();
        for x in arr(e) {
            let x = arr(x);
            let mut names: Vec<String>;
            let last: Value;
            if st(&x[0]) == "a" {
                names = vec![st(&x[1]).to_string()];
                last = x[2].clone();
            } else {
                let n = self.t.sub(num(&x[1]), num(&x[2]));
                names = n.split(|c: char| " \t\n\r\u{c}".contains(c)).filter(|s| !s.is_empty()).map(str::to_string).collect();
                let v = self.t.sub(num(&x[3]), num(&x[4]));
                last = json!(["s", v]);
            }
            let n = names.pop().unwrap_or_default();
            for m in names {
                match left.iter().position(|y| y.0 == m && y.1.is_empty()) {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => return Err(json!({"no attribute": m})),
                }
            }
            let mut why = Value::Null;
            let mut hit = None;
            for (i, y) in left.iter().enumerate() {
                if y.0 == n {
                    match self.value(&last, &y.1) {
                        Ok(()) => {
                            hit = Some(i);
                            break;
                        }
                        Err(w) => why = json!({"attribute": n, "actual": y.1, "why": w}),
                    }
                }
            }
            match hit {
                Some(i) => {
                    left.remove(i);
                }
                None if why.is_null() => return Err(json!({"no attribute": n})),
                None => return Err(why),
            }
        }
        match left.first() {
            None => Ok(()),
            Some(x) => Err(json!({"extra attribute": x.0, "value": x.1})),
        }
    }

    /// the expected tokens, texts next to each other joined
    fn expected(&self, h: &Value) -> Vec<Value> {
        let mut out: Vec<Value> = vec![];
        for x in arr(h) {
            let v = arr(x);
            let text = match st(&v[0]) {
                "t" => Some(Text::new(&v[1]).s),
                "u" => Some(unescape(&normal(&self.t.sub(num(&v[1]), num(&v[2]))))),
                "n" => Some(normal(&self.t.sub(num(&v[1]), num(&v[2])))),
                _ => None,
            };
            match text {
                None => out.push(x.clone()),
                Some(t) => {
                    if let Some(Value::String(p)) = out.last_mut() {
                        p.push_str(&t)
                    } else {
                        out.push(Value::from(t))
                    }
                }
            }
        }
        out
    }

    fn compare(&self, h: &Value, html: &str) -> Result<(), Value> {
        let e = drop_blank(self.expected(h));
        let a = tokens(html)?;
        let mut j = 0;
        let mut stack: Vec<String> = vec![];
        let near = |j: usize| a.get(j).map(|x| format!("{:?}", x));
        for (n, x) in e.iter().enumerate() {
            // blanks between the elements of lists, tables and the page
            while let Some(Tok::Text(t)) = a.get(j) {
                if t.trim().is_empty() && loose(&stack) && !(x.is_string() && x.as_str().unwrap().trim().is_empty()) {
                    j += 1
                } else {
                    break;
                }
            }
            let here = near(j);
            let bad = |why: Value| Err(json!({"token": n, "expected": x, "actual": here, "why": why}));
            if let Value::String(w) = x {
                match a.get(j) {
                    Some(Tok::Text(t)) if same_text(w, t, &stack) => j += 1,
                    _ => return bad(Value::Null),
                }
                continue;
            }
            let v = arr(x);
            match (st(&v[0]), a.get(j)) {
                ("o", Some(Tok::Open(g, at))) if g == st(&v[1]) => {
                    stack.push(g.clone());
                    if let Err(w) = self.attrs(&v[2], at) {
                        return bad(w);
                    }
                    j += 1;
                }
                ("v", Some(Tok::Void(g, at))) if g == st(&v[1]) => {
                    if let Err(w) = self.attrs(&v[2], at) {
                        return bad(w);
                    }
                    j += 1;
                }
                ("c", Some(Tok::Close(g))) if g == st(&v[1]) => {
                    stack.pop();
                    j += 1;
                }
                ("x", Some(Tok::Comment(c))) => {
                    let f = |s: &str| {
                        unentity(s).unwrap_or_else(|_| s.replace("&gt;", ">")).split_whitespace().collect::<Vec<_>>().join(" ")
                    };
                    let w = Text::new(&v[1]).s;
                    if f(&w) != f(c) {
                        return bad(Value::from(w));
                    }
                    j += 1;
                }
                ("pre", Some(Tok::Open(g, _))) if g == "pre" => {
                    j += 1;
                    let mut t = String::new();
                    loop {
                        match a.get(j) {
                            Some(Tok::Text(x)) => t.push_str(x),
                            Some(Tok::Close(g)) if g == "pre" => break,
                            Some(Tok::Open(g, _)) | Some(Tok::Close(g)) if g == "span" => {}
                            x => return bad(json!(format!("{:?} in code", x))),
                        }
                        j += 1;
                    }
                    j += 1;
                    let w = Text::new(&v[1]).s;
                    if w != t.strip_prefix('\n').unwrap_or(&t) {
                        return bad(json!([w, t]));
                    }
                }
                _ => return bad(Value::Null),
            }
        }
        while let Some(Tok::Text(t)) = a.get(j) {
            if t.trim().is_empty() {
                j += 1
            } else {
                break;
            }
        }
        if j < a.len() {
            return Err(json!({"after the end": near(j)}));
        }
        Ok(())
    }
}

/// places where blank text means nothing
fn loose(stack: &[String]) -> bool {
    match stack.last() {
        None => true,
        Some(x) => ["ul", "ol", "dl", "table", "thead", "tbody", "tr", "blockquote"].contains(&x.as_str()),
    }
}
fn drop_blank(e: Vec<Value>) -> Vec<Value> {
    let mut stack: Vec<String> = vec![];
    let mut out = vec![];
    for x in e {
        if let Value::Array(v) = &x {
            match st(&v[0]) {
                "o" => stack.push(st(&v[1]).to_string()),
                "c" => {
                    stack.pop();
                }
                _ => {}
            }
        } else if x.as_str().unwrap().trim().is_empty() && loose(&stack) {
            continue;
        }
        out.push(x);
    }
    out
}
fn same_text(w: &str, a: &str, stack: &[String]) -> bool {
    match stack.last().map(|x| x.as_str()) {
        None => w.split_whitespace().eq(a.split_whitespace()),
        Some("blockquote") => w.trim() == a.trim(),
        _ => w == a,
    }
}

pub fn html(v: &Value) -> Outcome {
    let t = Text::new(&v["t"]);
    let cfg = config(&v["cfg"]);
    let page: Page = Language::from_vimwiki_str(&t.s).parse().map_err(|e| json!({"error": format!("{}", e)}))?;
    let got = page.to_html_string(cfg);
    if v["h"] == json!(["error"]) {
        return match got {
            Err(_) => Ok(vec!["error"]),
            Ok(x) => Err(json!({"no error but": x})),
        };
    }
    let got = got.map_err(|e| json!({"error": e.to_string()}))?;
    let c = Case { t: &t, out: path(&v["out"]) };
    c.compare(&v["h"], &got).map_err(|d| json!({"diff": d, "html": got}))?;
    const TAGS: &[&str] = &[
        "a", "img", "p", "ul", "ol", "li", "dl", "dt", "dd", "table", "thead", "tbody", "th", "td", "hr", "h1", "h2", "h3", "h4", "h5", "h6",
        "blockquote", "pre", "code", "strong", "em", "del", "sup", "sub", "span", "div", "br",
    ];
    let mut tags = vec![];
    for x in arr(&v["h"]) {
        let x = arr(x);
        let k = match st(&x[0]) {
            "o" | "v" => {
                for a in arr(&x[2]) {
                    let k = match st(&arr(a)[0]) {
                        "p" => "property",
                        _ => match st(&arr(&a[2])[0]) {
                            "loc" => "place",
                            "uri" => "uri",
                            _ => continue,
                        },
                    };
                    if !tags.contains(&k) {
                        tags.push(k);
                    }
                }
                TAGS.iter().find(|y| **y == st(&x[1])).copied().unwrap_or("other")
            }
            "pre" => "highlighted",
            "x" => "comment",
            _ => continue,
        };
        if !tags.contains(&k) {
            tags.push(k);
        }
    }
    Ok(tags)
}
