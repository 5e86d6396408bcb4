//! One operation per kind of case.
mod forms;
#[cfg(feature = "html")]
pub mod serve;
#[cfg(feature = "html")]
mod html;
#[cfg(feature = "html")]
mod paths;
#[cfg(feature = "html")]
mod template;
mod parts;
mod progress;
pub mod table;
mod total;
mod format;

use crate::text::Text;
use crate::{actual, expect, guarded, Outcome};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vimwiki::*;

pub struct Ctx {
    op: String,
    regions: bool,
    lookups: bool,
    /// the text is placed after a paragraph of so many characters
    far: usize,
    /// where files may be written
    dir: String,
}

pub fn key(v: &Value) -> String {
    if v.get("did").is_some() || v.get("t2").is_some() || v.get("cfg").is_some() || v.get("wikis").is_some() {
        return v.to_string();
    }
    if let Some(Value::Array(t)) = v.get("t") {
        let mut s = String::new();
        if v.get("rt").is_some() {
            s.push_str(v["o"].as_str().unwrap());
            s.push(':');
        }
        for c in t {
            s.push_str(c.as_str().unwrap_or("?"));
        }
        s
    } else {
        v.to_string()
    }
}
pub fn sample(v: &Value) -> Value {
    if v.get("rt").is_some() {
        return Value::from(key(v).replace('\u{0}', "nul"));
    }
    match v.get("t") {
        Some(t) => Value::from(Text::new(t).s),
        None => v.clone(),
    }
}

pub fn show(t: &str) -> Value {
    match guarded(|| Language::from_vimwiki_str(t).parse::<Page>().map(|p| actual::page(&p)).map_err(|e| e.to_string())) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"error": e}),
        Err(p) => json!({"panic": p}),
    }
}

/// the text of a page written again
pub fn written(t: &str) -> String {
    let p: Page = Language::from_vimwiki_str(t).parse().unwrap();
    p.to_vimwiki_string(VimwikiConfig::default()).unwrap()
}

/// removes the regions
pub fn strip(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(strip),
        Value::Object(o) => {
            o.remove("r");
            o.values_mut().for_each(strip)
        }
        _ => {}
    }
}

/// path of the first difference, with both sides
pub fn diff(path: &str, e: &Value, a: &Value) -> Option<Value> {
    if e == a {
        return None;
    }
    match (e, a) {
        (Value::Array(x), Value::Array(y)) => {
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff(&format!("{}[{}]", path, i), p, q) {
                    return Some(d);
                }
            }
        }
        (Value::Object(x), Value::Object(y)) if x.get("k") == y.get("k") => {
            for (k, p) in x {
                if let Some(d) = diff(
                    &format!("{}.{}", path, k),
                    p,
                    y.get(k).unwrap_or(&Value::Null),
                ) {
                    return Some(d);
                }
            }
        }
        _ => {}
    }
    Some(json!({"at": path, "expected": e, "actual": a}))
}

impl Ctx {
    pub fn new(op: &str, opts: &BTreeMap<String, String>, _n: usize) -> Self {
        Self {
            op: op.to_string(),
            dir: opts.get("cur").cloned().unwrap_or_default(),
            far: opts.get("far").map(|x| x.parse().unwrap()).unwrap_or(0),
            lookups: opts.get("lookups").map(|x| x == "1").unwrap_or(false),
            regions: opts.get("regions").map(|x| x == "1").unwrap_or(false),
        }
    }

    pub fn run(&mut self, v: &Value) -> Outcome {
        match self.op.as_str() {
            "page" => self.page(v),
            "format" => format::format(v),
            "total" => total::total(v),
            "progress" => progress::progress(v),
            "forms" => forms::forms(v),
            "pair" => forms::pair(v),
            "walk" => forms::walk(v),
            "parts" => parts::parts(v),
            #[cfg(feature = "html")]
            "html" => html::html(v),
            #[cfg(feature = "html")]
            "paths" => paths::paths(v),
            #[cfg(feature = "html")]
            "template" => template::template(v, &format!("{}/templates", self.dir)),
            "table" => table::table(v, false).and_then(|_| table::table(v, true)),
            x => panic!("unknown op {}", x),
        }
    }

    fn page(&self, v: &Value) -> Outcome {
        let t = Text::new(&v["t"]);
        let mut e = expect::blocks(&t, &v["p"]);
        if self.far > 0 {
            return self.far(&t, e);
        }
        let mut a = match Language::from_vimwiki_str(&t.s).parse::<Page>() {
            Ok(p) => actual::page(&p),
            Err(x) => json!({"error": x.to_string()}),
        };
        if !self.regions {
            strip(&mut e);
            strip(&mut a);
        }
        match diff("page", &e, &a) {
            None => {}
            Some(d) => return Err(d),
        }
        let mut tags = kinds(&a);
        if v.get("tb").is_some() || self.lookups {
            let page: Page = Language::from_vimwiki_str(&t.s).parse().unwrap();
            if let Some(Value::Array(tb)) = v.get("tb") {
                let mut found = vec![];
                page.elements.iter().for_each(|b| tables_of(b.as_inner(), &mut found));
                if found.len() != tb.len() {
                    return Err(json!({"tables": found.len(), "expected": tb.len()}));
                }
                for (f, x) in found.iter().zip(tb) {
                    table::api(f, x)?;
                    if x["div"].as_i64().unwrap() > 0 {
                        tags.push("header");
                    }
                }
            }
            if self.lookups {
                let (mut e, mut f) = (vec![], vec![]);
                lists_of(&a, &mut e);
                page.elements.iter().for_each(|b| dls_of(b.as_inner(), &mut f));
                for (e, f) in e.iter().zip(f) {
                    lookups(e, f)?;
                }
            }
        }
        Ok(tags)
    }
}

impl Ctx {
    /// the same elements, further on
    fn far(&self, t: &Text, mut e: Value) -> Outcome {
        fn shift(v: &mut Value, n: usize) {
            match v {
                Value::Array(a) => a.iter_mut().for_each(|x| shift(x, n)),
                Value::Object(o) => {
                    if let Some(r) = o.get_mut("r") {
                        r[0] = Value::from(r[0].as_u64().unwrap() + n as u64);
                    }
                    for (k, x) in o.iter_mut() {
                        if k != "r" {
                            shift(x, n)
                        }
                    }
                }
                _ => {}
            }
        }
        let pre = format!("%%{}\n\n", "c".repeat(self.far));
        let n = pre.len();
        shift(&mut e, n);
        let text = format!("{}{}", pre, t.s);
        let mut a = match Language::from_vimwiki_str(&text).parse::<Page>() {
            Ok(p) => actual::page(&p),
            Err(x) => return Err(json!({"error": x.to_string()})),
        };
        let first = a.as_array_mut().unwrap().remove(0);
        if first["r"] != json!([0, n - 1, 0]) || first["k"] != "p" || first["lines"][0][0]["r"] != json!([0, n - 2, 1]) {
            return Err(json!({"first": first["r"], "kind": first["k"], "of it": first["lines"][0][0]["r"], "expected": [0, n - 1, 0]}));
        }
        match diff("page", &e, &a) {
            None => Ok(kinds(&a)),
            Some(d) => Err(d),
        }
    }
}

/// every nested block, in document order
fn each_block<'a, 'b>(b: &'a BlockElement<'b>, f: &mut dyn FnMut(&'a BlockElement<'b>)) {
    f(b);
    if let BlockElement::List(l) = b {
        for i in l.items.iter() {
            for c in i.contents.iter() {
                each_block(c.as_inner(), f);
            }
        }
    }
}
fn tables_of<'a, 'b>(b: &'a BlockElement<'b>, out: &mut Vec<&'a Table<'b>>) {
    each_block(b, &mut |x| {
        if let BlockElement::Table(t) = x {
            out.push(t)
        }
    })
}
fn dls_of<'a, 'b>(b: &'a BlockElement<'b>, out: &mut Vec<&'a DefinitionList<'b>>) {
    each_block(b, &mut |x| {
        if let BlockElement::DefinitionList(t) = x {
            out.push(t)
        }
    })
}
/// the definition lists of a page in canonical form
fn lists_of<'a>(v: &'a Value, out: &mut Vec<&'a Value>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| lists_of(x, out)),
        Value::Object(o) => {
            if o.get("k") == Some(&Value::from("dl")) {
                out.push(v);
            }
            o.values().for_each(|x| lists_of(x, out));
        }
        _ => {}
    }
}
/// looking up each term yields its definitions: those of the first term of that text
fn lookups(e: &Value, d: &DefinitionList<'_>) -> Result<(), Value> {
    let items = e["items"].as_array().unwrap();
    let texts: Vec<String> = d.terms().map(|x| x.to_string()).collect();
    if texts.len() != items.len() || d.iter().count() != items.len() {
        return Err(json!({"terms": texts.len(), "expected": items.len()}));
    }
    for t in texts.iter() {
        let first = texts.iter().position(|x| x == t).unwrap();
        let mut want = items[first]["defs"].clone();
        strip(&mut want);
        match d.get(t) {
            None => return Err(json!({"not found": t})),
            Some(x) => {
                let mut got = Value::Array(
                    x.iter()
                        .map(|x| json!({"k":"def","c":actual::inlines(x.as_inner().as_inner())}))
                        .collect(),
                );
                strip(&mut got);
                if got != want || x.len() != items[first]["defs"].as_array().unwrap().len() {
                    return Err(json!({"looked up": t, "actual": got, "expected": want}));
                }
            }
        }
    }
    for t in ["", "nothing like it", "::"].iter() {
        if !texts.iter().any(|x| x == t) && d.get(t).is_some() {
            return Err(json!({"found": t}));
        }
    }
    let all: Vec<String> = d.definitions().map(|x| x.to_string()).collect();
    let n: usize = items.iter().map(|x| x["defs"].as_array().unwrap().len()).sum();
    if all.len() != n {
        return Err(json!({"definitions": all.len(), "expected": n}));
    }
    Ok(())
}

/// what kinds of elements occur: tells the trivial cases apart
pub fn kinds(a: &Value) -> Vec<&'static str> {
    const K: &[&str] = &[
        "h", "hr", "ph", "bq", "code_block", "math_block", "dl", "table", "list", "p", "t", "kw",
        "code", "math", "lc", "mlc", "tags", "b", "i", "s", "sup", "sub", "wiki", "tr", "raw",
        "iwi", "iwn", "diary", "up", "left", "align", "cell",
    ];
    fn walk(v: &Value, out: &mut Vec<&'static str>) {
        match v {
            Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
            Value::Object(o) => {
                if let Some(Value::String(k)) = o.get("k") {
                    if let Some(k) = K.iter().find(|x| *x == k) {
                        if !out.contains(k) {
                            out.push(k);
                        }
                    }
                }
                o.values().for_each(|x| walk(x, out));
            }
            _ => {}
        }
    }
    let mut out = vec![];
    walk(a, &mut out);
    out
}
