//! Copies, conversions, equality and walking of pages.
use super::{diff, kinds, strip};
use crate::text::{arr, num, st, Text};
use crate::{actual, expect, Outcome};
use serde_json::{json, Value};
use vimwiki::*;

fn read(t: &str) -> Result<Page<'_>, Value> {
    Language::from_vimwiki_str(t).parse::<Page>().map_err(|e| json!({"error": e.to_string()}))
}

/// the rest of the conversions, each step against the page it started from
fn go(orig: &Page<'_>, p: Page<'_>, did: &[Value], want: &Value, n: usize) -> Result<(), Value> {
    if let Some(d) = diff("page", want, &actual::page(&p)) {
        return Err(json!({"after": n, "difference": d}));
    }
    if !(p == *orig && *orig == p) {
        return Err(json!({"after": n, "equal": false}));
    }
    if !(p.strict_eq(orig) && orig.strict_eq(&p)) {
        return Err(json!({"after": n, "strictly equal": false}));
    }
    let rest = match did.split_first() {
        None => return Ok(()),
        Some((c, rest)) => {
            let q: Page<'static> = match st(c) {
                "clone" => {
                    let q = p.clone();
                    return go(orig, q, rest, want, n + 1);
                }
                "borrow" => {
                    let q = p.to_borrowed();
                    return go(orig, q, rest, want, n + 1);
                }
                "own" => p.into_owned(),
                "json" => {
                    let j = serde_json::to_string(&p).map_err(|e| json!({"json": e.to_string()}))?;
                    serde_json::from_str::<Page>(&j).map_err(|e| json!({"json": e.to_string(), "of": j}))?.into_owned()
                }
                "value" => {
                    let j = serde_json::to_value(&p).map_err(|e| json!({"json": e.to_string()}))?;
                    serde_json::from_value::<Page>(j).map_err(|e| json!({"json": e.to_string()}))?.into_owned()
                }
                x => panic!("conversion {}", x),
            };
            (q, rest)
        }
    };
    go(orig, rest.0, rest.1, want, n + 1)
}

pub fn forms(v: &Value) -> Outcome {
    let t = Text::new(&v["t"]);
    let want = expect::blocks(&t, &v["p"]);
    let orig = read(&t.s)?;
    go(&orig, orig.clone(), arr(&v["did"]), &want, 0)?;
    let mut tags = kinds(&want);
    for c in arr(&v["did"]) {
        tags.push(match st(c) {
            "clone" => "clone",
            "borrow" => "borrow",
            "own" => "own",
            _ => "json",
        });
    }
    tags.sort();
    tags.dedup();
    Ok(tags)
}

/// terms and definitions count by the text they show
fn shown(v: &Value) -> String {
    match v {
        Value::Array(a) => a.iter().map(shown).collect(),
        // comments show nothing
        Value::Object(o) if o["k"] == "lc" || o["k"] == "mlc" => String::new(),
        Value::Object(o) => match (o.get("v"), o.get("c")) {
            (Some(Value::String(s)), _) => s.clone(),
            (_, Some(c)) => shown(c),
            _ => format!("{}", v),
        },
        _ => String::new(),
    }
}
fn by_text(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(by_text),
        Value::Object(o) => {
            if o.get("k") == Some(&Value::from("term")) || o.get("k") == Some(&Value::from("def")) {
                let s = shown(&o["c"]);
                o.insert("c".into(), Value::from(s));
            } else {
                o.values_mut().for_each(by_text)
            }
        }
        _ => {}
    }
}

/// the page with everything at the same place
fn unplaced(p: &Page<'_>) -> Result<Page<'static>, Value> {
    fn go(v: &mut Value) {
        match v {
            Value::Array(a) => a.iter_mut().for_each(go),
            Value::Object(o) => {
                if o.len() == 3 && ["offset", "len", "depth"].iter().all(|k| o.get(*k).map_or(false, Value::is_number)) {
                    o.values_mut().for_each(|x| *x = Value::from(0));
                } else {
                    o.values_mut().for_each(go)
                }
            }
            _ => {}
        }
    }
    let mut j = serde_json::to_value(p).map_err(|e| json!({"json": e.to_string()}))?;
    go(&mut j);
    serde_json::from_value::<Page>(j.clone())
        .map(Page::into_owned)
        .map_err(|e| json!({"json": e.to_string(), "of": j}))
}

fn collect<'a>(e: Located<Element<'a>>, out: &mut Vec<(Located<InlineElement<'a>>, Value, u64)>) {
    if let Element::Inline(i) = e.as_inner() {
        use std::hash::{Hash, Hasher};
        let l = Located::new(i.clone(), e.region());
        let mut h = std::collections::hash_map::DefaultHasher::new();
        l.hash(&mut h);
        let mut v = actual::inline(i, e.region());
        strip(&mut v);
        out.push((l, v, h.finish()));
    }
    for c in e.into_inner().into_children() {
        collect(c, out);
    }
}
/// elements of a line that are equal hold the same, and have equal hashes
fn hashes(a: &Page<'_>, b: &Page<'_>) -> Result<(), Value> {
    let mut xs = vec![];
    for p in vec![a, b] {
        for e in p.to_borrowed().into_children() {
            collect(e.map(Element::from), &mut xs);
        }
    }
    xs.truncate(40);
    for x in xs.iter() {
        for y in xs.iter() {
            let eq = x.0 == y.0;
            if eq && x.1 != y.1 {
                return Err(json!({"equal": [x.1, y.1]}));
            }
            if !eq && x.1 == y.1 && x.1["k"] != "diary" {
                return Err(json!({"not equal": [x.1, y.1]}));
            }
            if eq && x.2 != y.2 {
                return Err(json!({"hashes differ": x.1}));
            }
        }
    }
    Ok(())
}

pub fn pair(v: &Value) -> Outcome {
    let (t, u) = (Text::new(&v["t"]), Text::new(&v["t2"]));
    let (a, b) = (read(&t.s)?, read(&u.s)?);
    let (mut x, mut y) = (expect::blocks(&t, &v["p"]), expect::blocks(&u, &v["p2"]));
    let strict = x == y;
    strip(&mut x);
    strip(&mut y);
    let same = x == y;
    by_text(&mut x);
    by_text(&mut y);
    let shown = x == y;
    let got = [a == b, b == a, a.clone().into_owned() == b.to_borrowed()];
    let got_strict = [a.strict_eq(&b), b.strict_eq(&a), a.clone().into_owned().strict_eq(&b.to_borrowed())];
    // pages whose only difference is the markup of terms and definitions are not decided here
    if same == shown && got.iter().any(|g| *g != same) {
        return Err(json!({"other": u.s, "equal": got, "expected": same}));
    }
    if got_strict.iter().any(|g| *g != strict) {
        return Err(json!({"other": u.s, "strictly equal": got_strict, "expected": strict}));
    }
    let (a0, b0) = (unplaced(&a)?, unplaced(&b)?);
    if a0.strict_eq(&b0) != same || b0.strict_eq(&a0) != same {
        return Err(json!({"other": u.s, "strictly equal at the same places": !same, "expected": same}));
    }
    hashes(&a, &b)?;
    if got_strict[0] && !got[0] {
        return Err(json!({"other": u.s, "strictly equal": true, "equal": false}));
    }
    let mut tags = kinds(&x);
    tags.push(if strict { "strict" } else if same { "same" } else { "different" });
    Ok(tags)
}

fn kind(e: &Element<'_>) -> &'static str {
    match e {
        Element::Block(b) => match b {
            BlockElement::Header(_) => "h",
            BlockElement::Divider(_) => "hr",
            BlockElement::Placeholder(_) => "ph",
            BlockElement::Blockquote(_) => "bq",
            BlockElement::CodeBlock(_) => "code_block",
            BlockElement::MathBlock(_) => "math_block",
            BlockElement::DefinitionList(_) => "dl",
            BlockElement::Table(_) => "table",
            BlockElement::List(_) => "list",
            BlockElement::Paragraph(_) => "p",
        },
        Element::InlineBlock(b) => match b {
            InlineBlockElement::ListItem(_) => "li",
            InlineBlockElement::Term(_) => "term",
            InlineBlockElement::Definition(_) => "def",
        },
        Element::Inline(i) => match i {
            InlineElement::Text(_) => "t",
            InlineElement::DecoratedText(d) => match d {
                DecoratedText::Bold(_) => "b",
                DecoratedText::Italic(_) => "i",
                DecoratedText::Strikeout(_) => "s",
                DecoratedText::Superscript(_) => "sup",
                DecoratedText::Subscript(_) => "sub",
            },
            InlineElement::Keyword(_) => "kw",
            InlineElement::Link(l) => match l {
                Link::Wiki { .. } => "wiki",
                Link::IndexedInterWiki { .. } => "iwi",
                Link::NamedInterWiki { .. } => "iwn",
                Link::Diary { .. } => "diary",
                Link::Raw { .. } => "raw",
                Link::Transclusion { .. } => "tr",
            },
            InlineElement::Tags(_) => "tags",
            InlineElement::Code(_) => "code",
            InlineElement::Math(_) => "math",
            InlineElement::Comment(Comment::Line(_)) => "lc",
            InlineElement::Comment(Comment::MultiLine(_)) => "mlc",
        },
    }
}

/// an element of any level is itself under every conversion
fn same(e: &Located<Element<'_>>) -> Result<(), Value> {
    let bad = |what: &str| Err(json!({"conversion": what, "of": kind(e.as_inner())}));
    let b = e.as_ref().map(Element::to_borrowed);
    if !b.strict_eq(e) || b != *e {
        return bad("borrow");
    }
    let o = e.clone().map(Element::into_owned);
    if !o.strict_eq(e) || o != *e {
        return bad("own");
    }
    let j = serde_json::to_string(e).map_err(|x| json!({"json": x.to_string()}))?;
    match serde_json::from_str::<Located<Element>>(&j) {
        Ok(x) if x.strict_eq(e) && x == *e => {}
        _ => return bad("json"),
    }
    let x = e.as_inner();
    let n = [x.as_block_element().is_some(), x.as_inline_element().is_some(), x.as_inline_block_element().is_some()];
    let m = [
        x.clone().into_block_element().is_some(),
        x.clone().into_inline_element().is_some(),
        x.clone().into_inline_block_element().is_some(),
    ];
    let w = [matches!(x, Element::Block(_)), matches!(x, Element::Inline(_)), matches!(x, Element::InlineBlock(_))];
    if n != w || m != w {
        return bad("level");
    }
    Ok(())
}

fn meet(e: Located<Element<'_>>, out: &mut Vec<(String, usize, usize, usize, usize)>) -> Result<(), Value> {
    same(&e)?;
    let r = e.region();
    let k = kind(e.as_inner());
    let cs = e.into_inner().into_children();
    out.push((k.to_string(), r.offset(), r.len(), r.depth() as usize, cs.len()));
    for c in cs {
        meet(c, out)?;
    }
    Ok(())
}

pub fn walk(v: &Value) -> Outcome {
    let t = Text::new(&v["t"]);
    let p = read(&t.s)?;
    let want: Vec<_> = arr(&v["w"])
        .iter()
        .map(|x| {
            let x = arr(x);
            let r = t.region(x);
            (st(&x[0]).to_string(), r.0, r.1, r.2, num(&x[4]))
        })
        .collect();
    let mut tags: Vec<&'static str> = vec![];
    for p in vec![p.clone().into_owned(), p.clone()] {
        let mut got = vec![];
        for b in p.into_children() {
            tags.push(kind(&Element::Block(b.as_inner().to_borrowed())));
            let e = b.map(Element::from);
            meet(e, &mut got)?;
        }
        if got != want {
            let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return Err(json!({"met": i, "actual": format!("{:?}", got.get(i)), "expected": format!("{:?}", want.get(i)),
                              "lengths": [got.len(), want.len()]}));
        }
    }
    tags.sort();
    tags.dedup();
    for k in ["li", "term", "def", "t", "kw", "code", "math", "lc", "mlc", "tags", "b", "i", "s", "sup", "sub", "wiki", "tr",
              "raw", "iwi", "iwn", "diary"].iter() {
        if want.iter().any(|w| w.0 == *k) {
            tags.push(k);
        }
    }
    Ok(tags)
}
