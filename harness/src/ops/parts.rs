//! Pieces of a page read by themselves, as the kind of element they are.
use super::{diff, kinds};
use crate::text::Text as Written;
use crate::{actual, expect, Outcome};
use serde_json::{json, Value};
use vimwiki::*;

/// everything `n` characters earlier and `d` levels less deep
fn back(v: &mut Value, n: u64, d: u64) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| back(x, n, d)),
        Value::Object(o) => {
            if let Some(r) = o.get_mut("r") {
                r[0] = Value::from(r[0].as_u64().unwrap() - n);
                r[2] = Value::from(r[2].as_u64().unwrap() - d);
            }
            for (k, x) in o.iter_mut() {
                if k != "r" {
                    back(x, n, d)
                }
            }
        }
        _ => {}
    }
}
/// the element at the start of a text
fn first(e: &Value) -> Value {
    let mut e = e.clone();
    let (n, d) = (e["r"][0].as_u64().unwrap(), e["r"][2].as_u64().unwrap());
    back(&mut e, n, d);
    e
}

type Read = Result<Value, String>;

fn block_of<'a, T>(t: &'a str) -> Read
where
    T: ElementLike,
    Located<T>: FromLanguage<'a>,
    <Located<T> as FromLanguage<'a>>::Error: std::fmt::Display,
    BlockElement<'a>: From<T>,
{
    let x = Language::from_vimwiki_str(t).parse::<Located<T>>().map_err(|e| e.to_string())?;
    let r = x.region();
    Ok(actual::block(&BlockElement::from(x.into_inner()), r))
}
fn inline_of<'a, T>(t: &'a str) -> Read
where
    T: ElementLike,
    Located<T>: FromLanguage<'a>,
    <Located<T> as FromLanguage<'a>>::Error: std::fmt::Display,
    InlineElement<'a>: From<T>,
{
    let x = Language::from_vimwiki_str(t).parse::<Located<T>>().map_err(|e| e.to_string())?;
    let r = x.region();
    Ok(actual::inline(&InlineElement::from(x.into_inner()), r))
}
fn item(t: &str) -> Read {
    let x = Language::from_vimwiki_str(t).parse::<Located<ListItem>>().map_err(|e| e.to_string())?;
    Ok(actual::list_item(&x))
}

/// a text as the kind of block named
fn as_block(k: &str, t: &str) -> Read {
    match k {
        "h" => block_of::<Header>(t),
        "hr" => block_of::<Divider>(t),
        "ph" => block_of::<Placeholder>(t),
        "bq" => block_of::<Blockquote>(t),
        "list" => block_of::<List>(t),
        "dl" => block_of::<DefinitionList>(t),
        "table" => block_of::<Table>(t),
        "code_block" => block_of::<CodeBlock>(t),
        "math_block" => block_of::<MathBlock>(t),
        "p" => block_of::<Paragraph>(t),
        x => panic!("block {}", x),
    }
}
fn as_inline(k: &str, t: &str) -> Vec<Read> {
    match k {
        "t" => vec![inline_of::<Text>(t)],
        "kw" => vec![inline_of::<Keyword>(t)],
        "code" => vec![inline_of::<CodeInline>(t)],
        "math" => vec![inline_of::<MathInline>(t)],
        "tags" => vec![inline_of::<Tags>(t)],
        "b" | "i" | "s" | "sup" | "sub" => vec![inline_of::<DecoratedText>(t)],
        "lc" => vec![
            inline_of::<Comment>(t),
            Language::from_vimwiki_str(t)
                .parse::<Located<LineComment>>()
                .map_err(|e| e.to_string())
                .map(|x| actual::inline(&InlineElement::Comment(Comment::Line(x.as_inner().clone())), x.region())),
        ],
        "mlc" => vec![
            inline_of::<Comment>(t),
            Language::from_vimwiki_str(t)
                .parse::<Located<MultiLineComment>>()
                .map_err(|e| e.to_string())
                .map(|x| actual::inline(&InlineElement::Comment(Comment::MultiLine(x.as_inner().clone())), x.region())),
        ],
        _ => vec![inline_of::<Link>(t)],
    }
}
const BLOCKS: [&str; 10] = ["h", "hr", "ph", "bq", "list", "dl", "table", "code_block", "math_block", "p"];
const INLINES: [&str; 9] = ["t", "kw", "code", "math", "tags", "b", "lc", "mlc", "wiki"];

fn check(what: &str, t: &str, want: &Value, got: Read) -> Result<(), Value> {
    match got {
        Err(e) => Err(json!({"as": what, "text": t, "error": e, "expected": want})),
        Ok(a) => match diff("element", want, &a) {
            None => Ok(()),
            Some(d) => Err(json!({"as": what, "text": t, "difference": d})),
        },
    }
}

pub fn parts(v: &Value) -> Outcome {
    let t = Written::new(&v["t"]);
    let e = expect::blocks(&t, &v["p"]);
    let mut tags = kinds(&e);
    for b in e.as_array().unwrap() {
        let (off, len) = (b["r"][0].as_u64().unwrap() as usize, b["r"][1].as_u64().unwrap() as usize);
        let want = first(b);
        let k = b["k"].as_str().unwrap();
        // what follows a block does not matter, nor does whether anything does
        for text in [&t.s[off..], &t.s[off..off + len]].iter() {
            check("block", text, &want, block_of::<BlockElement>(text))?;
            check(k, text, &want, as_block(k, text))?;
        }
        let alone = Language::from_vimwiki_str(&t.s[off..off + len]).parse::<Page>().map_err(|e| json!({"error": e.to_string()}))?;
        check("page", &t.s[off..off + len], &json!([want]), Ok(actual::page(&alone)))?;
        // as anything else it is that or an error
        for k in BLOCKS.iter() {
            let _ = as_block(k, &t.s[off..]);
        }
        if k == "list" {
            let i = &b["items"][0];
            let at = i["r"][0].as_u64().unwrap() as usize;
            if at == off {
                check("li", &t.s[off..], &first(i), item(&t.s[off..]))?;
                tags.push("li");
            }
        }
        if k == "p" {
            for l in b["lines"].as_array().unwrap() {
                let l = l.as_array().unwrap();
                let end = match l.last() {
                    None => continue,
                    Some(x) => (x["r"][0].as_u64().unwrap() + x["r"][1].as_u64().unwrap()) as usize,
                };
                let at = |x: &Value| x["r"][0].as_u64().unwrap() as usize;
                let text = &t.s[at(&l[0])..end];
                let whole = Language::from_vimwiki_str(text)
                    .parse::<Located<InlineElementContainer>>()
                    .map_err(|e| json!({"as": "line", "text": text, "error": e.to_string()}))?;
                let mut got = actual::inlines(whole.as_inner());
                let mut want: Vec<Value> = l.to_vec();
                for x in want.iter_mut() {
                    let d = l[0]["r"][2].as_u64().unwrap();
                    back(x, at(&l[0]) as u64, d);
                }
                if let Some(d) = got.get(0).map(|x| x["r"][2].as_u64().unwrap()) {
                    back(&mut got, 0, d);
                }
                check("line", text, &Value::Array(want), Ok(got))?;
                for x in l {
                    let text = &t.s[at(x)..end];
                    let want = first(x);
                    // what begins with a colon may be tags only where no character comes before it
                    if want["k"] == "t" && text.starts_with(':') && x != &l[0] {
                        continue;
                    }
                    check("inline", text, &want, inline_of::<InlineElement>(text))?;
                    for a in as_inline(x["k"].as_str().unwrap(), text) {
                        check(x["k"].as_str().unwrap(), text, &want, a)?;
                    }
                    for k in INLINES.iter() {
                        let _ = as_inline(k, text);
                    }
                }
            }
        }
    }
    other(&t.s)?;
    tags.sort();
    tags.dedup();
    Ok(tags)
}

/// no element is read from the other languages, which have no parser
fn other(t: &str) -> Result<(), Value> {
    macro_rules! none {
        ($($t:ty),*) => { $(
            for l in [Language::from_markdown_str(t), Language::from_mediawiki_str(t)].iter() {
                if l.parse::<$t>().is_ok() {
                    return Err(json!({"read": stringify!($t), "from": l.to_string()}));
                }
            }
        )* };
    }
    none!(
        Page, Located<BlockElement>, Located<InlineElementContainer>, Located<InlineElement>, Located<Blockquote>, Located<CodeInline>,
        Located<Comment>, Located<LineComment>, Located<MultiLineComment>, Located<DefinitionList>, Located<Divider>, Located<Header>,
        Located<Link>, Located<List>, Located<ListItem>, Located<MathInline>, Located<MathBlock>, Located<Paragraph>,
        Located<Placeholder>, Located<CodeBlock>, Located<Table>, Located<Tags>, Located<Text>, Located<DecoratedText>, Located<Keyword>
    );
    Ok(())
}
