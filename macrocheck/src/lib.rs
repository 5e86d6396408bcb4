//! Compares values made by the compile-time macros with what the specification
//! says their text is, and with what reading that text at run time gives.
#![allow(dead_code)]
#[path = "../../harness/src/actual.rs"]
mod actual;
#[path = "../../harness/src/expect.rs"]
mod expect;
#[path = "../../harness/src/text.rs"]
mod text;

use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use text::{arr, st};
use vimwiki::*;

/// the canonical form of a value
pub trait Canon {
    fn canon(&self) -> Value;
}
impl Canon for Page<'_> {
    fn canon(&self) -> Value {
        actual::page(self)
    }
}
macro_rules! canon {
    ($($t:ty, $x:ident => $e:expr;)*) => {$(
        impl<'a> Canon for Located<$t> {
            fn canon(&self) -> Value { let $x = self; $e }
        }
    )*};
}
fn b(x: BlockElement<'_>, r: Region) -> Value {
    actual::block(&x, r)
}
fn i(x: InlineElement<'_>, r: Region) -> Value {
    actual::inline(&x, r)
}
canon! {
    BlockElement<'a>, x => actual::block(x.as_inner(), x.region());
    Blockquote<'a>, x => b(BlockElement::Blockquote(x.as_inner().clone()), x.region());
    CodeBlock<'a>, x => b(BlockElement::CodeBlock(x.as_inner().clone()), x.region());
    MathBlock<'a>, x => b(BlockElement::MathBlock(x.as_inner().clone()), x.region());
    DefinitionList<'a>, x => b(BlockElement::DefinitionList(x.as_inner().clone()), x.region());
    Divider, x => b(BlockElement::Divider(x.as_inner().clone()), x.region());
    Header<'a>, x => b(BlockElement::Header(x.as_inner().clone()), x.region());
    List<'a>, x => b(BlockElement::List(x.as_inner().clone()), x.region());
    Paragraph<'a>, x => b(BlockElement::Paragraph(x.as_inner().clone()), x.region());
    Placeholder<'a>, x => b(BlockElement::Placeholder(x.as_inner().clone()), x.region());
    Table<'a>, x => b(BlockElement::Table(x.as_inner().clone()), x.region());
    ListItem<'a>, x => actual::list_item(x);
    InlineElementContainer<'a>, x => actual::inlines(x.as_inner());
    InlineElement<'a>, x => actual::inline(x.as_inner(), x.region());
    CodeInline<'a>, x => i(InlineElement::Code(x.as_inner().clone()), x.region());
    MathInline<'a>, x => i(InlineElement::Math(x.as_inner().clone()), x.region());
    Comment<'a>, x => i(InlineElement::Comment(x.as_inner().clone()), x.region());
    LineComment<'a>, x => i(InlineElement::Comment(Comment::Line(x.as_inner().clone())), x.region());
    MultiLineComment<'a>, x => i(InlineElement::Comment(Comment::MultiLine(x.as_inner().clone())), x.region());
    Link<'a>, x => i(InlineElement::Link(x.as_inner().clone()), x.region());
    Tags<'a>, x => i(InlineElement::Tags(x.as_inner().clone()), x.region());
    DecoratedText<'a>, x => i(InlineElement::DecoratedText(x.as_inner().clone()), x.region());
    Keyword, x => i(InlineElement::Keyword(x.as_inner().clone()), x.region());
    Text<'a>, x => i(InlineElement::Text(x.as_inner().clone()), x.region());
}

pub struct Checks {
    cases: Vec<Value>,
}

impl Checks {
    /// reads the cases, calls every check, prints one line per check that found a difference
    pub fn main(run: fn(&mut Checks)) {
        let path = std::env::args().nth(1).expect("cases");
        let cases = std::fs::read_to_string(path).expect("cases");
        let cases = cases.lines().map(|l| serde_json::from_str(l).expect("case")).collect();
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn(move || {
                let mut c = Checks { cases };
                run(&mut c);
                println!("DONE");
            })
            .unwrap()
            .join()
            .unwrap();
    }

    pub fn val<T>(&mut self, case: usize, mac: &str, place: &str, f: impl FnOnce() -> T)
    where
        T: Canon + StrictEq + FromLanguage<'static>,
        T::Error: std::fmt::Display,
    {
        let v = &self.cases[case];
        let diff = catch_unwind(AssertUnwindSafe(|| self::differs(v, place, f)))
            .unwrap_or_else(|_| Some(json!({"panic": true})));
        match diff {
            None => println!("OK {}", case),
            Some(d) => println!("BAD {} {}", case, json!({"macro": mac, "diff": d})),
        }
    }
}

fn differs<T>(v: &Value, place: &str, f: impl FnOnce() -> T) -> Option<Value>
where
    T: Canon + StrictEq + FromLanguage<'static>,
    T::Error: std::fmt::Display,
{
    let got = f();
    let mut t = text::Text::new(&v["u"]);
    if v["fmt"] == false {
        let u: &'static str = Box::leak(t.s.clone().into_boxed_str());
        let run: T = match Language::from_vimwiki_str(u).parse() {
            Ok(x) => x,
            Err(e) => return Some(json!({"run time": e.to_string()})),
        };
        if !run.strict_eq(&got) || !got.strict_eq(&run) {
            return Some(json!({"macro": got.canon(), "run time": run.canon(), "of": u}));
        }
    }
    for f in arr(&v["f"]) {
        let f = arr(f);
        t.fill(text::num(&f[0]), text::num(&f[1]), text::Text::new(&f[2]).s);
    }
    let got = got.canon();
    let block = |n: usize| expect::block(&t, &arr(&v["p"])[n]);
    let want = match place {
        "page" => expect::blocks(&t, &v["p"]),
        "block" => block(0),
        // read on its own, an element is not inside anything
        "item" => raised(&block(0)["items"][0]),
        "line" => block(0)["lines"][0].clone(),
        "inline" => raised(&block(0)["lines"][0][0]),
        x => panic!("place {}", x),
    };
    if got != want {
        return Some(json!({"macro": got, "specification": want, "of": st(&json!(t.s))}));
    }
    None
}

/// the same one level further out
fn raised(v: &Value) -> Value {
    match v {
        Value::Array(x) => x.iter().map(raised).collect(),
        Value::Object(m) => m
            .iter()
            .map(|(k, x)| {
                let x = if k == "r" {
                    json!([x[0], x[1], x[2].as_u64().unwrap() - 1])
                } else {
                    raised(x)
                };
                (k.clone(), x)
            })
            .collect::<serde_json::Map<_, _>>()
            .into(),
        x => x.clone(),
    }
}
