//! The page the real parser gives, in canonical form.
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::collections::HashMap;
use vimwiki::*;

fn reg(r: Region) -> (usize, usize, usize) {
    (r.offset(), r.len(), r.depth() as usize)
}
fn map(m: &HashMap<Cow<'_, str>, Cow<'_, str>>) -> Value {
    let mut x = Map::new();
    let mut ks: Vec<_> = m.iter().collect();
    ks.sort();
    for (k, v) in ks {
        x.insert(k.to_string(), Value::from(v.to_string()));
    }
    Value::Object(x)
}
fn descr(d: Option<&Description<'_>>) -> Value {
    match d {
        None => Value::Null,
        Some(Description::Text(x)) => json!({"text": x.to_string()}),
        Some(Description::TransclusionLink(x)) => json!({"tr": link_data(x)}),
    }
}
fn link_data(d: &LinkData<'_>) -> Value {
    let anchor = match d.to_anchor() {
        None => Value::Null,
        Some(a) => Value::from(
            a.iter()
                .map(|x| LinkData::decode_uri(x.as_bytes()))
                .collect::<Vec<_>>(),
        ),
    };
    json!({"uri": d.to_decoded_uri_string(), "anchor": anchor,
           "descr": descr(d.description.as_ref()),
           "props": d.properties.as_ref().map(map).unwrap_or_else(|| json!({}))})
}
pub fn inlines(c: &InlineElementContainer<'_>) -> Value {
    Value::Array(
        c.into_iter().map(|x| inline(x.as_inner(), x.region())).collect(),
    )
}
fn link(l: &Link<'_>, r: (usize, usize, usize)) -> Value {
    match l {
        Link::Wiki { data } => json!({"k":"wiki","r":r,"d":link_data(data)}),
        Link::Transclusion { data } => json!({"k":"tr","r":r,"d":link_data(data)}),
        Link::Raw { data } => json!({"k":"raw","r":r,"d":link_data(data)}),
        Link::IndexedInterWiki { index, data } => {
            json!({"k":"iwi","r":r,"n":index.to_string(),"d":link_data(data)})
        }
        Link::NamedInterWiki { name, data } => {
            json!({"k":"iwn","r":r,"n":name.to_string(),"d":link_data(data)})
        }
        Link::Diary { date, data } => {
            let a = data.to_anchor().map(|a| {
                a.iter()
                    .map(|x| LinkData::decode_uri(x.as_bytes()))
                    .collect::<Vec<_>>()
                    .join("#")
            });
            let a = a.filter(|x| !x.is_empty());
            json!({"k":"diary","r":r,"n":date.format("%Y-%m-%d").to_string(),
                   "a":a,"descr":descr(data.description.as_ref())})
        }
    }
}
fn deco(d: &DecoratedText<'_>, r: (usize, usize, usize)) -> Value {
    let (k, cs) = match d {
        DecoratedText::Bold(x) => ("b", x),
        DecoratedText::Italic(x) => ("i", x),
        DecoratedText::Strikeout(x) => ("s", x),
        DecoratedText::Superscript(x) => ("sup", x),
        DecoratedText::Subscript(x) => ("sub", x),
    };
    let c: Vec<Value> = cs
        .iter()
        .map(|x| {
            let r = reg(x.region());
            match x.as_inner() {
                DecoratedTextContent::Text(t) => {
                    json!({"k":"t","r":r,"v":t.as_str()})
                }
                DecoratedTextContent::DecoratedText(d) => deco(d, r),
                DecoratedTextContent::Keyword(k) => {
                    json!({"k":"kw","r":r,"v":keyword(k)})
                }
                DecoratedTextContent::Link(l) => link(l, r),
            }
        })
        .collect();
    json!({"k":k,"r":r,"c":c})
}
fn keyword(k: &Keyword) -> &'static str {
    match k {
        Keyword::Done => "DONE",
        Keyword::Fixed => "FIXED",
        Keyword::Fixme => "FIXME",
        Keyword::Started => "STARTED",
        Keyword::Todo => "TODO",
        Keyword::Xxx => "XXX",
    }
}
pub fn inline(e: &InlineElement<'_>, r: Region) -> Value {
    let r = reg(r);
    match e {
        InlineElement::Text(t) => json!({"k":"t","r":r,"v":t.as_str()}),
        InlineElement::DecoratedText(d) => deco(d, r),
        InlineElement::Keyword(k) => json!({"k":"kw","r":r,"v":keyword(k)}),
        InlineElement::Link(l) => link(l, r),
        InlineElement::Tags(t) => {
            json!({"k":"tags","r":r,
                   "v":t.iter().map(|x| x.as_str().to_string()).collect::<Vec<_>>()})
        }
        InlineElement::Code(c) => json!({"k":"code","r":r,"v":c.as_str()}),
        InlineElement::Math(c) => json!({"k":"math","r":r,"v":c.as_str()}),
        InlineElement::Comment(Comment::Line(c)) => {
            json!({"k":"lc","r":r,"v":c.as_str()})
        }
        InlineElement::Comment(Comment::MultiLine(c)) => {
            json!({"k":"mlc","r":r,"v":c.iter().map(|x| x.to_string()).collect::<Vec<_>>()})
        }
    }
}
fn strs(v: &[Cow<'_, str>]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
fn dlv(k: &str, d: &Located<DefinitionListValue<'_>>) -> Value {
    json!({"k":k,"r":reg(d.region()),"c":inlines(d.as_inner().as_inner())})
}
pub fn list_type(t: &ListItemType<'_>) -> String {
    match t {
        ListItemType::Ordered(o) => match o {
            OrderedListItemType::Number => "1",
            OrderedListItemType::Pound => "#",
            OrderedListItemType::LowercaseAlphabet => "a",
            OrderedListItemType::UppercaseAlphabet => "A",
            OrderedListItemType::LowercaseRoman => "i",
            OrderedListItemType::UppercaseRoman => "I",
        }
        .to_string(),
        ListItemType::Unordered(u) => match u {
            UnorderedListItemType::Hyphen => "-".to_string(),
            UnorderedListItemType::Asterisk => "*".to_string(),
            UnorderedListItemType::Other(x) => format!("other:{}", x),
        },
    }
}
fn todo(t: Option<ListItemTodoStatus>) -> &'static str {
    match t {
        None => "",
        Some(ListItemTodoStatus::Incomplete) => " ",
        Some(ListItemTodoStatus::PartiallyComplete1) => ".",
        Some(ListItemTodoStatus::PartiallyComplete2) => "o",
        Some(ListItemTodoStatus::PartiallyComplete3) => "O",
        Some(ListItemTodoStatus::Complete) => "X",
        Some(ListItemTodoStatus::Rejected) => "-",
    }
}
pub fn cell(pos: CellPos, c: &Located<Cell<'_>>) -> Value {
    let (k, x) = match c.as_inner() {
        Cell::Content(x) => ("cell", inlines(x)),
        Cell::Span(CellSpan::FromLeft) => ("left", Value::Null),
        Cell::Span(CellSpan::FromAbove) => ("up", Value::Null),
        Cell::Align(a) => (
            "align",
            Value::from(match a {
                ColumnAlign::None => "none",
                ColumnAlign::Left => "left",
                ColumnAlign::Center => "center",
                ColumnAlign::Right => "right",
            }),
        ),
    };
    json!({"pos":[pos.row,pos.col],"k":k,"r":reg(c.region()),"c":x})
}
pub fn list_item(x: &Located<ListItem<'_>>) -> Value {
    let i = x.as_inner();
    json!({"k":"li","r":reg(x.region()),"pos":i.pos,
        "type":list_type(&i.ty),
        "suffix":match i.suffix {
            ListItemSuffix::None => "",
            ListItemSuffix::Period => ".",
            ListItemSuffix::Paren => ")",
        },
        "todo":todo(i.attributes.todo_status),
        "c":i.contents.iter().map(|b| block(b.as_inner(), b.region())).collect::<Vec<_>>()})
}
pub fn block(e: &BlockElement<'_>, r: Region) -> Value {
    let r = reg(r);
    match e {
        BlockElement::Header(h) => {
            json!({"k":"h","r":r,"level":h.level,"centered":h.centered,"c":inlines(&h.content)})
        }
        BlockElement::Divider(_) => json!({"k":"hr","r":r}),
        BlockElement::Placeholder(p) => {
            let (kind, name, value) = match p {
                Placeholder::Title(x) => ("title", None, Some(x.to_string())),
                Placeholder::NoHtml => ("nohtml", None, None),
                Placeholder::Template(x) => ("template", None, Some(x.to_string())),
                Placeholder::Date(d) => {
                    ("date", None, Some(d.format("%Y-%m-%d").to_string()))
                }
                Placeholder::Other { name, value } => {
                    ("other", Some(name.to_string()), Some(value.to_string()))
                }
            };
            json!({"k":"ph","r":r,"kind":kind,"name":name,"value":value})
        }
        BlockElement::Blockquote(b) => {
            json!({"k":"bq","r":r,"lines":strs(&b.lines)})
        }
        BlockElement::CodeBlock(c) => {
            json!({"k":"code_block","r":r,"lang":c.language.as_ref().map(|x| x.to_string()),
                "props":map(&c.metadata),"lines":strs(&c.lines)})
        }
        BlockElement::MathBlock(c) => {
            json!({"k":"math_block","r":r,"env":c.environment.as_ref().map(|x| x.to_string()),
                "lines":strs(&c.lines)})
        }
        BlockElement::DefinitionList(d) => {
            let items: Vec<Value> = d
                .items
                .iter()
                .map(|it| {
                    json!({"term":dlv("term",&it.term),
                    "defs":it.definitions.iter().map(|x| dlv("def",x)).collect::<Vec<_>>()})
                })
                .collect();
            json!({"k":"dl","r":r,"items":items})
        }
        BlockElement::Table(t) => {
            let mut cells: Vec<(&CellPos, &Located<Cell<'_>>)> =
                t.into_iter().collect();
            cells.sort_by_key(|(p, _)| (p.row, p.col));
            let cells: Vec<Value> =
                cells.into_iter().map(|(p, c)| cell(*p, c)).collect();
            json!({"k":"table","r":r,"centered":t.centered,"rows":t.row_cnt(),
                   "cols":t.col_cnt(),"cells":cells})
        }
        BlockElement::List(l) => {
            json!({"k":"list","r":r,"items":l.items.iter().map(list_item).collect::<Vec<_>>()})
        }
        BlockElement::Paragraph(p) => {
            json!({"k":"p","r":r,"lines":p.lines.iter().map(inlines).collect::<Vec<_>>()})
        }
    }
}
pub fn page(p: &Page<'_>) -> Value {
    Value::Array(
        p.elements.iter().map(|x| block(x.as_inner(), x.region())).collect(),
    )
}
