//! Progress of list items, for a list written as text.
use crate::text::{arr, num, st};
use crate::Outcome;
use serde_json::{json, Value};
use vimwiki::*;

fn collect<'a, 'b>(l: &'a List<'b>, out: &mut Vec<&'a ListItem<'b>>) {
    for i in l.items.iter() {
        out.push(i.as_inner());
        for c in i.contents.iter() {
            if let BlockElement::List(l) = c.as_inner() {
                collect(l, out);
            }
        }
    }
}

pub fn progress(v: &Value) -> Outcome {
    let mut text = String::new();
    let mut tags = vec![];
    let items = arr(&v["items"]);
    for (n, i) in items.iter().enumerate() {
        let i = arr(i);
        let pad = "  ".repeat(num(&i[0]));
        if i[2] == true {
            text.push_str(&format!("{}between\n", pad));
            tags.push("fresh");
        }
        let m = st(&i[1]);
        let b = if num(&i[0]) % 2 == 0 { "-" } else { "1." };
        let todo = if m.is_empty() { String::new() } else { format!("[{}] ", m) };
        text.push_str(&format!("{}{} {}item {}\n", pad, b, todo, n));
    }
    let page: Page = Language::from_vimwiki_str(&text).parse().map_err(|e| json!({"error": format!("{}", e)}))?;
    let owned = page.clone().into_owned();
    for p in [&page, &owned].iter() {
        let l = match p.elements.as_slice() {
            [x] => match x.as_inner() {
                BlockElement::List(l) => l,
                x => return Err(json!({"text": text, "not a list": format!("{:?}", x)})),
            },
            x => return Err(json!({"text": text, "elements": x.len()})),
        };
        let mut found = vec![];
        collect(l, &mut found);
        if found.len() != items.len() {
            return Err(json!({"text": text, "items": found.len()}));
        }
        for (n, i) in found.iter().enumerate() {
            let want = arr(&v["progress"])[n].as_array().unwrap();
            let got = i.compute_todo_progress();
            let ok = match (want.first(), got) {
                (None, None) => true,
                (Some(f), Some(x)) => {
                    let f = num(&arr(f)[0]) as f32 / num(&arr(f)[1]) as f32;
                    (f - x).abs() < 1e-4
                }
                _ => false,
            };
            if !ok {
                return Err(json!({"text": text, "item": n, "expected": want, "actual": got}));
            }
            let m = st(&arr(&items[n])[1]);
            let is = [
                (i.is_todo(), !m.is_empty()),
                (i.is_todo_incomplete(), m == " "),
                (i.is_todo_partially_complete(), m == "." || m == "o" || m == "O"),
                (i.is_todo_partially_complete_1(), m == "."),
                (i.is_todo_partially_complete_2(), m == "o"),
                (i.is_todo_partially_complete_3(), m == "O"),
                (i.is_todo_complete(), m == "X"),
                (i.is_todo_rejected(), m == "-"),
            ];
            if let Some(k) = is.iter().position(|(a, b)| a != b) {
                return Err(json!({"text": text, "item": n, "mark": m, "predicate": k}));
            }
        }
    }
    #[cfg(feature = "html")]
    {
        let html = page.to_html_string(HtmlConfig::default()).map_err(|e| json!({"html": format!("{}", e)}))?;
        let classes: Vec<String> = html
            .match_indices("<li")
            .map(|(i, _)| {
                let t = &html[i + 3..i + html[i..].find('>').unwrap()];
                if t.is_empty() { String::new() } else { t.to_string() }
            })
            .collect();
        let want: Vec<String> = arr(&v["class"])
            .iter()
            .map(|c| if st(c).is_empty() { String::new() } else { format!(" class=\"{}\"", st(c)) })
            .collect();
        if classes != want {
            return Err(json!({"text": text, "classes": classes, "expected": want}));
        }
    }
    for p in arr(&v["progress"]) {
        tags.push(if arr(p).is_empty() { "none" } else { "some" });
    }
    tags.sort();
    tags.dedup();
    Ok(tags)
}
