//! A page written as text again, under options.
use super::{diff, strip};
use crate::text::{st, Text};
use crate::{actual, Outcome};
use serde_json::{json, Value};
use vimwiki::*;

fn options(name: &str) -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    match name {
        "default" => {}
        "tab" => {
            c.page.indent_str = "\t".to_string();
            c.definition_list.term_on_line_by_itself = true;
        }
        "bare" => {
            c.page.separate_block_elements = false;
            c.page.indent_str = " ".to_string();
            c.comment.no_padding = true;
            c.header.no_padding = true;
            c.table.no_padding = true;
        }
        "kept" => {
            c.blockquote.trim_lines = false;
            c.comment.trim_content = false;
            c.definition_list.trim_terms = false;
            c.definition_list.trim_definitions = false;
            c.header.trim_content = false;
            c.paragraph.trim_lines = false;
        }
        "quote" => {
            c.blockquote.prefer_indented_blockquote = true;
            c.page.indent_str = "  ".to_string();
            c.list.todo.incomplete_char = '_';
            c.list.todo.partially_complete_1_char = 'é';
            c.list.todo.partially_complete_2_char = '2';
            c.list.todo.partially_complete_3_char = '3';
            c.list.todo.complete_char = '😀';
            c.list.todo.rejected_char = ' ';
        }
        x => panic!("options {}", x),
    }
    c
}

fn blank(v: &Value) -> bool {
    v["k"] == "t" && v["v"] == ""
}
/// without the blanks around texts
fn trim(v: &mut Value) {
    match v {
        Value::Array(a) => {
            a.iter_mut().for_each(trim);
            while a.last().map_or(false, blank) {
                a.pop();
            }
            while a.first().map_or(false, blank) {
                a.remove(0);
            }
        }
        Value::Object(o) => {
            o.values_mut().for_each(trim);
            if o.get("k").map_or(false, |k| k == "mlc") && o["v"] == json!([]) {
                o.insert("v".to_string(), json!([""]));
            }
        }
        Value::String(s) => *s = s.trim().to_string(),
        _ => {}
    }
}

pub fn format(v: &Value) -> Outcome {
    let (t, want, conf) = (Text::new(&v["t"]).s, Text::new(&v["f"]).s, options(st(&v["o"])));
    // options are the same read from a file
    let text = serde_json::to_string(&conf).map_err(|e| json!({"config": e.to_string()}))?;
    let conf: VimwikiConfig = serde_json::from_str(&text).map_err(|e| json!({"config": e.to_string()}))?;
    let read = |t: &str| -> Result<Page<'static>, Value> {
        let p: Page = Language::from_vimwiki_str(t).parse().map_err(|e: ParseError| json!({"parse": e.to_string()}))?;
        Ok(p.into_owned())
    };
    let write = |p: &Page| p.to_vimwiki_string(conf.clone()).map_err(|e| json!({"format": e.to_string()}));
    let p = read(&t)?;
    let f = write(&p)?;
    if f != want {
        return Err(json!({"expected": want, "actual": f}));
    }
    let mut tags = super::kinds(&actual::page(&p));
    if v["rt"] == true {
        let q = read(&f)?;
        let (mut a, mut b) = (actual::page(&p), actual::page(&q));
        strip(&mut a);
        strip(&mut b);
        trim(&mut a);
        trim(&mut b);
        if let Some(d) = diff("page", &a, &b) {
            return Err(json!({"formatted": f, "diff": d}));
        }
        let g = write(&q)?;
        if f != g {
            return Err(json!({"once": f, "twice": g}));
        }
        tags.push("same");
    } else {
        tags.push("other");
    }
    Ok(tags)
}
