//! A page in its template.
use super::html::{config, unentity};
use crate::text::{arr, st, Text};
use crate::Outcome;
use chrono::Local;
use serde_json::{json, Value};
use std::path::PathBuf;
use vimwiki::{HtmlTemplateConfig, Language, Page, ToHtmlPage, ToHtmlString};

pub fn template(v: &Value, dir: &str) -> Outcome {
    let t = Text::new(&v["t"]);
    let mut cfg = config(&v["cfg"]);
    for w in cfg.wikis.iter_mut() {
        w.css_name = Text::new(&v["css"]).s;
    }
    // the directory of templates, one for each set of files
    let files: Vec<(String, String)> =
        arr(&v["files"]).iter().map(|f| (Text::new(&f[0]).s, Text::new(&f[1]).s)).collect();
    let d = PathBuf::from(dir);
    for (n, text) in files {
        let p = d.join(&n);
        if !p.exists() {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            // written aside first: another thread may read it
            let tmp = d.join(format!("{:?}.new", std::thread::current().id()));
            std::fs::write(&tmp, text).unwrap();
            std::fs::rename(&tmp, &p).unwrap();
        }
    }
    cfg.template = HtmlTemplateConfig { dir: d, ext: "tpl".to_string(), text: Text::new(&v["tpl"]).s, ..Default::default() };
    let page: Page = Language::from_vimwiki_str(&t.s).parse().map_err(|e| json!({"error": format!("{}", e)}))?;
    let content = page.to_html_string(cfg.clone()).map_err(|e| json!({"error": e.to_string()}))?;
    let before = Local::now().naive_local().date().to_string();
    let got = page.to_html_page(cfg);
    let after = Local::now().naive_local().date().to_string();
    if v["d"] == json!([["error"]]) {
        return match got {
            Err(_) => Ok(vec!["error"]),
            Ok(x) => Err(json!({"no error but": x})),
        };
    }
    let got = got.map_err(|e| json!({"error": e.to_string()}))?;
    let mut tags = vec![];
    let mut why = Value::Null;
    for today in [before, after].iter() {
        tags = vec![];
        let mut rest = got.as_str();
        let mut bad = false;
        for x in arr(&v["d"]) {
            let x = arr(x);
            let (tag, r) = match st(&x[0]) {
                "t" => ("text", rest.strip_prefix(Text::new(&x[1]).s.as_str())),
                "content" => ("content", rest.strip_prefix(content.as_str())),
                "today" => ("today", rest.strip_prefix(today.as_str())),
                "esc" => ("title", escaped(&Text::new(&x[1]).s, rest)),
                x => panic!("piece {}", x),
            };
            match r {
                Some(r) => rest = r,
                None => {
                    why = json!({"expected": x, "at": rest, "in": got});
                    bad = true;
                    break;
                }
            }
            if !tags.contains(&tag) {
                tags.push(tag);
            }
        }
        if !bad && rest.is_empty() {
            return Ok(tags);
        }
        if !bad {
            why = json!({"left": rest, "in": got});
        }
    }
    let _ = tags;
    Err(why)
}

/// what follows the text, written with any references for the characters of markup
fn escaped<'a>(text: &str, mut at: &'a str) -> Option<&'a str> {
    for c in text.chars() {
        if let Some(i) = at.find(';').filter(|_| at.starts_with('&')) {
            if unentity(&at[..i + 1]).ok()? != c.to_string() {
                return None;
            }
            at = &at[i + 1..];
        } else if "<>&".contains(c) {
            return None;
        } else {
            at = at.strip_prefix(c)?;
        }
    }
    Some(at)
}
