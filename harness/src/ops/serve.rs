//! Answers questions about single texts, one JSON line each: what the library
//! makes of them, for the driver of the command line tool.
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use vimwiki::{HtmlConfig, HtmlRuntimeConfig, Language, Page, StrictEq, ToHtmlPage, ToVimwikiString, VimwikiConfig};

fn answer(q: &Value) -> Result<Value, Value> {
    let s = |k: &str| q[k].as_str().unwrap_or("").to_string();
    let text = s("text");
    let page = || Language::from_vimwiki_str(&text).parse::<Page>().map_err(|e| json!({"error": e.to_string()}));
    Ok(match q["op"].as_str().unwrap() {
        // the page of this text at this place
        "html" => {
            let mut c: HtmlConfig = serde_json::from_value(q["config"].clone()).map_err(|e| json!({"config": e.to_string()}))?;
            c.runtime = HtmlRuntimeConfig { wiki_index: q["wiki"].as_u64().map(|x| x as usize), page: s("page").into() };
            match page()?.to_html_page(c) {
                Ok(x) => json!({ "html": x }),
                Err(e) => json!({"fails": e.to_string()}),
            }
        }
        "format" => {
            let c: VimwikiConfig = serde_json::from_value(q["config"].clone()).map_err(|e| json!({"config": e.to_string()}))?;
            json!({"text": page()?.to_vimwiki_string(c).map_err(|e| json!({"error": e.to_string()}))?})
        }
        "page" => json!({"page": serde_json::to_value(page()?).unwrap()}),
        // whether this JSON text is the page of this text
        "same" => match serde_json::from_str::<Page>(&s("json")) {
            Ok(p) => json!({"same": p.strict_eq(&page()?)}),
            Err(e) => json!({"same": false, "unreadable": e.to_string()}),
        },
        // whether this JSON value is
        "same_value" => match serde_json::from_value::<Page>(q["json"].clone()) {
            Ok(p) => json!({"same": p.strict_eq(&page()?)}),
            Err(e) => json!({"same": false, "unreadable": e.to_string()}),
        },
        x => panic!("question {}", x),
    })
}

pub fn serve() {
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let q: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let a = match crate::guarded(|| answer(&q)) {
            Ok(Ok(x)) | Ok(Err(x)) => x,
            Err(p) => json!({ "panic": p }),
        };
        let mut o = out.lock();
        writeln!(o, "{}", a).unwrap();
        o.flush().unwrap();
    }
}
