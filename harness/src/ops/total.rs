//! Reading never fails, and nothing that was read makes an output panic.
use super::kinds;
use crate::text::Text;
use crate::{actual, guarded, Outcome};
use serde_json::json;
use vimwiki::*;

pub fn total(v: &serde_json::Value) -> Outcome {
    let t = Text::new(&v["t"]);
    let page: Page = match Language::from_vimwiki_str(&t.s).parse::<Page>() {
        Ok(p) => p,
        Err(x) => return Err(json!({"reading": "failed", "error": x.to_string()})),
    };
    // every non-blank line lies in exactly one element
    let regs: Vec<(usize, usize)> =
        page.elements.iter().map(|x| (x.region().offset(), x.region().offset() + x.region().len())).collect();
    let b = t.s.as_bytes();
    let mut start = 0;
    while start < b.len() {
        let end = b[start..].iter().position(|c| *c == b'\n').map(|x| start + x).unwrap_or(b.len());
        let line = &b[start..end];
        let first = line.iter().position(|c| !b" \t\r\x0c".contains(c));
        if let Some(f) = first {
            let f = start + f;
            let l = start + line.iter().rposition(|c| !b" \t\r\x0c".contains(c)).unwrap() + 1;
            let n = regs.iter().filter(|(a, z)| *a <= f && l <= *z).count();
            let m = regs.iter().filter(|(a, z)| *a < l && f < *z).count();
            if n != 1 || m != 1 {
                return Err(json!({"line": t.s[start..end], "inside": n, "touching": m}));
            }
        }
        start = end + 1;
    }
    // other languages are refused
    if Language::from_markdown_str(&t.s).parse::<Page>().is_ok() {
        return Err(json!({"markdown": "read as a page"}));
    }
    if Language::from_mediawiki_str(&t.s).parse::<Page>().is_ok() {
        return Err(json!({"mediawiki": "read as a page"}));
    }
    for (name, c) in [("default", VimwikiConfig::default()), ("other", other())].iter() {
        match guarded(|| page.to_vimwiki_string(c.clone())) {
            Err(p) => return Err(json!({"vimwiki": name, "panic": p})),
            Ok(Err(e)) => return Err(json!({"vimwiki": name, "error": e.to_string()})),
            Ok(Ok(_)) => {}
        }
    }
    #[cfg(feature = "html")]
    for (name, c) in html_configs() {
        match guarded(|| page.to_html_string(c.clone())) {
            Err(p) => return Err(json!({"html": name, "panic": p})),
            Ok(_) => {}
        }
    }
    Ok(kinds(&actual::page(&page)))
}

fn other() -> VimwikiConfig {
    let mut c = VimwikiConfig::default();
    c.page.indent_str = " ".to_string();
    c.page.separate_block_elements = false;
    c.blockquote.prefer_indented_blockquote = true;
    c.blockquote.trim_lines = false;
    c.comment.no_padding = true;
    c.comment.trim_content = false;
    c.definition_list.term_on_line_by_itself = true;
    c.definition_list.trim_terms = false;
    c.definition_list.trim_definitions = false;
    c.header.no_padding = true;
    c.header.trim_content = false;
    c.paragraph.trim_lines = false;
    c.table.no_padding = true;
    c
}

#[cfg(feature = "html")]
fn html_configs() -> Vec<(&'static str, HtmlConfig)> {
    use std::path::PathBuf;
    let mut a = HtmlConfig::default();
    a.comment.include = true;
    let wiki = |n: &str| HtmlWikiConfig {
        path: PathBuf::from(format!("/w/{}", n)),
        path_html: PathBuf::from(format!("/h/{}", n)),
        name: Some(n.to_string()),
        ..Default::default()
    };
    let mut b = HtmlConfig::default();
    b.wikis = vec![wiki("a"), wiki("x"), wiki("x/y")];
    b.runtime = HtmlRuntimeConfig { wiki_index: Some(1), page: PathBuf::from("/w/x/d/p.wiki") };
    b.paragraph.ignore_newline = false;
    vec![("default", a), ("wikis", b)]
}
