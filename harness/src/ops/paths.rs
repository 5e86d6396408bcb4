//! Where the output of a file is written and which wiki it belongs to.
use super::html::{absolute, path};
use crate::text::{arr, num, st, Text};
use crate::Outcome;
use serde_json::{json, Value};
use std::path::{Component, Path, PathBuf};
use vimwiki::{HtmlConfig, HtmlRuntimeConfig, HtmlWikiConfig};

/// the places along an absolute path; None when it is not absolute or leads above the root
fn places(p: &Path) -> Option<Vec<String>> {
    if !p.is_absolute() {
        return None;
    }
    let mut out = vec![];
    for c in p.components() {
        match c {
            Component::Normal(x) => out.push(x.to_str()?.to_string()),
            Component::ParentDir => {
                out.pop()?;
            }
            _ => {}
        }
    }
    Some(out)
}

pub fn paths(v: &Value) -> Outcome {
    if v.get("conf").is_some() {
        return conf(v);
    }
    let wikis: Vec<HtmlWikiConfig> = arr(&v["wikis"])
        .iter()
        .map(|w| HtmlWikiConfig {
            path: absolute(&path(&w["path"])),
            path_html: absolute(&path(&w["html"])),
            name: Some(Text::new(&w["name"]).s).filter(|x| !x.is_empty()),
            ..Default::default()
        })
        .collect();
    let segs = path(&v["segs"]);
    let abs = v["abs"] == true;
    let input: PathBuf = PathBuf::from(format!("{}{}", if abs { "/" } else { "" }, segs.join("/")));
    let mut tags = vec![if abs { "absolute" } else { "relative" }];
    let exts: Vec<String> = arr(&v["exts"]).iter().map(|x| Text::new(x).s).collect();
    for (k, w) in wikis.iter().enumerate() {
        for (e, ext) in exts.iter().enumerate() {
            let want = arr(&v["out"][k][e]);
            if st(&want[0]) == "odd" {
                let _ = w.make_output_path(&input, ext);
                continue;
            }
            let want = path(&want[1]);
            let got = w.make_output_path(&input, ext);
            if places(&got).as_ref() != Some(&want) {
                return Err(json!({"output of": input, "wiki": k, "ext": ext, "expected": want, "actual": got}));
            }
            tags.push("output");
        }
    }
    let cfg = HtmlConfig { wikis, ..Default::default() };
    if v["known"] == true {
        let want = num(&v["owner"]).checked_sub(1);
        if cfg.find_wiki_index_by_path(&input) != want {
            return Err(json!({"wiki of": input, "expected": want, "actual": cfg.find_wiki_index_by_path(&input)}));
        }
        if cfg.find_wiki_by_path(&input).map(|x| &x.path) != want.map(|i| &cfg.wikis[i].path) {
            return Err(json!({"wiki of": input, "expected": want}));
        }
        tags.push(if want.is_some() { "owned" } else { "foreign" });
        for (k, w) in cfg.wikis.iter().enumerate() {
            let x = arr(&v["within"][k]);
            let inside = st(&x[0]) == "in";
            let want: Option<PathBuf> = if inside { Some(path(&x[1]).iter().collect()) } else { None };
            let got = w.path_within(&input).map(|p| p.components().collect::<PathBuf>());
            if got != want {
                return Err(json!({"within": k, "of": input, "expected": want, "actual": got}));
            }
            let n = want.as_ref().map(|p| p.components().count()).unwrap_or(0);
            let ups: Option<PathBuf> = if n == 0 { None } else { Some((1..n).map(|_| "..").collect()) };
            if w.path_to_root(&input) != ups {
                return Err(json!({"to root": k, "of": input, "expected": ups, "actual": w.path_to_root(&input)}));
            }
            if !inside {
                continue;
            }
            // the page as the one being written
            let mut c = cfg.clone();
            c.runtime = HtmlRuntimeConfig { wiki_index: Some(k), page: input.clone() };
            if c.to_active_page_path_to_wiki_root() != ups.clone().unwrap_or_default()
                || c.as_active_page_path_within_wiki().components().collect::<PathBuf>() != want.clone().unwrap()
                || c.to_current_wiki().path != w.path
            {
                return Err(json!({"active page": input, "wiki": k}));
            }
            tags.push("within");
        }
        if abs && !path(&v["real"]).is_empty() {
            // a page of no wiki is alone in its directory
            let mut c = cfg.clone();
            c.runtime = HtmlRuntimeConfig { wiki_index: None, page: input.clone() };
            let real = path(&v["real"]);
            let dir = absolute(&real[..real.len().max(1) - 1]);
            let want: PathBuf = real.last().into_iter().collect();
            if c.to_current_wiki().path != dir
                || c.as_active_page_path_within_wiki() != want
                || c.to_active_page_path_to_wiki_root() != PathBuf::new()
            {
                return Err(json!({"page of no wiki": input}));
            }
        }
    }
    for x in arr(&v["names"]) {
        let name = Text::new(&x[0]).s;
        let want = num(&x[1]).checked_sub(1);
        if cfg.find_wiki_index_by_name(&name) != want || cfg.find_wiki_by_name(&name).map(|w| &w.path) != want.map(|i| &cfg.wikis[i].path) {
            return Err(json!({"wiki named": name, "expected": want, "actual": cfg.find_wiki_index_by_name(&name)}));
        }
        if want.is_some() {
            tags.push("named");
        }
    }
    tags.sort_unstable();
    tags.dedup();
    Ok(tags)
}

fn conf(v: &Value) -> Outcome {
    let t = Text::new(&v["conf"]).s;
    let r = arr(&v["r"]);
    let want = if st(&r[0]) == "at" { Some(absolute(&path(&r[1]))) } else { None };
    let one: Result<HtmlWikiConfig, _> = serde_json::from_value(json!({ "path": t }));
    let two: Result<HtmlWikiConfig, _> = serde_json::from_value(json!({ "path": "/w", "path_html": t, "name": "n" }));
    let all: Result<HtmlConfig, _> = serde_json::from_value(json!({"wikis": [{ "path": t, "path_html": t }]}));
    let got = [
        one.ok().map(|x| x.path),
        two.ok().map(|x| x.path_html),
        all.ok().map(|x| x.wikis[0].path_html.clone()),
    ];
    for g in got.iter() {
        // as text: comparing paths would take /a/./b for /a/b
        if g.as_ref().map(|x| x.as_os_str()) != want.as_ref().map(|x| x.as_os_str()) {
            return Err(json!({"configured": t, "expected": want, "actual": g}));
        }
    }
    Ok(vec![if want.is_some() { "accepted" } else { "refused" }])
}
