//! Expectations about drawn documents.
#![allow(dead_code)]
use std::sync::OnceLock;
use synsim::reftree::{self, Tree};
use synsim::*;

/// Template text around its two insertions, when it has only those two.
static FRAME: OnceLock<Option<Vec<String>>> = OnceLock::new();
pub fn link_sources() { let _ = std::os::unix::fs::symlink("/repo/src", "src"); }
pub fn setup() { link_sources(); frame(); for d in ["pages", "pages/in", "a b/文"] { std::fs::create_dir_all(d).expect("directories"); } }
/// One of the ways to say where a page goes: other directories, odd names, no suffix.
pub fn place(stem: &str) -> String {
    match choose(12) {
        0 | 1 => format!("pages/{}.html", stem),
        2 => format!("pages/in/../{}.htm", stem),
        3 => format!("./{}.html", stem),
        4 => format!("a b/文/{} 树.html", stem),
        5 => format!("pages//in/{}", stem),
        6 => format!(".{}.HTML", stem),
        7 => format!("{}.{}.html", stem, "n".repeat(90)),
        _ => format!("{}.html", stem),
    }
}
/// The name a file goes by in its directory.
pub fn base(path: &str) -> &str { path.rsplit('/').next().unwrap_or(path) }
pub fn frame() {
    let t = std::fs::read_to_string("src/tool/templates/gui/ast.html").unwrap_or_default();
    let re = regex::Regex::new(r"\{\{\s*(name|ast)\s*\}\}").unwrap();
    let mut parts = vec![];
    let mut at = 0;
    for m in re.captures_iter(&t) { let w = m.get(0).unwrap(); parts.push(t[at..w.start()].to_string()); parts.push(m[1].to_string()); at = w.end(); }
    parts.push(t[at..].to_string());
    let plain = parts.iter().step_by(2).all(|p| !p.contains("{{") && !p.contains("{%") && !p.contains("{#"));
    let _ = FRAME.set(if plain && parts.iter().filter(|p| *p == "ast").count() == 1 { Some(parts) } else { None });
}
/// What the page has before and after the tree.
pub fn around(name: &str) -> Option<(String, String)> {
    let parts = FRAME.get()?.as_ref()?;
    let k = parts.iter().position(|p| p == "ast").unwrap();
    let fill = |p: &[String]| p.iter().map(|x| if x == "name" { name.to_string() } else { x.clone() }).collect::<String>();
    Some((fill(&parts[..k]), fill(&parts[k + 1..])))
}
/// Is this the whole document for the tree?
pub fn check(doc: &[u8], t: &Tree, name: &str) -> Result<(), (String, String)> {
    let s = std::str::from_utf8(doc).map_err(|_| ("document-damaged".to_string(), "the document is not UTF-8".to_string()))?;
    if let Some((head, tail)) = around(name) {
        if !s.starts_with(&head) || !s.ends_with(&tail) || s.len() < head.len() + tail.len() { return Err(("document-incomplete".into(), format!("{} bytes that are not the page with its tree (starts right: {}, ends right: {})", s.len(), s.starts_with(&head), s.ends_with(&tail)))); }
    }
    let js = reftree::read_document(s).map_err(|m| ("tree-unreadable".to_string(), m))?;
    reftree::same_drawn(&js, t).map_err(|m| ("tree-wrong".to_string(), m))
}
pub fn require_doc(path: &str, t: &Tree, name: &str, when: &str) -> Result<Vec<u8>, Violation> {
    let d = std::fs::read(path).map_err(|e| Violation { class: "document-missing".into(), msg: format!("{}: no document: {}", when, e) })?;
    check(&d, t, name).map_err(|(c, m)| Violation { class: c, msg: format!("{}: {}; tree {}", when, m, t.show()) })?;
    Ok(d)
}
