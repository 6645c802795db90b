//! Stands in for `typst-html`.
use typst::diag::SourceResult;
use typst::html::{HtmlDocument, HtmlElement, HtmlNode};

pub fn html(doc: &HtmlDocument) -> SourceResult<String> {
    fn go(e: &HtmlElement, out: &mut String) {
        for c in &e.children {
            match c {
                HtmlNode::Text(t, _) => out.push_str(&format!("<p>{t}</p>")),
                HtmlNode::Element(e) => go(e, out),
                _ => {}
            }
        }
    }
    let mut s = String::new();
    go(&doc.root, &mut s);
    Ok(s)
}
