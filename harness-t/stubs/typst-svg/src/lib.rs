//! Stands in for `typst-svg`: what is to be drawn, as text.
use typst::layout::{Abs, Page, PagedDocument};

pub fn svg(page: &Page) -> String {
    format!("one {:?}", page.text())
}
pub fn svg_merged(doc: &PagedDocument, gap: Abs) -> String {
    let pages: Vec<String> = doc.pages.iter().map(|p| p.text()).collect();
    format!("merged {} {pages:?}", gap.to_pt())
}
