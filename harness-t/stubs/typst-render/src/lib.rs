//! Stands in for `typst-render`: what is to be drawn, as text.
use typst::layout::{Abs, Page, PagedDocument};
use typst::visualize::Color;

pub struct Pixmap(String);
impl Pixmap {
    pub fn encode_png(&self) -> Result<Vec<u8>, std::fmt::Error> {
        Ok(self.0.clone().into_bytes())
    }
}
pub fn render(page: &Page, ppp: f32) -> Pixmap {
    Pixmap(format!("one {ppp} {:?}", page.text()))
}
pub fn render_merged(doc: &PagedDocument, ppp: f32, gap: Abs, fill: Option<Color>) -> Pixmap {
    let pages: Vec<String> = doc.pages.iter().map(|p| p.text()).collect();
    Pixmap(format!("merged {ppp} {} {fill:?} {pages:?}", gap.to_pt()))
}
