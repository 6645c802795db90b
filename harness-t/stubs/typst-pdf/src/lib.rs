//! Stands in for `typst-pdf`: the pages, and what the options say.
use typst::diag::{SourceResult, StrResult};
use typst::foundations::Datetime;
use typst::layout::PagedDocument;

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
#[allow(non_camel_case_types)]
#[non_exhaustive]
pub enum PdfStandard {
    V_1_7,
    A_2b,
    A_3b,
}
#[derive(Debug, Clone, Default)]
pub struct PdfStandards(Vec<PdfStandard>);
impl PdfStandards {
    pub fn new(list: &[PdfStandard]) -> StrResult<Self> {
        if list.contains(&PdfStandard::A_2b) && list.contains(&PdfStandard::A_3b) {
            return Err("PDF cannot conform to A-2B and A-3B at the same time".into());
        }
        Ok(Self(list.to_vec()))
    }
}
#[derive(Debug, Copy, Clone)]
pub struct Timestamp(Datetime);
impl Timestamp {
    pub fn new_utc(datetime: Datetime) -> Self {
        Self(datetime)
    }
}
#[derive(Debug, Default)]
pub struct PdfOptions<'a> {
    pub ident: Option<&'a str>,
    pub timestamp: Option<Timestamp>,
    pub standards: PdfStandards,
}
pub fn pdf(doc: &PagedDocument, options: &PdfOptions) -> SourceResult<Vec<u8>> {
    let pages: Vec<String> = doc.pages.iter().map(|p| p.text()).collect();
    Ok(format!("{:?} {:?} {pages:?}", options.timestamp, options.standards).into_bytes())
}
