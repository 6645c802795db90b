use crate::diag::EcoString;
use crate::syntax::Span;

#[derive(Debug, Default, Clone)]
pub struct HtmlDocument {
    pub root: HtmlElement,
    pub info: crate::model::DocumentInfo,
    pub introspector: crate::introspection::Introspector,
}
#[derive(Debug, Default, Clone)]
pub struct HtmlElement {
    pub children: Vec<HtmlNode>,
}
#[derive(Debug, Clone)]
pub enum HtmlNode {
    Tag(()),
    Text(EcoString, Span),
    Element(HtmlElement),
    Frame(crate::layout::Frame),
}
