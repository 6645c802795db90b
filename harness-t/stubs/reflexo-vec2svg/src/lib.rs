//! Renders a document as a number of its version: a delta applies to what was packed before, as the real one's does.
use tinymist_std::typst::TypstDocument;
use tinymist_std::Error;
use tinymist_world::debug_loc::{ElementPoint, SourceSpanOffset};

#[derive(Default)]
pub struct IncrSvgDocServer {
    debug: bool,
    seq: usize,
    doc: Option<String>,
}

pub fn text(doc: &TypstDocument) -> String {
    match doc {
        TypstDocument::Paged(d) => d.pages.iter().map(|p| p.text()).collect::<Vec<_>>().join("|"),
        TypstDocument::Html(_) => "html".into(),
    }
}

impl IncrSvgDocServer {
    pub fn set_should_attach_debug_info(&mut self, v: bool) {
        self.debug = v;
    }
    /// What has changed since what was packed last.
    pub fn pack_delta(&mut self, doc: &TypstDocument) -> Vec<u8> {
        let doc = text(doc);
        self.seq += 1;
        self.doc = Some(doc.clone());
        format!("diff-v1,{},{doc}", self.seq).into_bytes()
    }
    /// All of what was packed last.
    pub fn pack_current(&mut self) -> Option<Vec<u8>> {
        let doc = self.doc.as_ref()?;
        Some(format!("new,{},{doc}", self.seq).into_bytes())
    }
    /// The fingerprint names a span.
    pub fn resolve_span_by_element_path(&mut self, path: &[ElementPoint]) -> Result<Option<(SourceSpanOffset, SourceSpanOffset)>, Error> {
        assert!(self.debug, "no debug information");
        let span = |p: &ElementPoint| typst::syntax::Span::from_range(crate::file(), p.index as usize..p.index as usize + 1);
        match path {
            [] => Err(tinymist_std::error_once!("empty path")),
            [x] if x.kind == 9 => Ok(None),
            [x, .., y] => Ok(Some((span(x).into(), span(y).into()))),
            [x] => Ok(Some((span(x).into(), span(x).into()))),
        }
    }
    pub fn resolve_element_paths_by_span(&mut self, span: SourceSpanOffset) -> Result<Vec<Vec<ElementPoint>>, Error> {
        let at = span.span.range().map_or(0, |r| r.start);
        Ok(vec![vec![ElementPoint { kind: 1, index: at as u32, fingerprint: format!("f{at}") }]])
    }
}

pub fn file() -> typst::syntax::FileId {
    typst::syntax::FileId::new(None, typst::syntax::VirtualPath::new("main.typ"))
}

pub struct DefaultExportFeature;
pub fn render_svg_html<F>(doc: &typst::layout::PagedDocument) -> String {
    let pages: Vec<String> = doc.pages.iter().map(|p| p.text()).collect();
    format!("svg html {pages:?}")
}
