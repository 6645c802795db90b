//! Stands in for the `typst` crate, which cannot be fetched offline: the data types that the file system, package and
//! project layers use, with the behaviour of typst 0.13. The language is a small one of lines (see `eval`), whose
//! documents tell which files, inputs and features a compilation has seen.

pub mod diag;
pub mod eval;
pub mod foundations;
pub mod html;
pub mod introspection;
pub mod layout;
pub mod syntax;
pub mod text;
pub mod utils;

pub extern crate comemo;
pub extern crate ecow;

use std::ops::Range;

use comemo::{Track, Tracked};
use ecow::EcoVec;

use diag::{FileResult, SourceDiagnostic, SourceResult, Warned};
use foundations::{Bytes, Datetime, Dict};
use syntax::{FileId, Source, Span};
use text::{Font, FontBook};
use utils::LazyHash;

#[comemo::track]
pub trait World: Send + Sync {
    fn library(&self) -> &LazyHash<Library>;
    fn book(&self) -> &LazyHash<FontBook>;
    fn main(&self) -> FileId;
    fn source(&self, id: FileId) -> FileResult<Source>;
    fn file(&self, id: FileId) -> FileResult<Bytes>;
    fn font(&self, index: usize) -> Option<Font>;
    fn today(&self, offset: Option<i64>) -> Option<Datetime>;
}

pub trait WorldExt {
    fn range(&self, span: Span) -> Option<Range<usize>>;
}
impl<T: World + ?Sized> WorldExt for T {
    fn range(&self, span: Span) -> Option<Range<usize>> {
        span.id()?;
        span.range()
    }
}

#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
#[non_exhaustive]
pub enum Feature {
    Html,
}

#[derive(Debug, Clone, Default, Eq, PartialEq, Hash)]
pub struct Features(bool);
impl Features {
    pub fn is_enabled(&self, _f: Feature) -> bool {
        self.0
    }
}
impl FromIterator<Feature> for Features {
    fn from_iter<T: IntoIterator<Item = Feature>>(iter: T) -> Self {
        Self(iter.into_iter().next().is_some())
    }
}

#[derive(Debug, Clone, Hash)]
pub struct Library {
    pub inputs: Dict,
    pub features: Features,
}
impl Library {
    pub fn builder() -> LibraryBuilder {
        LibraryBuilder::default()
    }
}
#[derive(Debug, Clone, Default)]
pub struct LibraryBuilder {
    inputs: Option<Dict>,
    features: Features,
}
impl LibraryBuilder {
    pub fn with_inputs(mut self, inputs: Dict) -> Self {
        self.inputs = Some(inputs);
        self
    }
    pub fn with_features(mut self, features: Features) -> Self {
        self.features = features;
        self
    }
    pub fn build(self) -> Library {
        Library { inputs: self.inputs.unwrap_or_default(), features: self.features }
    }
}

pub mod model {
    use crate::diag::EcoString;
    #[repr(transparent)]
    pub struct HeadingElem {
        pub body: crate::foundations::Content,
    }
    #[derive(Debug, Default, Clone, PartialEq, Hash)]
    pub struct DocumentInfo {
        pub title: Option<EcoString>,
        pub author: Vec<EcoString>,
    }
}
pub mod visualize {
    use std::str::FromStr;
    #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
    pub struct Color(pub [u8; 4]);
    impl Color {
        pub const BLACK: Self = Self([0, 0, 0, 255]);
        pub const WHITE: Self = Self([255; 4]);
        pub const RED: Self = Self([0xff, 0x41, 0x36, 255]);
        pub const GREEN: Self = Self([0x2e, 0xcc, 0x40, 255]);
        pub const BLUE: Self = Self([0, 0x74, 0xd9, 255]);
    }
    impl FromStr for Color {
        type Err = &'static str;
        fn from_str(hex: &str) -> Result<Self, Self::Err> {
            let hex = hex.strip_prefix('#').unwrap_or(hex);
            if hex.bytes().any(|b| !b.is_ascii_hexdigit()) {
                return Err("color string contains non-hexadecimal letters");
            }
            let d = |i: usize| u8::from_str_radix(&hex[i..i + 1], 16).unwrap();
            let (short, alpha) = match hex.len() {
                3 => (true, false),
                4 => (true, true),
                6 => (false, false),
                8 => (false, true),
                _ => return Err("color string has wrong length"),
            };
            let mut v = [255; 4];
            for (i, v) in v.iter_mut().enumerate().take(if alpha { 4 } else { 3 }) {
                *v = if short { d(i) * 17 } else { d(2 * i) * 16 + d(2 * i + 1) };
            }
            Ok(Self(v))
        }
    }
}
pub mod routines {
    #[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
    pub enum EvalMode {
        Code,
        Markup,
        Math,
    }
    #[derive(Debug, Hash)]
    pub struct Routines(());
    impl Routines {
        pub(crate) const fn new() -> Self {
            Self(())
        }
    }
}
pub static ROUTINES: routines::Routines = routines::Routines::new();

/// A document: made of what the evaluation yields.
pub trait Document: Sized {
    fn from_eval(out: eval::Output) -> Self;
    const HTML: bool;
    fn info(&self) -> &model::DocumentInfo;
    fn introspector(&self) -> &introspection::Introspector;
}
impl Document for layout::PagedDocument {
    const HTML: bool = false;
    fn from_eval(out: eval::Output) -> Self {
        let introspector = introspection::Introspector(out.elems.clone());
        let pages = out.pages.iter().enumerate().map(|(i, p)| layout::Page::of_text(p, i + 1)).collect();
        Self { pages, info: out.info, introspector }
    }
    fn info(&self) -> &model::DocumentInfo {
        &self.info
    }
    fn introspector(&self) -> &introspection::Introspector {
        &self.introspector
    }
}
impl Document for html::HtmlDocument {
    const HTML: bool = true;
    fn from_eval(out: eval::Output) -> Self {
        let introspector = introspection::Introspector(out.elems.clone());
        let text = |p: &ecow::EcoString| html::HtmlNode::Text(p.clone(), Span::detached());
        let root = html::HtmlElement { children: out.pages.iter().map(text).collect() };
        Self { root, info: out.info, introspector }
    }
    fn info(&self) -> &model::DocumentInfo {
        &self.info
    }
    fn introspector(&self) -> &introspection::Introspector {
        &self.introspector
    }
}

/// How often a compilation has run.
pub static COMPILES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn compile<D: Document>(world: &dyn World) -> Warned<SourceResult<D>> {
    COMPILES.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    if D::HTML && !world.library().features.is_enabled(Feature::Html) {
        let hint = "html export is only available when `--features html` is passed";
        return Warned { output: Err(ecow::eco_vec![SourceDiagnostic::error(Span::detached(), hint)]), warnings: EcoVec::new() };
    }
    let mut warnings = EcoVec::new();
    if D::HTML {
        warnings.push(SourceDiagnostic::warning(Span::detached(), "html export is under active development and incomplete"));
    }
    let world: Tracked<dyn World + '_> = world.track();
    let main = world.main();
    let out = world.source(main).map_err(|e| ecow::eco_vec![SourceDiagnostic::error(Span::detached(), ecow::EcoString::from(e))]);
    let out = match out {
        Err(e) => Err(e),
        Ok(source) => {
            let (out, w) = eval::eval(world, source, D::HTML, 0);
            warnings.extend(w);
            out
        }
    };
    Warned { output: out.map(D::from_eval), warnings }
}
