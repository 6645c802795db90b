//! What is re-exported of tinymist's own crates.
pub use tinymist_std::error;
pub use tinymist_std::time;
pub use tinymist_std::Error;
pub use tinymist_world::debug_loc;
pub use tinymist_world::{CompilationTask, ExportComputation};
pub use typst::foundations::Bytes;

pub mod query {
    use tinymist_std::typst::TypstDocument;
    use typst::diag::StrResult;
    use typst::foundations::Content;
    use typst::World;

    pub fn retrieve<W: World>(world: &&W, selector: &str, doc: &TypstDocument) -> StrResult<Vec<Content>> {
        match doc {
            TypstDocument::Paged(d) => tinymist_task::DocumentQuery::retrieve(*world, selector, d.as_ref()),
            TypstDocument::Html(d) => tinymist_task::DocumentQuery::retrieve(*world, selector, d.as_ref()),
        }
    }
}
pub mod typst {
    pub use ::typst::*;
    pub mod prelude {
        pub use ecow::{eco_vec, EcoVec};
    }
}
