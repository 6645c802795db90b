//! Only the conversions.
pub mod lsp_typst_boundary;
pub use lsp_typst_boundary::*;

mod prelude {
    pub use lsp_types::Url;
    pub use std::path::{Path, PathBuf};
    pub use std::sync::{Arc, LazyLock};
}

/// Diagnostics of files.
pub type DiagnosticsMap = std::collections::HashMap<lsp_types::Url, ecow::EcoVec<lsp_types::Diagnostic>>;
