//! The tasks, and the actor that tells the editor.
pub mod actor;
pub mod task;
pub mod project {
    pub use tinymist_project::*;
}
pub mod tool {
    pub mod word_count;
}
pub use sync_ls::LspClient;
