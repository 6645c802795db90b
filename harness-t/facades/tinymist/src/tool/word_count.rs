//! Counts what stands between spaces.
use serde::{Deserialize, Serialize};
use tinymist_std::typst::TypstDocument;
use tinymist_task::TextExport;

#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct WordsCount {
    pub words: usize,
    pub chars: usize,
    pub spaces: usize,
    pub cjk_chars: usize,
}

pub fn word_count(doc: &TypstDocument) -> WordsCount {
    let text = TextExport::run_on_doc(doc).unwrap_or_default();
    WordsCount { words: text.split_whitespace().count(), chars: text.chars().count(), spaces: 0, cjk_chars: 0 }
}
