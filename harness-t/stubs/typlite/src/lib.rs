//! Stands in for `typlite`: the text of the main file.
use ecow::EcoString;
use std::sync::Arc;
use tinymist_project::LspWorld;

pub struct Typlite(Arc<LspWorld>);
impl Typlite {
    pub fn new(world: Arc<LspWorld>) -> Self {
        Self(world)
    }
    pub fn convert(self) -> Result<EcoString, EcoString> {
        use typst::World;
        let s = self.0.source(self.0.main()).map_err(|e| EcoString::from(e.to_string()))?;
        Ok(format!("md {}", s.text()).into())
    }
}
