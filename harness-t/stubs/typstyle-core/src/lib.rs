//! A formatter that does what the harness says.
use std::sync::Arc;
use typst::syntax::Source;

#[derive(Clone)]
pub struct Config(pub Arc<dyn Fn(&str) -> Option<String> + Send + Sync>);
impl Default for Config {
    fn default() -> Self {
        Self(Arc::new(|t| Some(t.to_owned())))
    }
}
impl std::fmt::Debug for Config {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Config")
    }
}
impl PartialEq for Config {
    fn eq(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl Eq for Config {}
pub struct Error;
pub struct Typstyle(Config);
impl Typstyle {
    pub fn new(config: Config) -> Self {
        Self(config)
    }
    pub fn format_source(&self, source: &Source) -> Result<String, Error> {
        (self.0 .0)(source.text()).ok_or(Error)
    }
    pub fn format_content(&self, text: &str) -> Result<String, Error> {
        (self.0 .0)(text).ok_or(Error)
    }
}
