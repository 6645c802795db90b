//! A formatter that does what the harness says.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Config(pub fn(&str) -> String);
impl Default for Config {
    fn default() -> Self {
        Self(str::to_owned)
    }
}
pub fn format(text: &str, config: Config) -> String {
    (config.0)(text)
}
