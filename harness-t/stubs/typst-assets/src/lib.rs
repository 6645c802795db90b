//! Stands in for `typst-assets`: there are no fonts.
pub fn fonts() -> impl Iterator<Item = &'static [u8]> {
    std::iter::empty()
}
