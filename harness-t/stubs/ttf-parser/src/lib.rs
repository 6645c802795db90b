//! Stands in for `ttf-parser`: a font file has a line for each of its fonts.
pub fn fonts_in_collection(data: &[u8]) -> Option<u32> {
    let n = std::str::from_utf8(data).ok()?.lines().count() as u32;
    (n > 1).then_some(n)
}
