use std::hash::{Hash, Hasher};

use crate::foundations::Bytes;

/// A font file is text here: a line `family:characters` for each of its fonts.
#[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct FontInfo {
    pub family: String,
    pub variant: FontVariant,
    pub coverage: Coverage,
}
impl FontInfo {
    pub fn new(data: &[u8], index: u32) -> Option<Self> {
        let text = std::str::from_utf8(data).ok()?;
        let (family, cov) = text.lines().nth(index as usize)?.split_once(':')?;
        let mut v: Vec<u32> = cov.chars().map(|c| c as u32).collect();
        v.sort_unstable();
        v.dedup();
        Some(Self { family: family.into(), variant: FontVariant(0), coverage: Coverage(v) })
    }
    pub fn iter(data: &[u8]) -> impl Iterator<Item = Self> + '_ {
        (0..64).map_while(move |i| Self::new(data, i))
    }
}
#[derive(Debug, Copy, Clone, Default, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct FontVariant(pub u16);
#[derive(Debug, Clone, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Coverage(pub Vec<u32>);
impl Coverage {
    pub fn iter(&self) -> impl Iterator<Item = u32> + '_ {
        self.0.iter().copied()
    }
    pub fn contains(&self, c: u32) -> bool {
        self.0.contains(&c)
    }
}
#[derive(Debug, Default, Clone, Hash)]
pub struct FontBook(Vec<FontInfo>);
impl FontBook {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_infos(infos: impl IntoIterator<Item = FontInfo>) -> Self {
        Self(infos.into_iter().collect())
    }
    pub fn push(&mut self, info: FontInfo) {
        self.0.push(info)
    }
    pub fn info(&self, index: usize) -> Option<&FontInfo> {
        self.0.get(index)
    }
    pub fn select_fallback(&self, like: Option<&FontInfo>, _variant: FontVariant, text: &str) -> Option<usize> {
        let c = text.chars().next()? as u32;
        let ok = |i: &&(usize, &FontInfo)| i.1.coverage.contains(c);
        let all: Vec<(usize, &FontInfo)> = self.0.iter().enumerate().collect();
        all.iter().filter(ok).find(|i| like.is_some_and(|l| l == i.1)).or_else(|| all.iter().find(ok)).map(|i| i.0)
    }
}
#[derive(Clone, Debug)]
pub struct Font {
    data: Bytes,
    index: u32,
    info: FontInfo,
}
impl Font {
    pub fn new(data: Bytes, index: u32) -> Option<Self> {
        let info = FontInfo::new(&data, index)?;
        Some(Self { data, index, info })
    }
    pub fn data(&self) -> &Bytes {
        &self.data
    }
    pub fn index(&self) -> u32 {
        self.index
    }
    pub fn info(&self) -> &FontInfo {
        &self.info
    }
}
impl PartialEq for Font {
    fn eq(&self, o: &Self) -> bool {
        self.data == o.data && self.index == o.index
    }
}
impl Eq for Font {}
impl Hash for Font {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.data.hash(h);
        self.index.hash(h);
    }
}
