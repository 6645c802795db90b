//! Stands in for `fontdb`: font files end in `.font`; there are no system fonts.
use std::path::{Path, PathBuf};
use std::sync::Arc;

#[derive(Clone)]
pub enum Source {
    Binary(Arc<dyn AsRef<[u8]> + Sync + Send>),
    File(PathBuf),
    SharedFile(PathBuf, Arc<dyn AsRef<[u8]> + Sync + Send>),
}
pub type ID = usize;
#[derive(Clone)]
pub struct FaceInfo {
    pub id: ID,
    pub source: Source,
    pub index: u32,
}
#[derive(Clone, Default)]
pub struct Database {
    faces: Vec<FaceInfo>,
}
impl Database {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn faces(&self) -> impl Iterator<Item = &FaceInfo> + '_ {
        self.faces.iter()
    }
    pub fn len(&self) -> usize {
        self.faces.len()
    }
    pub fn is_empty(&self) -> bool {
        self.faces.is_empty()
    }
    pub fn load_system_fonts(&mut self) {}
    pub fn load_fonts_dir<P: AsRef<Path>>(&mut self, dir: P) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        let mut all: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
        all.sort();
        for p in all {
            if p.is_dir() {
                self.load_fonts_dir(p);
            } else if p.extension().is_some_and(|e| e == "font") {
                let _ = self.load_font_file(p);
            }
        }
    }
    pub fn load_font_file<P: AsRef<Path>>(&mut self, path: P) -> std::io::Result<()> {
        let text = std::fs::read_to_string(path.as_ref())?;
        for (i, _) in text.lines().enumerate() {
            self.faces.push(FaceInfo { id: self.faces.len(), source: Source::File(path.as_ref().into()), index: i as u32 });
        }
        Ok(())
    }
    pub fn with_face_data<P, T>(&self, id: ID, p: P) -> Option<T>
    where
        P: FnOnce(&[u8], u32) -> T,
    {
        let f = self.faces.get(id)?;
        let Source::File(path) = &f.source else { return None };
        Some(p(&std::fs::read(path).ok()?, f.index))
    }
}

impl std::fmt::Debug for Database {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Database").field("faces", &self.faces.len()).finish()
    }
}
