pub mod ast;
pub mod package;
mod lines;
pub use lines::is_newline;

use std::collections::HashMap;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::num::NonZeroU32;
use std::ops::Range;
use std::path::{Component, Path, PathBuf};
use std::sync::{Arc, LazyLock, RwLock};

use package::PackageSpec;

type Pair = &'static (Option<PackageSpec>, VirtualPath);

struct Interner {
    to_id: HashMap<Pair, FileId>,
    from_id: Vec<Pair>,
}

static INTERNER: LazyLock<RwLock<Interner>> =
    LazyLock::new(|| RwLock::new(Interner { to_id: HashMap::new(), from_id: Vec::new() }));

/// Identifies a file in a project or package. Here without the limit of 2^16 files, so that many cases fit a process.
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct FileId(NonZeroU32);

impl FileId {
    #[track_caller]
    pub fn new(package: Option<PackageSpec>, path: VirtualPath) -> Self {
        let pair = (package, path);
        if let Some(&id) = INTERNER.read().unwrap().to_id.get(&pair) {
            return id;
        }
        let mut interner = INTERNER.write().unwrap();
        if let Some(&id) = interner.to_id.get(&pair) {
            return id;
        }
        let leaked = Box::leak(Box::new(pair));
        let id = FileId(NonZeroU32::new(interner.from_id.len() as u32 + 1).unwrap());
        interner.to_id.insert(leaked, id);
        interner.from_id.push(leaked);
        id
    }
    #[track_caller]
    pub fn new_fake(path: VirtualPath) -> Self {
        let mut interner = INTERNER.write().unwrap();
        let id = FileId(NonZeroU32::new(interner.from_id.len() as u32 + 1).unwrap());
        interner.from_id.push(Box::leak(Box::new((None, path))));
        id
    }
    pub fn package(&self) -> Option<&'static PackageSpec> {
        self.pair().0.as_ref()
    }
    pub fn vpath(&self) -> &'static VirtualPath {
        &self.pair().1
    }
    pub fn join(self, path: &str) -> Self {
        Self::new(self.package().cloned(), self.vpath().join(path))
    }
    pub fn with_extension(&self, extension: &str) -> Self {
        Self::new(self.package().cloned(), self.vpath().with_extension(extension))
    }
    fn pair(&self) -> Pair {
        INTERNER.read().unwrap().from_id[self.0.get() as usize - 1]
    }
}

impl Debug for FileId {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let vpath = self.vpath();
        match self.package() {
            Some(package) => write!(f, "{package:?}{vpath:?}"),
            None => write!(f, "{vpath:?}"),
        }
    }
}

/// An absolute path in the virtual file system of a project or package.
#[derive(Clone, Eq, PartialEq, Hash)]
pub struct VirtualPath(PathBuf);

impl VirtualPath {
    pub fn new(path: impl AsRef<Path>) -> Self {
        let mut out = Path::new(&Component::RootDir).to_path_buf();
        for component in path.as_ref().components() {
            match component {
                Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
                Component::ParentDir => match out.components().next_back() {
                    Some(Component::Normal(_)) => {
                        out.pop();
                    }
                    _ => out.push(component),
                },
                Component::Normal(_) => out.push(component),
            }
        }
        Self(out)
    }
    pub fn within_root(path: &Path, root: &Path) -> Option<Self> {
        path.strip_prefix(root).ok().map(Self::new)
    }
    pub fn as_rooted_path(&self) -> &Path {
        &self.0
    }
    pub fn as_rootless_path(&self) -> &Path {
        self.0.strip_prefix(Component::RootDir).unwrap_or(&self.0)
    }
    pub fn resolve(&self, root: &Path) -> Option<PathBuf> {
        let root_len = root.as_os_str().len();
        let mut out = root.to_path_buf();
        for component in self.0.components() {
            match component {
                Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
                Component::ParentDir => {
                    out.pop();
                    if out.as_os_str().len() < root_len {
                        return None;
                    }
                }
                Component::Normal(_) => out.push(component),
            }
        }
        Some(out)
    }
    pub fn join(&self, path: impl AsRef<Path>) -> Self {
        match self.0.parent() {
            Some(parent) => Self::new(parent.join(path)),
            None => Self::new(path),
        }
    }
    pub fn with_extension(&self, extension: &str) -> Self {
        Self(self.0.with_extension(extension))
    }
}

impl Debug for VirtualPath {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.0.display().fmt(f)
    }
}

/// A source file: its text, without a syntax tree.
#[derive(Clone)]
pub struct Source(Arc<Repr>);

#[derive(Clone, PartialEq, Eq, Hash)]
struct Repr {
    id: FileId,
    text: String,
}

impl Source {
    pub fn new(id: FileId, text: String) -> Self {
        Self(Arc::new(Repr { id, text }))
    }
    pub fn detached(text: impl Into<String>) -> Self {
        Self::new(FileId::new(None, VirtualPath::new("main.typ")), text.into())
    }
    pub fn id(&self) -> FileId {
        self.0.id
    }
    pub fn text(&self) -> &str {
        &self.0.text
    }
    pub fn len_bytes(&self) -> usize {
        self.0.text.len()
    }
    /// Replaces the text and returns the range that has changed.
    pub fn replace(&mut self, new: &str) -> Range<usize> {
        let old = self.text();
        let mut prefix = old.bytes().zip(new.bytes()).take_while(|(a, b)| a == b).count();
        if prefix == old.len() && prefix == new.len() {
            return 0..0;
        }
        while !old.is_char_boundary(prefix) || !new.is_char_boundary(prefix) {
            prefix -= 1;
        }
        let mut suffix = old[prefix..].bytes().rev().zip(new[prefix..].bytes().rev()).take_while(|(a, b)| a == b).count();
        while !old.is_char_boundary(old.len() - suffix) || !new.is_char_boundary(new.len() - suffix) {
            suffix -= 1;
        }
        let (replace, with) = (prefix..old.len() - suffix, prefix..new.len() - suffix);
        self.edit(replace, &new[with])
    }
    pub fn edit(&mut self, replace: Range<usize>, with: &str) -> Range<usize> {
        Arc::make_mut(&mut self.0).text.replace_range(replace.clone(), with);
        replace.start..replace.start + with.len()
    }
}
impl Debug for Source {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Source({:?})", self.id())
    }
}
impl Hash for Source {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl AsRef<str> for Source {
    fn as_ref(&self) -> &str {
        self.text()
    }
}

/// Where something is: a file and the bytes in it.
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct Span(Option<(FileId, usize, usize)>);
impl Span {
    pub const fn detached() -> Self {
        Self(None)
    }
    pub fn from_range(id: FileId, range: Range<usize>) -> Self {
        Self(Some((id, range.start, range.end)))
    }
    pub fn id(self) -> Option<FileId> {
        self.0.map(|s| s.0)
    }
    pub fn range(self) -> Option<Range<usize>> {
        self.0.map(|s| s.1..s.2)
    }
    pub fn is_detached(self) -> bool {
        self.0.is_none()
    }
}
#[derive(Debug, Copy, Clone, Eq, PartialEq, Hash)]
pub struct Spanned<T> {
    pub v: T,
    pub span: Span,
}

/// A node: code is a sequence of tokens here.
#[derive(Debug, Clone)]
pub struct SyntaxNode {
    pub(crate) text: String,
    pub(crate) error: Option<String>,
    children: Vec<SyntaxNode>,
}
impl SyntaxNode {
    pub fn erroneous(&self) -> bool {
        self.error.is_some() || self.children.iter().any(|c| c.erroneous())
    }
    pub fn errors(&self) -> Vec<String> {
        self.error.iter().cloned().chain(self.children.iter().flat_map(|c| c.errors())).collect()
    }
    pub fn children(&self) -> std::slice::Iter<'_, SyntaxNode> {
        self.children.iter()
    }
    pub fn cast<'a, T: ast::AstNode<'a>>(&'a self) -> Option<T> {
        T::from_untyped(self)
    }
}
pub fn parse_code(text: &str) -> SyntaxNode {
    let mut children = vec![];
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        let word = |c: char| c.is_alphanumeric() || c == '.' || c == '%' || c == '_';
        let len = match c {
            c if word(c) => rest.find(|c| !word(c)).unwrap_or(rest.len()),
            c => c.len_utf8(),
        };
        let token = &rest[..len];
        rest = &rest[len..];
        let numeric = c.is_ascii_digit() || c == '.' && token.len() > 1;
        let error = match numeric && ast::split_number(token).is_none() {
            true => Some(format!("invalid number: {token}")),
            false if !word(c) && !c.is_whitespace() && !"+-*/()[]{},;:\"".contains(c) => Some(format!("unexpected {token}")),
            false => None,
        };
        children.push(SyntaxNode { text: token.into(), error, children: vec![] });
    }
    SyntaxNode { text: String::new(), error: None, children }
}
