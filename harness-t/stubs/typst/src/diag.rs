use std::fmt::{self, Display};
use std::io;
use std::path::{Path, PathBuf};
use std::str::Utf8Error;

pub use ecow::{eco_format, EcoString, EcoVec};

use crate::syntax::package::{PackageSpec, PackageVersion};
use crate::syntax::{Span, Spanned};

pub type StrResult<T> = Result<T, EcoString>;
pub type FileResult<T> = Result<T, FileError>;
pub type PackageResult<T> = Result<T, PackageError>;
pub type SourceResult<T> = Result<T, EcoVec<SourceDiagnostic>>;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Severity {
    Error,
    Warning,
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct SourceDiagnostic {
    pub severity: Severity,
    pub span: Span,
    pub message: EcoString,
    pub trace: EcoVec<Spanned<Tracepoint>>,
    pub hints: EcoVec<EcoString>,
}
impl SourceDiagnostic {
    fn new(severity: Severity, span: Span, message: EcoString) -> Self {
        Self { severity, span, message, trace: EcoVec::new(), hints: EcoVec::new() }
    }
    pub fn error(span: Span, message: impl Into<EcoString>) -> Self {
        Self::new(Severity::Error, span, message.into())
    }
    pub fn warning(span: Span, message: impl Into<EcoString>) -> Self {
        Self::new(Severity::Warning, span, message.into())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Tracepoint(pub EcoString);
impl Display for Tracepoint {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Warned<T> {
    pub output: T,
    pub warnings: EcoVec<SourceDiagnostic>,
}

/// What a cast of a value may say.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct HintedString(pub EcoString);
impl HintedString {
    pub fn message(&self) -> &EcoString {
        &self.0
    }
}

pub trait At<T> {
    fn at(self, span: Span) -> SourceResult<T>;
}
impl<T, S: Into<EcoString>> At<T> for Result<T, S> {
    fn at(self, span: Span) -> SourceResult<T> {
        self.map_err(|e| ecow::eco_vec![SourceDiagnostic::error(span, e)])
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum FileError {
    NotFound(PathBuf),
    AccessDenied,
    IsDirectory,
    NotSource,
    InvalidUtf8,
    Package(PackageError),
    Other(Option<EcoString>),
}

impl FileError {
    pub fn from_io(err: io::Error, path: &Path) -> Self {
        match err.kind() {
            io::ErrorKind::NotFound => Self::NotFound(path.into()),
            io::ErrorKind::PermissionDenied => Self::AccessDenied,
            io::ErrorKind::InvalidData if err.to_string().contains("stream did not contain valid UTF-8") => Self::InvalidUtf8,
            _ => Self::Other(Some(eco_format!("{err}"))),
        }
    }
}
impl std::error::Error for FileError {}
impl Display for FileError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl From<Utf8Error> for FileError {
    fn from(_: Utf8Error) -> Self {
        Self::InvalidUtf8
    }
}
impl From<PackageError> for FileError {
    fn from(err: PackageError) -> Self {
        Self::Package(err)
    }
}
impl From<FileError> for EcoString {
    fn from(err: FileError) -> Self {
        eco_format!("{err}")
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum PackageError {
    NotFound(PackageSpec),
    VersionNotFound(PackageSpec, PackageVersion),
    NetworkFailed(Option<EcoString>),
    MalformedArchive(Option<EcoString>),
    Other(Option<EcoString>),
}
impl std::error::Error for PackageError {}
impl Display for PackageError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl From<PackageError> for EcoString {
    fn from(err: PackageError) -> Self {
        eco_format!("{err}")
    }
}
