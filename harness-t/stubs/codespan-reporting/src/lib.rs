//! Stands in for `codespan-reporting`: diagnostics are not rendered.
pub mod files {
    use std::fmt;
    use std::ops::Range;

    #[derive(Debug)]
    #[non_exhaustive]
    pub enum Error {
        FileMissing,
        IndexTooLarge { given: usize, max: usize },
        LineTooLarge { given: usize, max: usize },
        ColumnTooLarge { given: usize, max: usize },
        InvalidCharBoundary { given: usize },
        Io(std::io::Error),
    }
    impl fmt::Display for Error {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}

    pub trait Files<'a> {
        type FileId: 'a + Copy + PartialEq;
        type Name: 'a + fmt::Display;
        type Source: 'a + AsRef<str>;
        fn name(&'a self, id: Self::FileId) -> Result<Self::Name, Error>;
        fn source(&'a self, id: Self::FileId) -> Result<Self::Source, Error>;
        fn line_index(&'a self, id: Self::FileId, byte_index: usize) -> Result<usize, Error>;
        fn line_number(&'a self, _id: Self::FileId, line_index: usize) -> Result<usize, Error> {
            Ok(line_index + 1)
        }
        fn column_number(&'a self, id: Self::FileId, line_index: usize, byte_index: usize) -> Result<usize, Error>;
        fn line_range(&'a self, id: Self::FileId, line_index: usize) -> Result<Range<usize>, Error>;
    }
}
pub mod diagnostic {
    use std::ops::Range;

    #[derive(Debug, Clone)]
    pub struct Label<Id> {
        pub file_id: Id,
        pub range: Range<usize>,
    }
    impl<Id> Label<Id> {
        pub fn primary(file_id: Id, range: impl Into<Range<usize>>) -> Self {
            Self { file_id, range: range.into() }
        }
    }
    #[derive(Debug, Clone)]
    pub struct Diagnostic<Id> {
        pub severity: &'static str,
        pub message: String,
        pub labels: Vec<Label<Id>>,
        pub notes: Vec<String>,
    }
    impl<Id> Diagnostic<Id> {
        fn new(severity: &'static str) -> Self {
            Self { severity, message: String::new(), labels: vec![], notes: vec![] }
        }
        pub fn error() -> Self {
            Self::new("error")
        }
        pub fn warning() -> Self {
            Self::new("warning")
        }
        pub fn help() -> Self {
            Self::new("help")
        }
        pub fn with_message(mut self, m: impl ToString) -> Self {
            self.message = m.to_string();
            self
        }
        pub fn with_labels(mut self, l: Vec<Label<Id>>) -> Self {
            self.labels = l;
            self
        }
        pub fn with_notes(mut self, n: Vec<String>) -> Self {
            self.notes = n;
            self
        }
    }
}
pub mod term {
    pub mod termcolor {
        #[derive(Debug, Clone, Copy)]
        pub enum ColorChoice {
            Auto,
            Never,
        }
        pub struct StandardStream;
        impl StandardStream {
            pub fn stderr(_: ColorChoice) -> Self {
                Self
            }
        }
    }
    #[derive(Debug, Clone, Default)]
    pub enum DisplayStyle {
        #[default]
        Rich,
        Short,
    }
    #[derive(Debug, Clone, Default)]
    pub struct Config {
        pub tab_width: usize,
        pub display_style: DisplayStyle,
    }
    pub fn emit<'f, F: crate::files::Files<'f>>(
        _w: &mut termcolor::StandardStream,
        _c: &Config,
        _files: &'f F,
        d: &crate::diagnostic::Diagnostic<F::FileId>,
    ) -> Result<(), crate::files::Error> {
        eprintln!("{}: {}", d.severity, d.message);
        Ok(())
    }
}
