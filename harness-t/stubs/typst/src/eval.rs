//! The language. A line is text, or one of
//!
//!     #include "p"    the evaluation of another source file
//!     #read "p"       the text of another file
//!     #input k        the input of this name
//!     #error m        #warn m
//!     #title t        #pagebreak      #html (is the feature on)      #today
//!     #meta label json
//!     #font n
//!
//! Every file is evaluated once per version of what it has read: `eval` is memoised as typst's is.

use comemo::Tracked;
use ecow::{eco_format, eco_vec, EcoString, EcoVec};

use crate::diag::{SourceDiagnostic, SourceResult};
use crate::foundations::{Content, Value};
use crate::model::DocumentInfo;
use crate::syntax::{Source, Span};
use crate::{Feature, World};

#[derive(Debug, Clone, PartialEq, Hash)]
pub struct Output {
    pub pages: EcoVec<EcoString>,
    pub info: DocumentInfo,
    pub elems: EcoVec<Content>,
}

impl Output {
    fn push(&mut self, s: &str) {
        let last = self.pages.make_mut().last_mut().unwrap();
        last.push_str(s);
        last.push('\n');
    }
}

#[comemo::memoize]
pub fn eval(world: Tracked<dyn World + '_>, source: Source, html: bool, depth: usize) -> (SourceResult<Output>, EcoVec<SourceDiagnostic>) {
    let mut out = Output { pages: eco_vec![EcoString::new()], info: DocumentInfo::default(), elems: eco_vec![] };
    let (mut errors, mut warnings) = (eco_vec![], eco_vec![]);
    let mut at = 0;
    for line in source.text().split('\n') {
        let span = Span::from_range(source.id(), at..at + line.len());
        at += line.len() + 1;
        let Some(rest) = line.strip_prefix('#') else {
            out.push(line);
            continue;
        };
        let (cmd, arg) = rest.split_once(' ').unwrap_or((rest, ""));
        let path = arg.trim().trim_matches('"');
        match cmd {
            "include" if depth > 8 => errors.push(SourceDiagnostic::error(span, "cyclic import")),
            "include" => match world.source(source.id().join(path)) {
                Err(e) => errors.push(SourceDiagnostic::error(span, EcoString::from(e))),
                Ok(s) => {
                    let (o, w) = eval(world, s, html, depth + 1);
                    warnings.extend(w);
                    match o {
                        Err(e) => errors.extend(e),
                        Ok(o) => {
                            for (i, p) in o.pages.iter().enumerate() {
                                if i > 0 {
                                    out.pages.push(EcoString::new());
                                }
                                out.push(p.strip_suffix('\n').unwrap_or(p));
                            }
                            out.elems.extend(o.elems);
                            out.info.title = o.info.title.or(out.info.title);
                        }
                    }
                }
            },
            "read" => match world.file(source.id().join(path)) {
                Err(e) => errors.push(SourceDiagnostic::error(span, EcoString::from(e))),
                Ok(b) => out.push(&String::from_utf8_lossy(&b)),
            },
            "input" => match world.library().inputs.get(path) {
                Some(v) => out.push(&eco_format!("{path}={}", v.display())),
                None => out.push(&eco_format!("{path}?")),
            },
            "error" => errors.push(SourceDiagnostic::error(span, arg)),
            "warn" => warnings.push(SourceDiagnostic::warning(span, arg)),
            "title" => out.info.title = Some(arg.into()),
            "pagebreak" => out.pages.push(EcoString::new()),
            "html" => out.push(&eco_format!("html: {} {html}", world.library().features.is_enabled(Feature::Html))),
            "today" => out.push(&eco_format!("{:?}", world.today(None))),
            "font" => out.push(&eco_format!("{:?}", world.font(path.parse().unwrap_or(0)))),
            "meta" => {
                let (label, json) = arg.split_once(' ').unwrap_or((arg, "null"));
                match serde_json::from_str::<Value>(json) {
                    Ok(value) => out.elems.push(Content { name: "metadata".into(), label: label.into(), value }),
                    Err(e) => errors.push(SourceDiagnostic::error(span, eco_format!("{e}"))),
                }
            }
            _ => errors.push(SourceDiagnostic::error(span, eco_format!("unknown function: {cmd}"))),
        }
    }
    (if errors.is_empty() { Ok(out) } else { Err(errors) }, warnings)
}
