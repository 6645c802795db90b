//! Stands in for `typst-eval`: a selector is `<label>` or the name of an element.
use comemo::Tracked;
use typst::diag::{SourceDiagnostic, SourceResult};
use typst::foundations::{Scope, Selector, Value};
use typst::routines::{EvalMode, Routines};
use typst::syntax::Span;
use typst::World;

pub fn eval_string(_r: &Routines, _w: Tracked<dyn World + '_>, string: &str, span: Span, _mode: EvalMode, _scope: Scope) -> SourceResult<Value> {
    let err = |m: &str| Err(typst::ecow::eco_vec![SourceDiagnostic::error(span, m)]);
    match string.strip_prefix('<') {
        Some(l) => match l.strip_suffix('>') {
            Some(l) => Ok(Value::Selector(Selector::Label(l.into()))),
            None => err("unclosed label"),
        },
        None if string.is_empty() => err("expected expression"),
        None if string.starts_with('"') => Ok(Value::Str(string.trim_matches('"').into())),
        None => Ok(Value::Selector(Selector::Elem(string.into()))),
    }
}
