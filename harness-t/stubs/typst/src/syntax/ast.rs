use super::SyntaxNode;

pub trait AstNode<'a>: Sized {
    fn from_untyped(node: &'a SyntaxNode) -> Option<Self>;
}

#[derive(Debug, Copy, Clone, PartialEq, Eq)]
pub enum Unit {
    Pt,
    Mm,
    Cm,
    In,
    Rad,
    Deg,
    Em,
    Fr,
    Percent,
}

#[derive(Debug, Copy, Clone)]
pub struct Numeric<'a>(&'a SyntaxNode);
impl<'a> AstNode<'a> for Numeric<'a> {
    fn from_untyped(node: &'a SyntaxNode) -> Option<Self> {
        matches!(split_number(&node.text), Some((_, Some(_)))).then_some(Self(node))
    }
}
impl Numeric<'_> {
    pub fn get(self) -> (f64, Unit) {
        let (v, u) = split_number(&self.0.text).unwrap();
        (v, u.unwrap())
    }
}

/// A number and its unit, if the token is one.
pub(crate) fn split_number(token: &str) -> Option<(f64, Option<Unit>)> {
    let end = token.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(token.len());
    if end == 0 {
        return None;
    }
    let v = token[..end].parse().ok()?;
    Some((v, Some(match &token[end..] {
        "" => return Some((v, None)),
        "pt" => Unit::Pt,
        "mm" => Unit::Mm,
        "cm" => Unit::Cm,
        "in" => Unit::In,
        "rad" => Unit::Rad,
        "deg" => Unit::Deg,
        "em" => Unit::Em,
        "fr" => Unit::Fr,
        "%" => Unit::Percent,
        _ => return None,
    })))
}
