use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::ops::Deref;
use std::sync::Arc;

use crate::diag::EcoString;

/// Immutable shared bytes.
#[derive(Clone)]
pub struct Bytes(Arc<dyn AsRef<[u8]> + Send + Sync>);

impl Bytes {
    pub fn new<T: AsRef<[u8]> + Send + Sync + 'static>(data: T) -> Self {
        Self(Arc::new(data))
    }
    pub fn from_string<T: AsRef<str> + Send + Sync + 'static>(data: T) -> Self {
        struct S<T>(T);
        impl<T: AsRef<str>> AsRef<[u8]> for S<T> {
            fn as_ref(&self) -> &[u8] {
                self.0.as_ref().as_bytes()
            }
        }
        Self(Arc::new(S(data)))
    }
    pub fn as_slice(&self) -> &[u8] {
        (*self.0).as_ref()
    }
    pub fn as_str(&self) -> Result<&str, std::str::Utf8Error> {
        std::str::from_utf8(self)
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
    pub fn is_empty(&self) -> bool {
        self.as_slice().is_empty()
    }
    pub fn len(&self) -> usize {
        self.as_slice().len()
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.as_slice()
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
impl PartialEq for Bytes {
    fn eq(&self, o: &Self) -> bool {
        self.as_slice() == o.as_slice()
    }
}
impl Eq for Bytes {}
impl Hash for Bytes {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.as_slice().hash(h)
    }
}
impl Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Bytes({})", self.len())
    }
}

pub type Str = EcoString;

#[derive(Debug, Default, Clone, PartialEq)]
pub struct Dict(pub std::collections::BTreeMap<Str, Value>);
impl Dict {
    pub fn get(&self, k: &str) -> Option<&Value> {
        self.0.get(k)
    }
}
impl Hash for Dict {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl FromIterator<(Str, Value)> for Dict {
    fn from_iter<T: IntoIterator<Item = (Str, Value)>>(iter: T) -> Self {
        Self(iter.into_iter().collect())
    }
}
impl serde::Serialize for Dict {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Dict {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        serde::Deserialize::deserialize(d).map(Self)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Selector {
    Elem(EcoString),
    Label(EcoString),
}
pub struct LocatableSelector(pub Selector);

#[derive(Debug, Default, Clone)]
pub struct Scope;

/// A value: one of JSON, an element or a selector.
#[derive(Debug, Clone, PartialEq)]
pub enum Value {
    None,
    Bool(bool),
    Int(i64),
    Str(Str),
    Array(Vec<Value>),
    Dict(Dict),
    Content(Box<Content>),
    Selector(Selector),
}
impl Hash for Value {
    fn hash<H: Hasher>(&self, h: &mut H) {
        std::mem::discriminant(self).hash(h);
        match self {
            Value::None => {}
            Value::Bool(b) => b.hash(h),
            Value::Int(i) => i.hash(h),
            Value::Str(s) => s.hash(h),
            Value::Array(a) => a.hash(h),
            Value::Dict(d) => d.hash(h),
            Value::Content(c) => c.hash(h),
            Value::Selector(s) => s.hash(h),
        }
    }
}
impl Value {
    pub fn display(&self) -> EcoString {
        match self {
            Value::Str(s) => s.clone(),
            v => ecow::eco_format!("{v:?}"),
        }
    }
    pub fn cast<T: FromValue>(self) -> Result<T, crate::diag::HintedString> {
        T::from_value(self).map_err(crate::diag::HintedString)
    }
}
pub trait FromValue: Sized {
    fn from_value(v: Value) -> Result<Self, EcoString>;
}
impl FromValue for LocatableSelector {
    fn from_value(v: Value) -> Result<Self, EcoString> {
        match v {
            Value::Selector(s) => Ok(Self(s)),
            v => Err(ecow::eco_format!("expected a selector, found {v:?}")),
        }
    }
}
impl serde::Serialize for Value {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Value::None => s.serialize_none(),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Int(i) => s.serialize_i64(*i),
            Value::Str(v) => s.serialize_str(v),
            Value::Array(a) => a.serialize(s),
            Value::Dict(d) => d.serialize(s),
            Value::Content(c) => c.serialize(s),
            Value::Selector(_) => s.serialize_str("selector"),
        }
    }
}
impl<'de> serde::Deserialize<'de> for Value {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        fn go(v: serde_json::Value) -> Value {
            match v {
                serde_json::Value::Null => Value::None,
                serde_json::Value::Bool(b) => Value::Bool(b),
                serde_json::Value::Number(n) => Value::Int(n.as_i64().unwrap_or(0)),
                serde_json::Value::String(s) => Value::Str(s.into()),
                serde_json::Value::Array(a) => Value::Array(a.into_iter().map(go).collect()),
                serde_json::Value::Object(o) => Value::Dict(Dict(o.into_iter().map(|(k, v)| (k.into(), go(v))).collect())),
            }
        }
        serde_json::Value::deserialize(d).map(go)
    }
}
pub trait IntoValue {
    fn into_value(self) -> Value;
}
impl IntoValue for &str {
    fn into_value(self) -> Value {
        Value::Str(self.into())
    }
}
impl IntoValue for Content {
    fn into_value(self) -> Value {
        Value::Content(Box::new(self))
    }
}

/// An element: it has the fields `value` and `label`, and those of its value when that is a dictionary.
#[derive(Debug, Clone, PartialEq, Hash)]
pub struct Content {
    pub name: EcoString,
    pub label: EcoString,
    pub value: Value,
}
impl Content {
    pub fn get_by_name(&self, name: &str) -> Result<Value, EcoString> {
        match (name, &self.value) {
            ("value", v) => Ok(v.clone()),
            ("label", _) => Ok(Value::Str(self.label.clone())),
            (n, Value::Dict(d)) if d.get(n).is_some() => Ok(d.get(n).unwrap().clone()),
            _ => Err(ecow::eco_format!("no field {name}")),
        }
    }
}
impl Content {
    fn field(&self, name: &str) -> Option<Value> {
        self.get_by_name(name).ok()
    }
    fn number(&self, name: &str) -> Option<i64> {
        match self.field(name) {
            Some(Value::Int(i)) => Some(i),
            _ => None,
        }
    }
    fn flag(&self, name: &str) -> Option<bool> {
        match self.field(name) {
            Some(Value::Bool(b)) => Some(b),
            _ => None,
        }
    }
    pub fn plain_text(&self) -> EcoString {
        match self.field("text") {
            Some(Value::Str(s)) => s,
            _ => EcoString::new(),
        }
    }
    pub fn span(&self) -> crate::syntax::Span {
        use crate::syntax::{FileId, Span, VirtualPath};
        match self.number("span") {
            Some(at) if at >= 0 => Span::from_range(FileId::new(None, VirtualPath::new("main.typ")), at as usize..at as usize + 1),
            _ => Span::detached(),
        }
    }
    pub fn location(&self) -> Option<crate::introspection::Location> {
        self.number("position").map(|p| crate::introspection::Location(p as u64))
    }
    pub fn to_packed<T: NativeElement>(&self) -> Option<&Packed<T>> {
        (T::elem().0 == self.name.as_str()).then(|| Packed::of(self))
    }
}

#[derive(Debug, Copy, Clone)]
pub struct Element(&'static str);
impl Element {
    pub fn select(self) -> Selector {
        Selector::Elem(self.0.into())
    }
}
pub trait NativeElement: Sized {
    const NAME: &'static str;
    fn elem() -> Element {
        Element(Self::NAME)
    }
}
#[derive(Debug, Copy, Clone, Default)]
pub struct StyleChain;

/// An element of a known kind; the fields are read where they are asked for.
#[repr(transparent)]
pub struct Packed<T>(Content, std::marker::PhantomData<T>);
impl<T> Packed<T> {
    fn of(c: &Content) -> &Self {
        // Same representation.
        unsafe { &*(c as *const Content as *const Self) }
    }
    pub fn location(&self) -> Option<crate::introspection::Location> {
        self.0.location()
    }
    pub fn span(&self) -> crate::syntax::Span {
        self.0.span()
    }
}
impl Deref for Packed<crate::model::HeadingElem> {
    type Target = crate::model::HeadingElem;
    fn deref(&self) -> &Self::Target {
        // The body is the element itself, whose text and span it has.
        unsafe { &*(&self.0 as *const Content as *const Self::Target) }
    }
}
impl NativeElement for crate::model::HeadingElem {
    const NAME: &'static str = "heading";
}
impl crate::model::HeadingElem {
    pub fn resolve_level(&self, _: StyleChain) -> std::num::NonZeroUsize {
        std::num::NonZeroUsize::new(self.body.number("level").unwrap_or(1) as usize).unwrap()
    }
    pub fn bookmarked(&self, _: StyleChain) -> Option<bool> {
        self.body.flag("bookmarked")
    }
    pub fn outlined(&self, _: StyleChain) -> bool {
        self.body.flag("outlined").unwrap_or(true)
    }
}

impl serde::Serialize for Content {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeMap;
        let mut m = s.serialize_map(None)?;
        m.serialize_entry("func", &self.name)?;
        m.serialize_entry("value", &self.value)?;
        m.serialize_entry("label", &self.label)?;
        m.end()
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Datetime {
    Date(time::Date),
    Time(time::Time),
    Datetime(time::PrimitiveDateTime),
}

impl Datetime {
    pub fn from_ymd(year: i32, month: u8, day: u8) -> Option<Self> {
        Some(Datetime::Date(time::Date::from_calendar_date(year, time::Month::try_from(month).ok()?, day).ok()?))
    }

    pub fn from_ymd_hms(year: i32, month: u8, day: u8, hour: u8, minute: u8, second: u8) -> Option<Self> {
        let date = time::Date::from_calendar_date(year, time::Month::try_from(month).ok()?, day).ok()?;
        let time = time::Time::from_hms(hour, minute, second).ok()?;
        Some(Datetime::Datetime(time::PrimitiveDateTime::new(date, time)))
    }
}
