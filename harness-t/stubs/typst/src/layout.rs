use std::num::NonZeroUsize;

use crate::diag::EcoString;

#[derive(Debug, Default, Clone, Copy, PartialEq)]
pub struct Abs(pub f64);
impl Abs {
    pub const fn raw(v: f64) -> Self {
        Self(v)
    }
    pub const fn pt(v: f64) -> Self {
        Self(v)
    }
    pub fn mm(v: f64) -> Self {
        Self(v * 2.83465)
    }
    pub fn cm(v: f64) -> Self {
        Self(v * 28.3465)
    }
    pub fn inches(v: f64) -> Self {
        Self(v * 72.0)
    }
    pub fn to_pt(self) -> f64 {
        self.0
    }
}
#[derive(Debug, Default, Clone, Copy, PartialEq)]
pub struct Point {
    pub x: Abs,
    pub y: Abs,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Position {
    pub page: NonZeroUsize,
    pub point: Point,
}
#[derive(Debug, Default, Clone)]
pub struct Frame {
    items: Vec<(Point, FrameItem)>,
    content_hint: char,
}
impl Frame {
    pub fn of(items: Vec<FrameItem>, content_hint: char) -> Self {
        Self { items: items.into_iter().map(|i| (Point::default(), i)).collect(), content_hint }
    }
    pub fn items(&self) -> std::slice::Iter<'_, (Point, FrameItem)> {
        self.items.iter()
    }
    pub fn content_hint(&self) -> char {
        self.content_hint
    }
}
#[derive(Debug, Clone)]
pub struct GroupItem {
    pub frame: Frame,
}
#[derive(Debug, Clone)]
pub struct TextItem {
    pub text: EcoString,
}
#[derive(Debug, Clone)]
pub enum FrameItem {
    Group(GroupItem),
    Text(TextItem),
    Shape((), ()),
    Image((), (), ()),
    Link((), ()),
    Tag(()),
}
#[derive(Debug, Default, Clone)]
pub struct Page {
    pub frame: Frame,
    pub number: usize,
}
impl Page {
    pub fn of_text(text: &str, number: usize) -> Self {
        Self { frame: Frame::of(vec![FrameItem::Text(TextItem { text: text.into() })], '\0'), number }
    }
    pub fn text(&self) -> String {
        fn go(f: &Frame, out: &mut String) {
            for (_, i) in f.items() {
                match i {
                    FrameItem::Group(g) => go(&g.frame, out),
                    FrameItem::Text(t) => out.push_str(&t.text),
                    _ => {}
                }
            }
        }
        let mut s = String::new();
        go(&self.frame, &mut s);
        s
    }
}
#[derive(Debug, Default, Clone)]
pub struct PagedDocument {
    pub pages: Vec<Page>,
    pub info: crate::model::DocumentInfo,
    pub introspector: crate::introspection::Introspector,
}
