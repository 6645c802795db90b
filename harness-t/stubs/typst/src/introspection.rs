use ecow::EcoVec;

use crate::foundations::{Content, Selector};

#[derive(Debug, Default, Clone)]
pub struct Introspector(pub EcoVec<Content>);
impl Introspector {
    pub fn query(&self, selector: &Selector) -> EcoVec<Content> {
        let hit = |c: &&Content| match selector {
            Selector::Elem(name) => c.name == *name,
            Selector::Label(l) => c.label == *l,
        };
        self.0.iter().filter(hit).cloned().collect()
    }
    /// Where the field `position` says that the element is.
    pub fn position(&self, loc: Location) -> crate::layout::Position {
        use crate::layout::{Abs, Point, Position};
        let at = loc.0;
        let page = std::num::NonZeroUsize::new((at >> 32) as usize).unwrap_or(std::num::NonZeroUsize::MIN);
        Position { page, point: Point { x: Abs::pt((at >> 16 & 0xffff) as f64), y: Abs::pt((at & 0xffff) as f64) } }
    }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
pub struct Location(pub u64);
