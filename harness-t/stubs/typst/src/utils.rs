use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::ops::Deref;

#[derive(Clone)]
pub struct LazyHash<T: ?Sized> {
    value: T,
}
impl<T> LazyHash<T> {
    pub fn new(value: T) -> Self {
        Self { value }
    }
    pub fn into_inner(self) -> T {
        self.value
    }
}
impl<T: Default> Default for LazyHash<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized> Deref for LazyHash<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.value
    }
}
impl<T: Hash + ?Sized> Hash for LazyHash<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.value.hash(h)
    }
}
impl<T: PartialEq + ?Sized> PartialEq for LazyHash<T> {
    fn eq(&self, o: &Self) -> bool {
        self.value == o.value
    }
}
impl<T: Eq + ?Sized> Eq for LazyHash<T> {}
impl<T: Debug + ?Sized> Debug for LazyHash<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.value.fmt(f)
    }
}
pub fn hash128<T: Hash + ?Sized>(value: &T) -> u128 {
    use siphasher::sip128::{Hasher128, SipHasher13};
    let mut s = SipHasher13::new();
    value.hash(&mut s);
    s.finish128().as_u128()
}
pub trait OptionExt<T> {
    fn map_or_default<U: Default>(self, f: impl FnOnce(T) -> U) -> U;
}
impl<T> OptionExt<T> for Option<T> {
    fn map_or_default<U: Default>(self, f: impl FnOnce(T) -> U) -> U {
        self.map_or_else(U::default, f)
    }
}
