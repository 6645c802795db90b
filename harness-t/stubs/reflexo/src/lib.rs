use std::sync::Arc;
/// Takes a value out of a shared place, with a copy only where it is shared.
pub trait TakeAs<T> {
    fn take(self) -> T;
}
impl<T: Clone> TakeAs<T> for Arc<T> {
    fn take(self) -> T {
        Arc::try_unwrap(self).unwrap_or_else(|a| (*a).clone())
    }
}
pub use tinymist_std::path;
pub use tinymist_std::ImmutPath;
