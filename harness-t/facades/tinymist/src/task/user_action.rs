//! User actions need typst; the scheduler that exports share is shown as it is.
use super::{FoldFuture, FutureFolder};
use std::future::Future;

#[derive(Clone, Default)]
pub struct Folder(FutureFolder);

impl Folder {
    pub fn spawn(&self, revision: usize, fut: impl FnOnce() -> FoldFuture) -> Option<impl Future<Output = ()> + Send + 'static> {
        self.0.spawn(revision, fut)
    }
    pub async fn compute<R: Send + 'static>(op: impl FnOnce() -> R + Send + 'static) -> Result<R, String> {
        FutureFolder::compute(move |_| op()).await.map_err(|e| e.to_string())
    }
}
