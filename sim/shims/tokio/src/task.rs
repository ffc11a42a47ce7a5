use simcore::exec;
pub use simcore::exec::{AbortHandle, JoinError, JoinHandle};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use tokio_real::task::{coop, unconstrained, Unconstrained};

#[track_caller]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    exec::current()
        .expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
        .spawn(f)
}

#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    exec::spawn_blocking(f)
}

pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}

/// A set of spawned tasks (subset of the tokio API).
pub struct JoinSet<T> {
    tasks: Vec<JoinHandle<T>>,
}

impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}

impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self { tasks: Vec::new() }
    }
    pub fn len(&self) -> usize {
        self.tasks.len()
    }
    pub fn is_empty(&self) -> bool {
        self.tasks.is_empty()
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.tasks.push(h);
        a
    }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
    where
        F: FnOnce() -> T + Send + 'static,
    {
        let h = spawn_blocking(f);
        let a = h.abort_handle();
        self.tasks.push(h);
        a
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.tasks.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.tasks.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.tasks[i]).poll(cx) {
                self.tasks.swap_remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn abort_all(&mut self) {
        for t in &self.tasks {
            t.abort();
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}

impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for t in &self.tasks {
            t.abort();
        }
    }
}
