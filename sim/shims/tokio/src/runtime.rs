use crate::task::JoinHandle;
use simcore::exec::{self, Exec};
use std::future::Future;
use std::io;
use std::sync::Arc;
use std::time::Duration;

pub struct Builder {
    multi: bool,
    workers: Option<usize>,
}

impl Builder {
    pub fn new_current_thread() -> Builder {
        Builder { multi: false, workers: None }
    }
    pub fn new_multi_thread() -> Builder {
        Builder { multi: true, workers: None }
    }
    pub fn worker_threads(&mut self, n: usize) -> &mut Self {
        assert!(n > 0, "Worker threads cannot be set to 0");
        self.workers = Some(n);
        self
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, n: usize) -> &mut Self {
        assert!(n > 0, "Max blocking threads cannot be set to 0");
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_keep_alive(&mut self, _: Duration) -> &mut Self {
        self
    }
    pub fn global_queue_interval(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn event_interval(&mut self, _: u32) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        if self.multi && self.workers.unwrap_or(0) > 64 {
            // more OS threads than a simulated run needs: extra workers would only idle
            simcore::world().stat("workers_capped");
        }
        let w = self.multi.then(|| self.workers.unwrap_or(4).min(64));
        Ok(Runtime { handle: Handle { exec: Exec::new(w) }, wait: true })
    }
}

pub struct Runtime {
    handle: Handle,
    wait: bool,
}

impl std::fmt::Debug for Runtime {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Runtime")
    }
}

#[derive(Clone)]
pub struct Handle {
    exec: Arc<Exec>,
}

impl std::fmt::Debug for Handle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Handle")
    }
}

pub struct EnterGuard<'a>(#[allow(dead_code)] exec::EnterGuard, std::marker::PhantomData<&'a ()>);

#[derive(Debug)]
pub struct TryCurrentError(());
impl std::fmt::Display for TryCurrentError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
    }
}
impl std::error::Error for TryCurrentError {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum RuntimeFlavor {
    CurrentThread,
    MultiThread,
}

impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        Builder::new_multi_thread().enable_all().build()
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        self.handle.block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        self.handle.spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        self.handle.spawn_blocking(f)
    }
    pub fn handle(&self) -> &Handle {
        &self.handle
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        self.handle.enter()
    }
    pub fn shutdown_background(mut self) {
        self.wait = false;
    }
    pub fn shutdown_timeout(mut self, d: Duration) {
        // waits at most d for blocking work
        self.wait = false;
        self.handle.exec.shutdown(false);
        let w = simcore::world();
        w.sleep(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX));
    }
}

impl Drop for Runtime {
    fn drop(&mut self) {
        let _e = self.handle.exec.enter();
        self.handle.exec.shutdown(self.wait);
    }
}

impl Handle {
    pub fn current() -> Handle {
        Self::try_current().expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
    }
    pub fn try_current() -> Result<Handle, TryCurrentError> {
        exec::current().map(|exec| Handle { exec }).ok_or(TryCurrentError(()))
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        if exec::current().is_some() {
            panic!(
                "Cannot start a runtime from within a runtime. This happens because a function (like `block_on`) \
                 attempted to block the current thread while the thread is being used to drive asynchronous tasks."
            );
        }
        self.exec.block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        self.exec.spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        self.exec.spawn_blocking(f, false).unwrap()
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard(self.exec.enter(), std::marker::PhantomData)
    }
    pub fn runtime_flavor(&self) -> RuntimeFlavor {
        if self.exec.is_multi() {
            RuntimeFlavor::MultiThread
        } else {
            RuntimeFlavor::CurrentThread
        }
    }
}
