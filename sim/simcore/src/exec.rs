//! Deterministic task executor: single threaded, or with simulated worker threads that may block.

use crate::world::{current_tid, has_current, SimAbort, World};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll, Wake, Waker};

type BoxFut = Pin<Box<dyn Future<Output = ()> + Send>>;

struct Task {
    fut: Option<BoxFut>,
    queued: bool,
    running: bool,
    cancel: bool,
}

struct ExecSt {
    tasks: BTreeMap<u64, Task>,
    ready: Vec<u64>,
    next_id: u64,
    shutdown: bool,
    workers_alive: usize,
    jobs_alive: usize,
    shutdown_waiter: Option<usize>,
    parked: Vec<usize>,
}

pub struct Exec {
    st: Mutex<ExecSt>,
    pub world: Arc<World>,
    multi: bool,
}

thread_local! {
    static EXEC: RefCell<Vec<Arc<Exec>>> = const { RefCell::new(Vec::new()) };
}

pub struct EnterGuard(());
impl Drop for EnterGuard {
    fn drop(&mut self) {
        EXEC.with(|e| {
            e.borrow_mut().pop();
        });
    }
}

pub fn current() -> Option<Arc<Exec>> {
    EXEC.try_with(|e| e.borrow().last().cloned()).ok().flatten()
}

struct TaskWaker {
    exec: Weak<Exec>,
    id: u64,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        if let Some(e) = self.exec.upgrade() {
            e.make_ready(self.id);
        }
    }
}

struct ThreadWaker {
    world: Arc<World>,
    tid: usize,
    flag: AtomicBool,
}
impl Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        self.flag.store(true, Ordering::SeqCst);
        self.world.unpark(self.tid);
    }
}

impl Exec {
    pub fn new(multi_workers: Option<usize>) -> Arc<Exec> {
        let world = crate::world();
        let ex = Arc::new(Exec {
            st: Mutex::new(ExecSt {
                tasks: BTreeMap::new(),
                ready: Vec::new(),
                next_id: 1,
                shutdown: false,
                workers_alive: 0,
                jobs_alive: 0,
                shutdown_waiter: None,
                parked: Vec::new(),
            }),
            world: world.clone(),
            multi: multi_workers.is_some(),
        });
        for _ in 0..multi_workers.unwrap_or(0) {
            ex.lock().workers_alive += 1;
            let e2 = ex.clone();
            world.spawn_thread(move || {
                let _g = AliveGuard(e2.clone(), true);
                let _e = e2.enter();
                e2.worker_loop();
            });
        }
        ex
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, ExecSt> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn is_multi(&self) -> bool {
        self.multi
    }

    pub fn num_tasks(&self) -> usize {
        self.lock().tasks.len()
    }

    pub fn enter(self: &Arc<Self>) -> EnterGuard {
        EXEC.with(|e| e.borrow_mut().push(self.clone()));
        EnterGuard(())
    }

    fn make_ready(&self, id: u64) {
        let wake: Vec<usize>;
        {
            let mut st = self.lock();
            match st.tasks.get_mut(&id) {
                Some(t) if !t.queued => t.queued = true,
                _ => return,
            }
            let running = st.tasks[&id].running;
            if !running {
                st.ready.push(id);
            }
            wake = st.parked.clone();
        }
        for t in wake {
            self.world.unpark(t);
        }
    }

    pub fn spawn<F>(self: &Arc<Self>, fut: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let shared = JoinShared::new();
        let s2 = shared.clone();
        let wrapped = async move {
            let r = CatchUnwind(Box::pin(fut)).await;
            s2.complete(r.map_err(JoinError::panic));
        };
        let id;
        {
            let mut st = self.lock();
            id = st.next_id;
            st.next_id += 1;
            if st.shutdown {
                drop(st);
                shared.complete(Err(JoinError::cancelled()));
                return JoinHandle { shared, exec: Weak::new(), id };
            }
            st.tasks.insert(
                id,
                Task { fut: Some(Box::pin(wrapped)), queued: false, running: false, cancel: false },
            );
        }
        shared.set_on_drop_cancel();
        self.make_ready(id);
        JoinHandle { shared, exec: Arc::downgrade(self), id }
    }

    fn take_ready(&self, block_on_thread: bool) -> Option<(u64, BoxFut)> {
        let mut st = self.lock();
        if st.shutdown {
            return None;
        }
        let _ = block_on_thread;
        if st.ready.is_empty() {
            return None;
        }
        let k = if st.ready.len() > 1 {
            let n = st.ready.len();
            self.world.sched(|r| r.usize(n))
        } else {
            0
        };
        let id = st.ready.swap_remove(k);
        let t = st.tasks.get_mut(&id).unwrap();
        t.queued = false;
        t.running = true;
        let f = t.fut.take().unwrap();
        Some((id, f))
    }

    fn run_task(self: &Arc<Self>, id: u64, mut fut: BoxFut) {
        self.world.step();
        let waker = Waker::from(Arc::new(TaskWaker { exec: Arc::downgrade(self), id }));
        let mut cx = Context::from_waker(&waker);
        let cancelled = self.lock().tasks.get(&id).map(|t| t.cancel).unwrap_or(true);
        let done = if cancelled {
            true
        } else {
            match std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))) {
                Ok(p) => p.is_ready(),
                Err(p) => {
                    self.lock().tasks.remove(&id);
                    std::panic::resume_unwind(p)
                }
            }
        };
        if done {
            self.lock().tasks.remove(&id);
            drop(fut);
            return;
        }
        let mut requeue = false;
        {
            let mut st = self.lock();
            if st.shutdown || st.tasks.get(&id).map(|t| t.cancel).unwrap_or(true) {
                st.tasks.remove(&id);
                drop(st);
                drop(fut);
                return;
            }
            let t = st.tasks.get_mut(&id).unwrap();
            t.running = false;
            t.fut = Some(fut);
            if t.queued {
                st.ready.push(id);
                requeue = true;
            }
        }
        if requeue {
            let p = self.lock().parked.clone();
            for t in p {
                self.world.unpark(t);
            }
        }
    }

    fn worker_loop(self: &Arc<Self>) {
        let tid = current_tid().unwrap();
        self.lock().parked.push(tid);
        loop {
            if self.lock().shutdown {
                break;
            }
            match self.take_ready(false) {
                Some((id, f)) => {
                    self.run_task(id, f);
                    self.world.yield_now();
                }
                None => self.world.park(),
            }
        }
        self.lock().parked.retain(|t| *t != tid);
    }

    pub fn block_on<F: Future>(self: &Arc<Self>, fut: F) -> F::Output {
        let _e = self.enter();
        let tid = current_tid().expect("block_on outside of the simulation");
        let tw = Arc::new(ThreadWaker { world: self.world.clone(), tid, flag: AtomicBool::new(true) });
        let waker = Waker::from(tw.clone());
        let mut cx = Context::from_waker(&waker);
        let mut fut = std::pin::pin!(fut);
        if !self.multi {
            self.lock().parked.push(tid);
        }
        let out = loop {
            let main_ready = tw.flag.load(Ordering::SeqCst);
            let task_ready = !self.multi && !self.lock().ready.is_empty();
            let poll_main = match (main_ready, task_ready) {
                (true, true) => self.world.sched(|r| r.chance(0.5)),
                (m, _) => m,
            };
            if poll_main {
                tw.flag.store(false, Ordering::SeqCst);
                self.world.step();
                if let Poll::Ready(r) = fut.as_mut().poll(&mut cx) {
                    break r;
                }
                self.world.yield_now();
            } else if task_ready {
                if let Some((id, f)) = self.take_ready(true) {
                    self.run_task(id, f);
                    self.world.yield_now();
                }
            } else {
                self.world.park();
            }
        };
        if !self.multi {
            self.lock().parked.retain(|t| *t != tid);
        }
        out
    }

    fn cancel_task(self: &Arc<Self>, id: u64) {
        let fut = {
            let mut st = self.lock();
            match st.tasks.get_mut(&id) {
                Some(t) => {
                    t.cancel = true;
                    if t.running {
                        None
                    } else {
                        t.fut.take()
                    }
                }
                None => None,
            }
        };
        if fut.is_some() {
            let mut st = self.lock();
            st.tasks.remove(&id);
            st.ready.retain(|r| *r != id);
        }
        drop(fut);
    }

    /// Runtime drop: cancels tasks, waits for busy workers and started blocking jobs (as tokio does).
    pub fn shutdown(self: &Arc<Self>, wait: bool) {
        let (futs, parked) = {
            let mut st = self.lock();
            if st.shutdown {
                return;
            }
            st.shutdown = true;
            let mut futs = Vec::new();
            let mut keep = BTreeMap::new();
            for (id, mut t) in std::mem::take(&mut st.tasks) {
                if t.running {
                    t.cancel = true;
                    keep.insert(id, t);
                } else {
                    futs.push(t.fut.take());
                }
            }
            st.tasks = keep;
            st.ready.clear();
            (futs, st.parked.clone())
        };
        drop(futs);
        for t in parked {
            self.world.unpark(t);
        }
        if !wait {
            return;
        }
        loop {
            {
                let mut st = self.lock();
                if st.workers_alive == 0 && st.jobs_alive == 0 {
                    st.shutdown_waiter = None;
                    return;
                }
                st.shutdown_waiter = current_tid();
                if st.shutdown_waiter.is_none() {
                    return;
                }
            }
            if !self.world.park_quiet() {
                return;
            }
        }
    }

    pub fn spawn_blocking<F, R>(self: &Arc<Self>, f: F, mandatory: bool) -> Option<JoinHandle<R>>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        let shared = JoinShared::new();
        let id = {
            let mut st = self.lock();
            if st.shutdown {
                if mandatory {
                    return None;
                }
                drop(st);
                shared.complete(Err(JoinError::cancelled()));
                return Some(JoinHandle { shared, exec: Weak::new(), id: 0 });
            }
            st.jobs_alive += 1;
            st.next_id += 1;
            st.next_id
        };
        let s2 = shared.clone();
        let e2 = self.clone();
        let w = self.world.clone();
        w.stat("blocking_jobs");
        let latency = w.sched(|r| match r.below(10) {
            0..=5 => 0,
            6..=7 => r.range(1, 200) * 1_000,
            8 => r.range(1, 20) * 100_000,
            _ => r.range(3, 20) * 1_000_000,
        });
        if latency > 0 {
            w.stat("blocking_job_delayed");
        }
        w.spawn_thread(move || {
            let _g = AliveGuard(e2.clone(), false);
            let _e = e2.enter();
            if latency > 0 {
                // queued: the pool thread picks the job up later
                e2.world.sleep(latency);
            }
            if e2.lock().shutdown && !mandatory {
                s2.complete(Err(JoinError::cancelled()));
                return;
            }
            let r = std::panic::catch_unwind(AssertUnwindSafe(f));
            match r {
                Ok(v) => s2.complete(Ok(v)),
                Err(p) if p.is::<SimAbort>() => std::panic::resume_unwind(p),
                Err(p) => s2.complete(Err(JoinError::panic(p))),
            }
        });
        Some(JoinHandle { shared, exec: Weak::new(), id })
    }
}

struct AliveGuard(Arc<Exec>, bool);
impl Drop for AliveGuard {
    fn drop(&mut self) {
        let w = {
            let mut st = self.0.lock();
            if self.1 {
                st.workers_alive -= 1;
            } else {
                st.jobs_alive -= 1;
            }
            st.shutdown_waiter
        };
        if let Some(t) = w {
            self.0.world.unpark(t);
        }
    }
}

/// Blocking job on the current executor (used by the vendored tokio's fs code).
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    current()
        .expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
        .spawn_blocking(f, false)
        .unwrap()
}

pub fn spawn_mandatory_blocking<F, R>(f: F) -> Option<JoinHandle<R>>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    current()
        .expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
        .spawn_blocking(f, true)
}

struct CatchUnwind<F>(Pin<Box<F>>);
impl<F: Future> Future for CatchUnwind<F> {
    type Output = Result<F::Output, Box<dyn Any + Send>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match std::panic::catch_unwind(AssertUnwindSafe(|| self.0.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Err(p) if p.is::<SimAbort>() => std::panic::resume_unwind(p),
            Err(p) => Poll::Ready(Err(p)),
        }
    }
}

// ------------------------------------------------------------------ join handles

pub struct JoinError {
    panic: Option<Box<dyn Any + Send>>,
}
unsafe impl Sync for JoinError {}
impl JoinError {
    fn panic(p: Box<dyn Any + Send>) -> Self {
        Self { panic: Some(p) }
    }
    pub fn cancelled() -> Self {
        Self { panic: None }
    }
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.panic.expect("`JoinError` reason is not a panic.")
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.panic {
            Some(p) => Ok(p),
            None => Err(Self { panic: None }),
        }
    }
}
impl std::fmt::Debug for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinError::{}", if self.is_panic() { "Panic(...)" } else { "Cancelled" })
    }
}
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "task {}", if self.is_panic() { "panicked" } else { "was cancelled" })
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::other(if e.is_panic() { "task panicked" } else { "task was cancelled" })
    }
}

struct JoinState<T> {
    result: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
}

pub struct JoinShared<T> {
    st: Mutex<JoinState<T>>,
    cancelable: AtomicBool,
    refs: AtomicU64,
}

impl<T> JoinShared<T> {
    fn new() -> Arc<Self> {
        Arc::new(Self {
            st: Mutex::new(JoinState { result: None, done: false, waker: None }),
            cancelable: AtomicBool::new(false),
            refs: AtomicU64::new(0),
        })
    }
    fn set_on_drop_cancel(&self) {
        self.cancelable.store(true, Ordering::SeqCst);
        let _ = self.refs.load(Ordering::Relaxed);
    }
    fn complete(&self, r: Result<T, JoinError>) {
        let w = {
            let mut st = self.st.lock().unwrap_or_else(|e| e.into_inner());
            if st.done {
                return;
            }
            st.done = true;
            st.result = Some(r);
            st.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}

pub struct AbortHandle {
    exec: Weak<Exec>,
    id: u64,
    complete: Arc<dyn Fn() + Send + Sync>,
    finished: Arc<dyn Fn() -> bool + Send + Sync>,
}
impl AbortHandle {
    pub fn abort(&self) {
        if let Some(e) = self.exec.upgrade() {
            e.cancel_task(self.id);
            (self.complete)();
        }
    }
    pub fn is_finished(&self) -> bool {
        (self.finished)()
    }
}
impl std::fmt::Debug for AbortHandle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("AbortHandle")
    }
}
impl Clone for AbortHandle {
    fn clone(&self) -> Self {
        Self { exec: self.exec.clone(), id: self.id, complete: self.complete.clone(), finished: self.finished.clone() }
    }
}

pub struct JoinHandle<T> {
    shared: Arc<JoinShared<T>>,
    exec: Weak<Exec>,
    id: u64,
}

impl<T> Unpin for JoinHandle<T> {}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}

impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        if let Some(e) = self.exec.upgrade() {
            e.cancel_task(self.id);
            self.shared.complete(Err(JoinError::cancelled()));
        }
    }
    pub fn is_finished(&self) -> bool {
        self.shared.st.lock().unwrap_or_else(|e| e.into_inner()).done
    }
    pub fn id(&self) -> u64 {
        self.id
    }
}
impl<T: Send + 'static> JoinHandle<T> {
    pub fn abort_handle(&self) -> AbortHandle {
        let (a, b) = (self.shared.clone(), self.shared.clone());
        AbortHandle {
            exec: self.exec.clone(),
            id: self.id,
            complete: Arc::new(move || a.complete(Err(JoinError::cancelled()))),
            finished: Arc::new(move || b.st.lock().unwrap_or_else(|e| e.into_inner()).done),
        }
    }
}

impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut st = self.shared.st.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(r) = st.result.take() {
            return Poll::Ready(r);
        }
        if st.done {
            panic!("JoinHandle polled after completion");
        }
        // a task dropped by runtime shutdown never completes its handle; tokio reports cancellation
        st.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

// ------------------------------------------------------------------ timers

/// A one-shot timer future on the simulated clock.
pub struct Timer {
    deadline: u64,
    state: Arc<TimerState>,
    ev: Option<u64>,
}
struct TimerState {
    fired: AtomicBool,
    waker: Mutex<Option<Waker>>,
}
impl Timer {
    pub fn at(deadline: u64) -> Timer {
        Timer {
            deadline,
            state: Arc::new(TimerState { fired: AtomicBool::new(false), waker: Mutex::new(None) }),
            ev: None,
        }
    }
    pub fn deadline(&self) -> u64 {
        self.deadline
    }
    pub fn fired(&self) -> bool {
        self.state.fired.load(Ordering::SeqCst)
    }
    pub fn reset(&mut self, deadline: u64) {
        self.cancel();
        *self = Timer::at(deadline);
    }
    fn cancel(&mut self) {
        if let Some(ev) = self.ev.take() {
            if let Some(w) = crate::current() {
                w.cancel(ev);
            }
        }
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        self.cancel();
    }
}
impl Future for Timer {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let w = crate::world();
        if self.fired() || w.now() >= self.deadline {
            self.state.fired.store(true, Ordering::SeqCst);
            return Poll::Ready(());
        }
        *self.state.waker.lock().unwrap() = Some(cx.waker().clone());
        if self.ev.is_none() {
            let st = self.state.clone();
            // timers may fire late, never early (timer wheel granularity, busy driver)
            let late = w.sched(|r| if r.chance(0.2) { r.below(2_000_000) } else { 0 });
            w.stat("timers");
            let id = w.at(self.deadline.saturating_add(late), move || {
                st.fired.store(true, Ordering::SeqCst);
                if let Some(w) = st.waker.lock().unwrap().take() {
                    w.wake();
                }
            });
            self.ev = Some(id);
        }
        Poll::Pending
    }
}

pub fn assert_sim() {
    assert!(has_current(), "used outside of the simulation");
}
