use crate::os::Os;
use crate::rng::{mix, Rng};
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, BinaryHeap};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const NS: u64 = 1;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

struct ThreadCtx {
    world: Arc<World>,
    tid: usize,
}

thread_local! {
    static CUR: Cell<*const ThreadCtx> = const { Cell::new(std::ptr::null()) };
}

fn with_ctx<R>(f: impl FnOnce(&ThreadCtx) -> R) -> Option<R> {
    let p = CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null());
    if p.is_null() {
        None
    } else {
        Some(f(unsafe { &*p }))
    }
}

pub fn has_current() -> bool {
    with_ctx(|_| ()).is_some()
}

pub fn current() -> Option<Arc<World>> {
    with_ctx(|c| c.world.clone())
}

pub fn current_tid() -> Option<usize> {
    with_ctx(|c| c.tid)
}

/// Payload used to unwind simulated threads when a run is aborted (hang, livelock, end of run).
pub struct SimAbort;

#[derive(Clone, Debug, PartialEq)]
pub enum Abort {
    /// nothing is runnable and no event is pending
    Deadlock,
    /// too many steps / `select!` rounds without end
    Livelock(&'static str),
    /// simulated time limit passed
    TimeLimit,
    /// harness asked for it
    Stop,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum TState {
    Runnable,
    Running,
    Parked,
    Done,
}

struct Slot {
    state: TState,
    token: bool,
    cv: Arc<Condvar>,
}

struct Ev {
    at: u64,
    seq: u64,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

type EvFn = Box<dyn FnOnce() + Send>;

#[derive(Clone, Debug)]
pub struct WorldCfg {
    pub seed: u64,
    /// seeds of the individual streams; they default to functions of `seed`
    pub sched_seed: Option<u64>,
    pub select_seed: Option<u64>,
    pub entropy_seed: Option<u64>,
    pub rng_salt: u64,
    pub step_limit: u64,
    pub time_limit: u64,
    /// CLOCK_REALTIME at simulated time 0 (ns)
    pub epoch: u64,
    /// probability that a yield point really hands the baton to another thread
    pub preempt: f64,
    pub record: bool,
}

impl Default for WorldCfg {
    fn default() -> Self {
        Self {
            seed: 0,
            sched_seed: None,
            select_seed: None,
            entropy_seed: None,
            rng_salt: 0,
            step_limit: 2_000_000,
            time_limit: 1_000_000 * SEC,
            epoch: 1_600_000_000 * SEC,
            preempt: 0.3,
            record: false,
        }
    }
}

pub struct Fault {
    pub kind: &'static str,
}

pub struct St {
    pub now: u64,
    seq: u64,
    events: BinaryHeap<Ev>,
    ev_fns: BTreeMap<u64, EvFn>,
    threads: Vec<Slot>,
    running: Option<usize>,
    pub aborting: Option<Abort>,
    pub sched: Rng,
    select: Rng,
    entropy: Rng,
    pub steps: u64,
    select_since_progress: u64,
    passed_over: u32,
    busy_since: (u64, u64),
    pub stats: BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub hash: u64,
    pub wall_skew: i64,
    pub panics: Vec<String>,
    pub os: Os,
    pub disk: Disk,
}

/// Fault plan of the file system: the n-th open (for writing) / write call of the world fails or is short.
#[derive(Clone, Debug, Default)]
pub struct Disk {
    pub fail_open: Option<(u64, i32)>,
    pub fail_write: Option<(u64, i32)>,
    /// keep failing from the given point on (full disk)
    pub sticky: bool,
    pub short_write: f64,
    pub eintr: f64,
    pub opens: u64,
    pub writes: u64,
}

pub struct World {
    st: Mutex<St>,
    pub cfg: WorldCfg,
    /// join handles of the OS threads of this world
    handles: Mutex<Vec<std::thread::JoinHandle<()>>>,
    /// current runtime stack is thread independent: executor of the world
    pub user: Mutex<Option<Arc<dyn Any + Send + Sync>>>,
}

impl World {
    pub fn new(cfg: WorldCfg) -> Arc<World> {
        let s = cfg.seed;
        let st = St {
            now: 0,
            seq: 0,
            events: BinaryHeap::new(),
            ev_fns: BTreeMap::new(),
            threads: Vec::new(),
            running: None,
            aborting: None,
            sched: Rng::new(cfg.sched_seed.unwrap_or(mix(s, 1))),
            select: Rng::new(cfg.select_seed.unwrap_or(mix(s, 2))),
            entropy: Rng::new(cfg.entropy_seed.unwrap_or(mix(s, 3))),
            steps: 0,
            select_since_progress: 0,
            busy_since: (0, 0),
            passed_over: 0,
            stats: BTreeMap::new(),
            log: Vec::new(),
            hash: 0xcbf29ce484222325,
            wall_skew: 0,
            panics: Vec::new(),
            os: {
                let mut os = Os::new();
                os.number_from(crate::rng::mix(cfg.epoch, 0x91d));
                os
            },
            disk: Disk::default(),
        };
        Arc::new(World {
            st: Mutex::new(st),
            cfg,
            handles: Mutex::new(Vec::new()),
            user: Mutex::new(None),
        })
    }

    pub fn lock(&self) -> MutexGuard<'_, St> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn now(&self) -> u64 {
        self.lock().now
    }

    pub fn wall(&self) -> u64 {
        let st = self.lock();
        (self.cfg.epoch as i64 + st.now as i64 + st.wall_skew) as u64
    }

    pub fn rng_salt(&self) -> u64 {
        self.cfg.rng_salt
    }

    pub fn sched<R>(&self, f: impl FnOnce(&mut Rng) -> R) -> R {
        f(&mut self.lock().sched)
    }

    pub fn select_rng(&self, n: u32) -> u32 {
        let mut st = self.lock();
        st.select_since_progress += 1;
        if st.select_since_progress > 200_000 && st.aborting.is_none() {
            drop(st);
            self.abort(Abort::Livelock("select! spins without ever yielding"));
            if !std::thread::panicking() {
                std::panic::resume_unwind(Box::new(SimAbort));
            }
            return 0;
        }
        st.select.below(n.max(1) as u64) as u32
    }

    /// Raw select stream (used by futures-util shuffles).
    pub fn entropy_fill(&self, buf: &mut [u8]) {
        let mut st = self.lock();
        for b in buf {
            *b = st.entropy.next() as u8;
        }
    }

    pub fn stat(&self, k: &'static str) {
        *self.lock().stats.entry(k).or_default() += 1;
    }
    pub fn stat_n(&self, k: &'static str, n: u64) {
        *self.lock().stats.entry(k).or_default() += n;
    }

    /// Append to the trace of the run (never draws from a PRNG, never reads a clock).
    pub fn trace(&self, f: impl FnOnce() -> String) {
        let mut st = self.lock();
        st.trace(self.cfg.record, f);
    }

    // ---------------------------------------------------------------- events

    pub fn at(&self, at: u64, f: impl FnOnce() + Send + 'static) -> u64 {
        self.lock().schedule(at, Box::new(f))
    }

    pub fn after(&self, d: u64, f: impl FnOnce() + Send + 'static) -> u64 {
        let mut st = self.lock();
        let at = st.now.saturating_add(d);
        st.schedule(at, Box::new(f))
    }

    pub fn cancel(&self, id: u64) {
        let f = self.lock().ev_fns.remove(&id);
        drop(f);
    }

    // --------------------------------------------------------------- threads

    /// Runs `f` as the first thread of the world on the calling OS thread.
    pub fn enter<R>(self: &Arc<Self>, f: impl FnOnce() -> R) -> R {
        let tid = {
            let mut st = self.lock();
            let tid = st.threads.len();
            st.threads.push(Slot { state: TState::Running, token: false, cv: Arc::new(Condvar::new()) });
            st.running = Some(tid);
            tid
        };
        let ctx = Box::new(ThreadCtx { world: self.clone(), tid });
        let prev = CUR.with(|c| c.replace(&*ctx));
        let r = f();
        CUR.with(|c| c.set(prev));
        drop(ctx);
        r
    }

    /// Ends the world: unwinds and joins all its other threads.
    pub fn finish(self: &Arc<Self>) {
        {
            let mut st = self.lock();
            if st.aborting.is_none() {
                st.aborting = Some(Abort::Stop);
            }
            for t in &st.threads {
                t.cv.notify_all();
            }
        }
        loop {
            let hs: Vec<_> = std::mem::take(&mut *self.handles.lock().unwrap_or_else(|e| e.into_inner()));
            if hs.is_empty() {
                break;
            }
            for h in hs {
                h.join().ok();
            }
        }
        // break reference cycles (events hold wakers which hold executors)
        let (evs, os) = {
            let mut st = self.lock();
            st.events.clear();
            let evs = std::mem::take(&mut st.ev_fns);
            let os = st.os.take_wakers();
            (evs, os)
        };
        drop(evs);
        drop(os);
        *self.user.lock().unwrap_or_else(|e| e.into_inner()) = None;
    }

    pub fn spawn_thread(self: &Arc<Self>, f: impl FnOnce() + Send + 'static) -> usize {
        let mut st = self.lock();
        let tid = st.threads.len();
        let cv = Arc::new(Condvar::new());
        st.threads.push(Slot { state: TState::Runnable, token: false, cv: cv.clone() });
        if st.aborting.is_some() {
            st.threads[tid].state = TState::Done;
            return tid;
        }
        drop(st);
        let w = self.clone();
        let h = std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                let ctx = Box::new(ThreadCtx { world: w.clone(), tid });
                CUR.with(|c| c.set(&*ctx));
                let started = w.wait_for_baton(tid);
                if started {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    if let Err(p) = r {
                        if !p.is::<SimAbort>() {
                            // already recorded by the panic hook
                        }
                    }
                }
                w.thread_done(tid);
                CUR.with(|c| c.set(std::ptr::null()));
                drop(ctx);
            })
            .expect("spawn simulated thread");
        self.handles.lock().unwrap_or_else(|e| e.into_inner()).push(h);
        tid
    }

    fn wait_for_baton(&self, tid: usize) -> bool {
        let mut st = self.lock();
        let cv = st.threads[tid].cv.clone();
        loop {
            if st.aborting.is_some() {
                return false;
            }
            if st.threads[tid].state == TState::Running {
                return true;
            }
            st = cv.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }

    fn thread_done(&self, tid: usize) {
        let mut st = self.lock();
        st.threads[tid].state = TState::Done;
        if st.running == Some(tid) {
            st.running = None;
            drop(st);
            self.pass_baton();
        }
    }

    /// Chooses who runs next; executes events while nobody is runnable. Called without a running thread.
    fn pass_baton(&self) {
        loop {
            let mut st = self.lock();
            if st.aborting.is_some() {
                return;
            }
            st.steps += 1;
            crate::stepped();
            st.select_since_progress = 0;
            if st.steps > self.cfg.step_limit {
                drop(st);
                self.abort(Abort::Livelock("step limit"));
                return;
            }
            let n = st.threads.iter().filter(|t| t.state == TState::Runnable).count();
            // events due at the same instant may take effect before anybody gets to run
            let tie = n > 0 && st.tie_pending() && st.sched.chance(0.5);
            if n > 0 && !tie {
                let k = if n == 1 { 0 } else { st.sched.usize(n) };
                let i = st
                    .threads
                    .iter()
                    .enumerate()
                    .filter(|(_, t)| t.state == TState::Runnable)
                    .nth(k)
                    .unwrap()
                    .0;
                st.threads[i].state = TState::Running;
                st.running = Some(i);
                st.threads[i].cv.notify_all();
                if n > 1 {
                    let rec = self.cfg.record;
                    st.trace(rec, || format!("sched t{i} of {n}"));
                }
                return;
            }
            match st.pop_event() {
                Some((at, f)) => {
                    if at > self.cfg.time_limit {
                        drop(st);
                        self.abort(Abort::TimeLimit);
                        return;
                    }
                    st.now = st.now.max(at);
                    drop(st);
                    f();
                }
                None => {
                    drop(st);
                    self.abort(Abort::Deadlock);
                    return;
                }
            }
        }
    }

    pub fn abort(&self, why: Abort) {
        let mut st = self.lock();
        if st.aborting.is_none() {
            let rec = self.cfg.record;
            st.trace(rec, || format!("abort {why:?}"));
            st.aborting = Some(why);
        }
        for t in &st.threads {
            t.cv.notify_all();
        }
    }

    pub fn aborting(&self) -> Option<Abort> {
        self.lock().aborting.clone()
    }

    fn leave_if_aborting(&self) -> bool {
        // returns true when the caller must not block any more
        if self.lock().aborting.is_some() {
            if !std::thread::panicking() {
                std::panic::resume_unwind(Box::new(SimAbort));
            }
            return true;
        }
        false
    }

    /// Parks the current thread until `unpark(tid)`. Unwinds with `SimAbort` when the world is aborted.
    pub fn park(&self) {
        if !self.park_quiet() {
            self.leave_if_aborting();
        }
    }

    /// Like `park`, but returns false instead of unwinding when the world is aborted.
    pub fn park_quiet(&self) -> bool {
        let tid = current_tid().expect("park outside of a simulated thread");
        {
            let mut st = self.lock();
            if st.aborting.is_some() {
                return false;
            }
            if st.threads[tid].token {
                st.threads[tid].token = false;
                return true;
            }
            st.threads[tid].state = TState::Parked;
            st.running = None;
        }
        self.pass_baton();
        let ok = self.wait_for_baton(tid);
        if ok {
            self.lock().threads[tid].token = false;
        }
        ok
    }

    pub fn unpark(&self, tid: usize) {
        let mut st = self.lock();
        st.unpark(tid);
    }

    /// Gives the scheduler the opportunity to run another thread (or let due events happen).
    pub fn yield_now(&self) {
        let tid = match current_tid() {
            Some(t) => t,
            None => return,
        };
        {
            let mut st = self.lock();
            if st.aborting.is_some() {
                drop(st);
                self.leave_if_aborting();
                return;
            }
            let others = st.threads.iter().any(|t| t.state == TState::Runnable);
            if !others {
                return;
            }
            // a runnable thread is not passed over for ever
            let p = self.cfg.preempt;
            st.passed_over += 1;
            if !st.sched.chance(p) && st.passed_over < 12 {
                return;
            }
            st.passed_over = 0;
            st.threads[tid].state = TState::Runnable;
            st.running = None;
        }
        self.pass_baton();
        if !self.wait_for_baton(tid) {
            self.leave_if_aborting();
        }
    }

    /// Blocks the current thread for simulated time.
    pub fn sleep(self: &Arc<Self>, d: u64) {
        let tid = current_tid().expect("sleep outside of a simulated thread");
        let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (w, d2) = (self.clone(), done.clone());
        self.after(d, move || {
            d2.store(true, std::sync::atomic::Ordering::SeqCst);
            w.unpark(tid);
        });
        while !done.load(std::sync::atomic::Ordering::SeqCst) {
            if !self.park_quiet() {
                self.leave_if_aborting();
                return;
            }
        }
    }

    /// Code that computes without end still sees time pass: the next event happens now, other threads get a turn.
    pub fn nudge(&self) {
        let mut st = self.lock();
        if st.aborting.is_some() {
            return;
        }
        let next = match st.pop_event() {
            Some((at, f)) if at <= self.cfg.time_limit => {
                st.now = st.now.max(at);
                Some(f)
            }
            _ => None,
        };
        drop(st);
        if let Some(f) = next {
            f();
        }
        for _ in 0..13 {
            self.yield_now();
        }
    }

    /// One executor step happened (a task was polled). Detects runaway executions.
    pub fn step(&self) {
        let mut st = self.lock();
        st.steps += 1;
        crate::stepped();
        st.select_since_progress = 0;
        let over = st.steps > self.cfg.step_limit;
        // code that keeps yielding without ever blocking still sees time pass
        if st.now == st.busy_since.0 {
            st.busy_since.1 += 1;
        } else {
            st.busy_since = (st.now, 0);
        }
        let tick = if st.busy_since.1 > 3000 {
            st.busy_since.1 = 0;
            match st.pop_event() {
                Some((at, f)) if at <= self.cfg.time_limit => {
                    st.now = st.now.max(at);
                    Some(f)
                }
                _ => None,
            }
        } else {
            None
        };
        drop(st);
        if let Some(f) = tick {
            f();
        }
        if over {
            self.abort(Abort::Livelock("step limit"));
        }
        if self.lock().aborting.is_some() && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(SimAbort));
        }
    }

    // ------------------------------------------------------------------ disk

    pub fn disk_open(&self, path: &str, for_write: bool) -> Option<i32> {
        if !for_write {
            return None;
        }
        let mut st = self.lock();
        if st.aborting.is_some() {
            return None;
        }
        let n = st.disk.opens;
        st.disk.opens += 1;
        let rec = self.cfg.record;
        let name = path.rsplit('/').next().unwrap_or("").to_string();
        if let Some((k, e)) = st.disk.fail_open {
            if n == k || (st.disk.sticky && n > k) {
                *st.stats.entry("fault_disk_open").or_default() += 1;
                st.trace(rec, || format!("open {name} fails errno {e}"));
                return Some(e);
            }
        }
        st.trace(rec, || format!("open {name}"));
        None
    }

    pub fn disk_write(&self, len: usize) -> Result<usize, i32> {
        let mut st = self.lock();
        if st.aborting.is_some() {
            return Ok(len);
        }
        let n = st.disk.writes;
        st.disk.writes += 1;
        let rec = self.cfg.record;
        if let Some((k, e)) = st.disk.fail_write {
            if n == k || (st.disk.sticky && n > k) {
                *st.stats.entry("fault_disk_write").or_default() += 1;
                st.trace(rec, || format!("write fails errno {e}"));
                return Err(e);
            }
        }
        let (pe, ps) = (st.disk.eintr, st.disk.short_write);
        if pe > 0.0 && st.sched.chance(pe) {
            *st.stats.entry("fault_disk_eintr").or_default() += 1;
            st.trace(rec, || "write EINTR".to_string());
            return Err(libc::EINTR);
        }
        if len > 1 && ps > 0.0 && st.sched.chance(ps) {
            *st.stats.entry("fault_disk_short_write").or_default() += 1;
            let n = st.sched.range(1, len as u64 - 1) as usize;
            st.trace(rec, || format!("short write {n}"));
            return Ok(n);
        }
        st.trace(rec, || format!("write {len}"));
        Ok(len)
    }

    pub fn record_panic(&self, msg: String) {
        let mut st = self.lock();
        if st.aborting.is_none() {
            let rec = self.cfg.record;
            st.trace(rec, || format!("panic {msg}"));
            st.panics.push(msg);
        }
    }
}

impl St {
    pub fn trace(&mut self, record: bool, f: impl FnOnce() -> String) {
        if self.aborting.is_some() {
            return;
        }
        let s = f();
        for b in s.bytes().chain(self.now.to_le_bytes()) {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x100000001b3);
        }
        if record {
            let line = format!("{:>12}us {}", self.now / 1000, s);
            self.log.push(line);
        }
    }

    pub fn schedule(&mut self, at: u64, f: EvFn) -> u64 {
        self.seq += 1;
        let seq = self.seq;
        self.events.push(Ev { at, seq });
        self.ev_fns.insert(seq, f);
        seq
    }

    fn pop_event(&mut self) -> Option<(u64, EvFn)> {
        // events due at the same instant are executed in random order
        loop {
            let e = self.events.pop()?;
            if !self.ev_fns.contains_key(&e.seq) {
                continue;
            }
            let mut tie = vec![e];
            while let Some(n) = self.events.peek() {
                if n.at == tie[0].at && tie.len() < 8 {
                    let n = self.events.pop().unwrap();
                    if self.ev_fns.contains_key(&n.seq) {
                        tie.push(n);
                    }
                } else {
                    break;
                }
            }
            let k = if tie.len() > 1 { self.sched.usize(tie.len()) } else { 0 };
            let e = tie.swap_remove(k);
            for o in tie {
                self.events.push(o);
            }
            let f = self.ev_fns.remove(&e.seq).unwrap();
            return Some((e.at, f));
        }
    }

    fn tie_pending(&mut self) -> bool {
        while let Some(e) = self.events.peek() {
            if self.ev_fns.contains_key(&e.seq) {
                return e.at <= self.now;
            }
            self.events.pop();
        }
        false
    }

    pub fn unpark(&mut self, tid: usize) {
        let t = &mut self.threads[tid];
        match t.state {
            TState::Parked => t.state = TState::Runnable,
            TState::Done => {}
            _ => t.token = true,
        }
    }
}

impl World {
    /// Sleep that returns quietly when the world is aborted.
    pub fn sleep_quiet(self: &Arc<Self>, d: u64) {
        let tid = match current_tid() {
            Some(t) => t,
            None => return,
        };
        let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let (w, d2) = (self.clone(), done.clone());
        self.after(d, move || {
            d2.store(true, std::sync::atomic::Ordering::SeqCst);
            w.unpark(tid);
        });
        while !done.load(std::sync::atomic::Ordering::SeqCst) {
            if !self.park_quiet() {
                return;
            }
        }
    }
}
