//! Deterministic simulation kernel: one `World` per simulated run.
//!
//! A world owns the virtual clock, the event queue, the seeded PRNG streams, a set of OS threads of which exactly one
//! runs at a time (baton passing, the next one chosen by the PRNG), a task executor and a simulated process table.
//! One seed decides everything that happens in a world.

pub mod exec;
pub mod os;
pub mod rng;
pub mod world;

pub use exec::{spawn_blocking, JoinError, JoinHandle};
pub use world::{current, World};

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

static STEPS: AtomicU64 = AtomicU64::new(0);
static SHARED_STEPS: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Where to count the steps of every world of this process, for whoever watches it from outside.
///
/// # Safety
/// The place must stay valid for the rest of the process.
pub unsafe fn count_steps_at(p: *mut AtomicU64) {
    SHARED_STEPS.store(p, Ordering::SeqCst);
}

pub(crate) fn stepped() {
    let n = STEPS.fetch_add(1, Ordering::Relaxed) + 1;
    let p = SHARED_STEPS.load(Ordering::Relaxed);
    if !p.is_null() {
        unsafe { (*p).store(n, Ordering::Relaxed) };
    }
}

/// `select!` start offset used by the vendored tokio and futures macros.
pub fn select_rng(n: u32) -> Option<u32> {
    world::current().map(|w| w.select_rng(n))
}

pub fn in_sim() -> bool {
    world::has_current()
}

pub fn now_ns() -> Option<u64> {
    world::current().map(|w| w.now())
}

/// Salt applied to `StdRng::seed_from_u64` (0: shipped behaviour).
pub fn rng_salt() -> u64 {
    world::current().map(|w| w.rng_salt()).unwrap_or(0)
}

pub fn world() -> Arc<World> {
    world::current().expect("not inside a simulated world")
}
