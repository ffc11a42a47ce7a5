use simcore::exec::Timer;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;
pub use tokio_real::time::Instant;

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> std::io::Error {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

fn ns(d: Duration) -> u64 {
    u64::try_from(d.as_nanos()).unwrap_or(u64::MAX)
}
fn ns_of(i: Instant) -> u64 {
    simcore::world().now().saturating_add(ns(i.saturating_duration_since(Instant::now())))
}

#[derive(Debug)]
pub struct Sleep {
    timer: TimerDbg,
    deadline: Instant,
}
struct TimerDbg(Timer);
impl std::fmt::Debug for TimerDbg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Timer")
    }
}

pub fn sleep(d: Duration) -> Sleep {
    let now = Instant::now();
    let deadline = now.checked_add(d).unwrap_or_else(|| now + Duration::from_secs(86400 * 365 * 30));
    sleep_until(deadline)
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    // tokio's timer has millisecond granularity, rounded up
    let t = ns_of(deadline);
    let t = t.div_ceil(1_000_000).saturating_mul(1_000_000);
    Sleep { timer: TimerDbg(Timer::at(t)), deadline }
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        self.timer.0.fired()
    }
    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        *self.get_mut() = sleep_until(deadline);
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.timer.0).poll(cx)
    }
}

#[derive(Debug)]
pub struct Timeout<T> {
    value: T,
    delay: Sleep,
}
pub fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep(d) }
}
pub fn timeout_at<F: std::future::IntoFuture>(d: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { value: f.into_future(), delay: sleep_until(d) }
}
impl<T> Timeout<T> {
    pub fn get_ref(&self) -> &T {
        &self.value
    }
    pub fn get_mut(&mut self) -> &mut T {
        &mut self.value
    }
    pub fn into_inner(self) -> T {
        self.value
    }
}
impl<T: Future> Future for Timeout<T> {
    type Output = Result<T::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.value) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        Pin::new(&mut me.delay).poll(cx).map(|_| Err(error::Elapsed(())))
    }
}

#[derive(Debug)]
pub struct Interval {
    next: Instant,
    period: Duration,
    sleep: Option<Sleep>,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { next: start, period, sleep: None }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        let at = self.next;
        let s = self.sleep.get_or_insert_with(|| sleep_until(at));
        s.await;
        self.sleep = None;
        self.next = at + self.period;
        at
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
        self.sleep = None;
    }
}
