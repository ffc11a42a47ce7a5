//! `futures_timer::Delay` on the simulated clock.
use simcore::exec::Timer;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

pub struct Delay(Timer);

fn deadline(d: Duration) -> u64 {
    simcore::world().now().saturating_add(u64::try_from(d.as_nanos()).unwrap_or(u64::MAX))
}

impl Delay {
    pub fn new(dur: Duration) -> Delay {
        Delay(Timer::at(deadline(dur)))
    }
    pub fn reset(&mut self, dur: Duration) {
        self.0.reset(deadline(dur));
    }
}

impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx)
    }
}

impl std::fmt::Debug for Delay {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Delay")
    }
}
