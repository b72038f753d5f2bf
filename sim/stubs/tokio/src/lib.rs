//! Stand-in for `tokio`: tasks, timers and blocking run on the simulated runtime; channels and locks
//! are tokio's own.
pub use real_tokio::{join, pin, select, sync, try_join};
pub use task::spawn;
pub use tokio_macros_sim::{main, test};

pub mod task {
    pub use simrt::{yield_now, JoinError, JoinHandle};
    use std::future::Future;
    pub fn block_in_place<R>(f: impl FnOnce() -> R) -> R {
        simrt::check_doom();
        f()
    }
    pub fn spawn<F: Future + 'static>(f: F) -> JoinHandle<F::Output> {
        simrt::spawn(f)
    }
    pub fn spawn_local<F: Future + 'static>(f: F) -> JoinHandle<F::Output> {
        simrt::spawn(f)
    }
    pub fn spawn_blocking<R: 'static>(f: impl FnOnce() -> R + 'static) -> JoinHandle<R> {
        simrt::spawn(async move { f() })
    }
}
pub mod time {
    use std::future::Future;
    pub use std::time::Duration;
    pub use simrt::{sleep, Sleep};
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed;
    pub mod error {
        pub use super::Elapsed;
    }
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Instant(Duration);
    impl Instant {
        pub fn now() -> Self {
            Instant(simrt::now())
        }
        pub fn elapsed(&self) -> Duration {
            simrt::now() - self.0
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.saturating_sub(o.0)
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl std::ops::Sub for Instant {
        type Output = Duration;
        fn sub(self, d: Instant) -> Duration {
            self.0 - d.0
        }
    }
    pub fn sleep_until(i: Instant) -> Sleep {
        sleep(i.0.saturating_sub(simrt::now()))
    }
    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, Elapsed> {
        let mut f = std::pin::pin!(f);
        let mut s = std::pin::pin!(sleep(d));
        std::future::poll_fn(move |cx| {
            if let std::task::Poll::Ready(v) = f.as_mut().poll(cx) {
                return std::task::Poll::Ready(Ok(v));
            }
            s.as_mut().poll(cx).map(|_| Err(Elapsed))
        })
        .await
    }
    pub struct Interval(Duration, bool);
    pub fn interval(d: Duration) -> Interval {
        Interval(d, true)
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            if !std::mem::take(&mut self.1) {
                sleep(self.0).await;
            }
            Instant::now()
        }
    }
}
pub mod runtime {
    use std::future::Future;
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Handle {
            assert!(simrt::active(), "there is no reactor running, must be called from the context of a Tokio 1.x runtime");
            Handle
        }
        pub fn try_current() -> Result<Handle, std::io::Error> {
            if simrt::active() {
                Ok(Handle)
            } else {
                Err(std::io::Error::other("no runtime"))
            }
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            simrt::block_on(f)
        }
        pub fn spawn<F: Future + 'static>(&self, f: F) -> simrt::JoinHandle<F::Output> {
            simrt::spawn(f)
        }
    }
    pub struct Runtime;
    impl Runtime {
        pub fn new() -> std::io::Result<Runtime> {
            Ok(Runtime)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            simrt::block_on(f)
        }
        pub fn handle(&self) -> &Handle {
            &Handle
        }
    }
}
#[doc(hidden)]
pub mod __sim {
    pub use simrt::block_on;
}
