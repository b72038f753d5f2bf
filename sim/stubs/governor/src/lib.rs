//! Stand-in for `governor`: the generic cell rate algorithm on the simulated clock.
use std::marker::PhantomData;
use std::num::NonZeroU32;
use std::sync::Mutex;
use std::time::Duration;

pub mod clock {
    use std::time::Duration;
    /// A reading of a clock.
    pub trait Reference: Sized + Copy + PartialEq + Eq + Ord + Send + Sync + std::fmt::Debug {
        fn duration_since(&self, earlier: Self) -> Duration;
        fn saturating_sub(&self, d: Duration) -> Self;
    }
    pub trait Clock: Clone {
        type Instant: Reference;
        fn now(&self) -> Self::Instant;
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
    pub struct QuantaInstant(pub(crate) Duration);
    impl Reference for QuantaInstant {
        fn duration_since(&self, earlier: Self) -> Duration {
            self.0.saturating_sub(earlier.0)
        }
        fn saturating_sub(&self, d: Duration) -> Self {
            QuantaInstant(self.0.saturating_sub(d))
        }
    }
    /// The clock of the simulated process.
    #[derive(Clone, Debug, Default)]
    pub struct QuantaClock;
    impl Clock for QuantaClock {
        type Instant = QuantaInstant;
        fn now(&self) -> QuantaInstant {
            QuantaInstant(simrt::now())
        }
    }
    pub type DefaultClock = QuantaClock;
    pub type MonotonicClock = QuantaClock;
    pub type SystemClock = QuantaClock;
    pub trait ReasonablyRealtime: Clock {}
    impl ReasonablyRealtime for QuantaClock {}
}
pub mod state {
    #[derive(Debug, Default)]
    pub struct InMemoryState;
    #[derive(Debug, Default, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum NotKeyed {
        #[default]
        NonKey,
    }
    pub mod direct {
        pub use super::NotKeyed;
    }
}
pub mod middleware {
    #[derive(Debug, Default)]
    pub struct NoOpMiddleware;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Quota {
    burst: NonZeroU32,
    per: Duration,
}
impl Quota {
    pub const fn per_second(n: NonZeroU32) -> Self {
        Quota { burst: n, per: Duration::from_nanos(1_000_000_000 / n.get() as u64) }
    }
    pub const fn per_minute(n: NonZeroU32) -> Self {
        Quota { burst: n, per: Duration::from_nanos(60_000_000_000 / n.get() as u64) }
    }
    pub const fn per_hour(n: NonZeroU32) -> Self {
        Quota { burst: n, per: Duration::from_nanos(3_600_000_000_000 / n.get() as u64) }
    }
    pub fn with_period(per: Duration) -> Option<Self> {
        if per.is_zero() {
            None
        } else {
            Some(Quota { burst: NonZeroU32::MIN, per })
        }
    }
    pub const fn allow_burst(self, burst: NonZeroU32) -> Self {
        Quota { burst, per: self.per }
    }
    pub const fn burst_size(&self) -> NonZeroU32 {
        self.burst
    }
    pub const fn replenish_interval(&self) -> Duration {
        self.per
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct NotUntil<P: clock::Reference = clock::QuantaInstant>(Duration, Quota, PhantomData<P>);
impl NotUntil {
    pub fn wait_time_from(&self, now: clock::QuantaInstant) -> Duration {
        self.0.saturating_sub(now.0)
    }
    pub fn earliest_possible(&self) -> clock::QuantaInstant {
        clock::QuantaInstant(self.0)
    }
    pub fn quota(&self) -> Quota {
        self.1
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct InsufficientCapacity(pub u32);
impl std::fmt::Display for InsufficientCapacity {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "required number of cells {} exceeds bucket's capacity", self.0)
    }
}
impl std::error::Error for InsufficientCapacity {}
impl std::fmt::Display for NotUntil {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "rate-limited until {:?}", self.0)
    }
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Jitter(Duration);
impl Jitter {
    pub fn up_to(_: Duration) -> Self {
        Jitter(Duration::ZERO)
    }
    pub fn new(min: Duration, _: Duration) -> Self {
        Jitter(min)
    }
}

#[derive(Debug)]
pub struct RateLimiter<K = state::NotKeyed, S = state::InMemoryState, C = clock::DefaultClock, MW = middleware::NoOpMiddleware> {
    quota: Quota,
    /// Theoretical arrival time of the next cell.
    tat: Mutex<Duration>,
    _p: PhantomData<fn() -> (K, S, C, MW)>,
}
pub type DefaultDirectRateLimiter = RateLimiter;
impl RateLimiter {
    pub fn direct(quota: Quota) -> Self {
        RateLimiter { quota, tat: Mutex::new(simrt::now()), _p: PhantomData }
    }
    pub fn direct_with_clock(quota: Quota, _: clock::DefaultClock) -> Self {
        Self::direct(quota)
    }
    pub fn clock(&self) -> &clock::DefaultClock {
        &clock::QuantaClock
    }
    fn take(&self, n: NonZeroU32) -> Result<(), NotUntil> {
        let now = simrt::now();
        let mut tat = self.tat.lock().unwrap();
        let more = self.quota.per * (n.get() - 1);
        let tau = self.quota.per * (self.quota.burst.get() - 1);
        let earliest = (*tat + more).saturating_sub(tau);
        if now < earliest {
            return Err(NotUntil(earliest, self.quota, PhantomData));
        }
        *tat = (*tat).max(now) + self.quota.per + more;
        Ok(())
    }
    pub fn check(&self) -> Result<(), NotUntil> {
        self.take(NonZeroU32::MIN)
    }
    pub fn check_n(&self, n: NonZeroU32) -> Result<Result<(), NotUntil>, InsufficientCapacity> {
        if n > self.quota.burst {
            return Err(InsufficientCapacity(self.quota.burst.get()));
        }
        Ok(self.take(n))
    }
    async fn wait(&self, n: NonZeroU32, j: Duration) {
        while let Err(e) = self.take(n) {
            simrt::sleep(j + e.0.saturating_sub(simrt::now())).await;
        }
    }
    pub async fn until_ready(&self) {
        self.wait(NonZeroU32::MIN, Duration::ZERO).await
    }
    pub async fn until_ready_with_jitter(&self, j: Jitter) {
        self.wait(NonZeroU32::MIN, j.0).await
    }
    pub async fn until_n_ready(&self, n: NonZeroU32) -> Result<(), InsufficientCapacity> {
        if n > self.quota.burst {
            return Err(InsufficientCapacity(self.quota.burst.get()));
        }
        self.wait(n, Duration::ZERO).await;
        Ok(())
    }
}
