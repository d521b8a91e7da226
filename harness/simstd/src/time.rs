pub use ::std::time::*;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};

fn now_ns() -> u64 {
    crate::rt::peek(|w| w.stats.clock_ns)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Self {
        Instant(Duration::from_nanos(now_ns()))
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().0.saturating_sub(self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(Duration);
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> Self {
        SystemTime(Duration::from_secs(1_700_000_000) + Duration::from_nanos(now_ns()))
    }
    pub fn elapsed(&self) -> Result<Duration, ::std::convert::Infallible> {
        Ok(Self::now().0.saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, ::std::convert::Infallible> {
        Ok(self.0.saturating_sub(o.0))
    }
}
