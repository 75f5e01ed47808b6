//! The virtual clock behind `std::time::Instant` of the code under test.
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::time::Duration;

/// Nanoseconds since the start, or before; with the range a Linux system's has.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(i128);
const RANGE: i128 = i64::MAX as i128 * 1_000_000_000;

pub fn nanos(d: Duration) -> u64 {
    u64::try_from(d.as_nanos()).unwrap_or(u64::MAX)
}

impl Instant {
    pub fn now() -> Instant {
        Instant(crate::now() as i128)
    }
    pub fn from_nanos(n: u64) -> Instant {
        Instant(n as i128)
    }
    /// As a time for the scheduler to wait until.
    pub fn as_nanos(self) -> u64 {
        self.0.clamp(0, u64::MAX as i128) as u64
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.checked_duration_since(o).unwrap_or_default()
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        let n = self.0 - o.0;
        (n >= 0).then(|| Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        Some(self.0 + d.as_nanos() as i128).filter(|n| *n <= RANGE).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        Some(self.0 - d.as_nanos() as i128).filter(|n| *n >= -RANGE).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    #[track_caller]
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

/// The wall clock: a fixed day, moving with the virtual clock.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(Duration);
#[derive(Clone, Debug)]
pub struct SystemTimeError(Duration);
impl SystemTimeError {
    pub fn duration(&self) -> Duration {
        self.0
    }
}
impl std::fmt::Display for SystemTimeError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("second time provided was later than self")
    }
}
impl std::error::Error for SystemTimeError {}
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> SystemTime {
        SystemTime(Duration::from_secs(1_650_000_000) + Duration::from_nanos(crate::now()))
    }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
        self.0.checked_sub(o.0).ok_or(SystemTimeError(o.0.saturating_sub(self.0)))
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl AddAssign<Duration> for SystemTime {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
impl SubAssign<Duration> for SystemTime {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
