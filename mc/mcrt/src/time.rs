//! Virtual `std::time`.
pub use ::std::time::*;
use std::ops::{Add, AddAssign, Sub, SubAssign};

use crate::rt::{now, Nanos};

const MAX: Nanos = (i64::MAX as u128) * 1_000_000_000;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(pub(crate) Nanos);

impl std::fmt::Debug for Instant {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Instant({} ns)", self.0)
    }
}
impl Instant {
    pub fn now() -> Instant {
        Instant(now())
    }
    pub fn nanos(&self) -> Nanos {
        self.0
    }
    pub fn from_nanos(n: Nanos) -> Instant {
        Instant(n)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now() - *self
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.checked_duration_since(earlier).unwrap_or_default()
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.checked_duration_since(earlier).unwrap_or_default()
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        let d = self.0.checked_sub(earlier.0)?;
        Some(Duration::new((d / 1_000_000_000) as u64, (d % 1_000_000_000) as u32))
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        let n = self.0.checked_add(d.as_nanos())?;
        if n > MAX {
            None
        } else {
            Some(Instant(n))
        }
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d.as_nanos()).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
