//! Stand-ins for `std::time`: virtual time.
use std::ops::{Add, AddAssign, Sub, SubAssign};
pub use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u128);

impl Instant {
    /// the time may have moved on, as far as the harness allows
    pub fn now() -> Self {
        crate::point();
        let j = crate::jumps();
        if !j.is_empty() {
            let k = crate::choose_kind(j.len() + 1, crate::TIME);
            if k > 0 {
                crate::advance(j[k - 1]);
            }
        }
        Instant(crate::now() as u128)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now() - *self
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        (self.0 >= o.0).then(|| *self - o)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        // the range of the real one (seconds in an i64)
        (self.0 + d.as_nanos() < (i64::MAX as u128) * 1_000_000_000)
            .then(|| Instant(self.0 + d.as_nanos()))
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d.as_nanos()).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        let n = self.0.saturating_sub(o.0);
        Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32)
    }
}
