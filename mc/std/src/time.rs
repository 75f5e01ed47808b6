pub use mcrt::time::{Instant, SystemTime, SystemTimeError, UNIX_EPOCH};
pub use real::time::{Duration, TryFromFloatSecsError};
