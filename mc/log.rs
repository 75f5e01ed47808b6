//! Somebody listening to everything the library logs: every span and event, every value formatted in full.

use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Level, Metadata, Subscriber};

/// Counts what is written to it.
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
impl Visit for Sink {
    fn record_debug(&mut self, field: &Field, value: &dyn std::fmt::Debug) {
        let _ = write!(self, "{}={value:?}", field.name());
    }
}

static LISTENED: AtomicU64 = AtomicU64::new(0);
static SPANS: AtomicU64 = AtomicU64::new(0);
const LEVELS: [Level; 5] = [Level::TRACE, Level::DEBUG, Level::INFO, Level::WARN, Level::ERROR];
static LEVEL: AtomicUsize = AtomicUsize::new(0);
struct Listener;
impl Subscriber for Listener {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        *m.level() <= LEVELS[LEVEL.load(Ordering::Relaxed)]
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let mut s = Sink(0);
        a.record(&mut s);
        LISTENED.fetch_add(s.0, Ordering::Relaxed);
        Id::from_u64(SPANS.fetch_add(1, Ordering::Relaxed) + 1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        let mut s = Sink(0);
        r.record(&mut s);
        LISTENED.fetch_add(s.0, Ordering::Relaxed);
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut s = Sink(0);
        e.record(&mut s);
        LISTENED.fetch_add(s.0, Ordering::Relaxed);
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

/// From now on, in this process, if it was asked for.
pub fn install() {
    if std::env::var_os("MC_LOG").is_some() {
        let _ = tracing::subscriber::set_global_default(Listener);
    }
}

/// From now on only this much: 0 is everything, 4 only errors.
#[allow(dead_code)]
pub fn level(k: usize) {
    LEVEL.store(k, Ordering::Relaxed);
}
