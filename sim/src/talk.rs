//! A tracing subscriber that reads everything the library logs and keeps none of it. It is always
//! installed, and listens only while `loud` is set, so a run decides whether the library is logging.
use std::fmt::{self, Write};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Metadata, Subscriber};

static LOUD: AtomicBool = AtomicBool::new(false);
pub static EVENTS: AtomicU64 = AtomicU64::new(0);

/// While it lives, the library is logging at every level.
pub struct Loud(bool);
pub fn loud(on: bool) -> Loud {
    Loud(LOUD.swap(on, Relaxed))
}
impl Drop for Loud {
    fn drop(&mut self) {
        LOUD.store(self.0, Relaxed);
    }
}
pub fn is_loud() -> bool {
    LOUD.load(Relaxed)
}
pub fn hush() {
    LOUD.store(false, Relaxed);
    EVENTS.store(0, Relaxed);
}

struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len() as u64;
        Ok(())
    }
}
struct Read(Sink);
impl Visit for Read {
    fn record_debug(&mut self, f: &Field, v: &dyn fmt::Debug) {
        let _ = write!(self.0, "{}={v:?}", f.name());
    }
}
pub struct Talk;
impl Subscriber for Talk {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        LOUD.load(Relaxed)
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        a.record(&mut Read(Sink(0)));
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        r.record(&mut Read(Sink(0)));
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        EVENTS.fetch_add(1, Relaxed);
        e.record(&mut Read(Sink(0)));
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}
pub fn install() {
    let _ = tracing::subscriber::set_global_default(Talk);
}
