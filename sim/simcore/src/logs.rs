//! A subscriber that really formats what the code under test logs, as a deployment with
//! `RUST_LOG=trace` does, and throws the text away. Whether a run logs is part of its schedule.
use std::cell::{Cell, RefCell};
use std::fmt::Write;

use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::subscriber::Interest;
use tracing::{Event, Level, Metadata, Subscriber};

thread_local! {
    static LEVEL: Cell<u8> = const { Cell::new(0) };
    static LINE: RefCell<String> = const { RefCell::new(String::new()) };
}

struct Sink;

struct Fields(String);
impl Visit for Fields {
    fn record_debug(&mut self, field: &Field, value: &dyn std::fmt::Debug) {
        let _ = write!(self.0, " {}={:?}", field.name(), value);
    }
}

fn keep(f: Fields) {
    crate::secrets::shown("log", &f.0);
    LINE.with(|l| {
        if let Ok(mut l) = l.try_borrow_mut() {
            *l = f.0;
        }
    })
}

impl Subscriber for Sink {
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        match LEVEL.with(|l| l.get()) {
            0 => false,
            1 => *m.level() <= Level::INFO,
            _ => true,
        }
    }
    fn new_span(&self, a: &Attributes<'_>) -> Id {
        let mut f = Fields(String::new());
        a.record(&mut f);
        keep(f);
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, r: &Record<'_>) {
        let mut f = Fields(String::new());
        r.record(&mut f);
        keep(f);
    }
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        // In debug builds the library traces the raw traffic, on purpose.
        if !crate::harness::shipped() && *e.metadata().level() == Level::TRACE && e.metadata().target().starts_with("imap_next") {
            return;
        }
        let mut f = Fields(String::new());
        e.record(&mut f);
        keep(f);
    }
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
}

pub fn install() {
    let _ = tracing::subscriber::set_global_default(Sink);
}

/// 0 nothing, 1 up to info, 2 everything.
pub fn set(level: u8) {
    LEVEL.with(|l| l.set(level));
}
