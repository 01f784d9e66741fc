//! SIM_LOG=<level>: the code under test's own log lines in the trace (debugging aid).
use tracing::field::{Field, Visit};
use tracing::{span, Event, Level, Metadata, Subscriber};

struct Logs(Level);
struct V(String);
impl Visit for V {
    fn record_debug(&mut self, f: &Field, v: &dyn std::fmt::Debug) {
        if f.name() == "message" {
            self.0.insert_str(0, &format!("{v:?} "));
        } else if f.name() != "ctx" {
            self.0.push_str(&format!("{}={v:?} ", f.name()));
        }
    }
}
impl Subscriber for Logs {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        m.is_event() && m.target().starts_with("coerce") && *m.level() <= self.0
    }
    fn new_span(&self, _: &span::Attributes<'_>) -> span::Id {
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, _: &span::Record<'_>) {}
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut v = V(String::new());
        e.record(&mut v);
        eprintln!(
            "{:>10.3}ms n{} {} {}: {}",
            tokio::sim::now_nanos() as f64 / 1e6,
            tokio::sim::current_node(),
            e.metadata().level(),
            e.metadata().target(),
            v.0
        );
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

pub fn init() {
    if let Ok(l) = std::env::var("SIM_LOG") {
        let l = l.parse().unwrap_or(Level::DEBUG);
        let _ = tracing::subscriber::set_global_default(Logs(l));
    }
}
