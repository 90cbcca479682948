//! A logger that keeps what the current thread logs, when asked to, and
//! otherwise formats every record into nothing.
use log::{Level, LevelFilter, Log, Metadata, Record};
use std::cell::RefCell;
use std::fmt::Write;

struct Cap;
struct Sink(usize);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
thread_local! {
    static BUF: RefCell<Option<Vec<(Level, String)>>> = const { RefCell::new(None) };
}
impl Log for Cap {
    fn enabled(&self, _: &Metadata) -> bool {
        true
    }
    fn log(&self, r: &Record) {
        let m = BUF.with(|b| b.borrow().is_some());
        if m {
            let t = r.args().to_string();
            BUF.with(|b| b.borrow_mut().as_mut().unwrap().push((r.level(), t)));
        } else {
            let _ = write!(Sink(0), "{}", r.args());
        }
    }
    fn flush(&self) {}
}
static CAP: Cap = Cap;

pub fn install(level: LevelFilter) {
    let _ = log::set_logger(&CAP);
    log::set_max_level(level);
}
/// What `f` logs in this thread.
pub fn capture<R>(f: impl FnOnce() -> R) -> (R, Vec<(Level, String)>) {
    BUF.with(|b| *b.borrow_mut() = Some(vec![]));
    let r = f();
    let v = BUF.with(|b| b.borrow_mut().take()).unwrap_or_default();
    (r, v)
}
pub fn reset() {
    BUF.with(|b| *b.borrow_mut() = None);
}
