//! Deterministic guards against runaway work, and memory accounting.
//!
//! * `log` records emitted by the library are counted; a case may arm a budget,
//!   and exceeding it panics inside the logger, so an endless loop that logs is
//!   a reproducible failure of the case rather than a wall-clock matter.
//! * The global allocator counts live and peak bytes per thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicIsize, Ordering};

thread_local! {
    static LOG_LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static LOG_FORMAT: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

thread_local! {
    static EMERGENCY: RefCell<Option<Box<dyn Fn()>>> = const { RefCell::new(None) };
}

/// What to do when this thread holds more than the hard cap, while the result
/// is alive; without it such a run is inconclusive.
pub struct OnRunaway;
pub fn on_runaway(f: Box<dyn Fn()>) -> OnRunaway {
    EMERGENCY.with(|e| *e.borrow_mut() = Some(f));
    OnRunaway
}
impl Drop for OnRunaway {
    fn drop(&mut self) {
        EMERGENCY.with(|e| e.borrow_mut().take());
    }
}

struct Counter;
struct Sink(u64);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 = self.0.wrapping_add(s.len() as u64);
        Ok(())
    }
}
impl log::Log for Counter {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let left = LOG_LEFT.with(Cell::get);
        if left == 0 {
            LOG_LEFT.with(|l| l.set(u64::MAX));
            panic!("work budget exceeded: the library keeps looping on this input");
        }
        if left != u64::MAX {
            LOG_LEFT.with(|l| l.set(left - 1));
        }
        if LOG_FORMAT.with(Cell::get) {
            let mut s = Sink(0);
            let _ = write!(s, "{}", r.args());
            std::hint::black_box(s.0);
        }
    }
    fn flush(&self) {}
}
static COUNTER: Counter = Counter;

pub fn install_logger() {
    let _ = log::set_logger(&COUNTER);
    log::set_max_level(log::LevelFilter::Trace);
}

/// Allow at most `budget` log records on this thread until `disarm`.
pub fn arm(budget: u64, format: bool) {
    LOG_LEFT.with(|l| l.set(budget));
    LOG_FORMAT.with(|l| l.set(format));
}
pub fn disarm() {
    LOG_LEFT.with(|l| l.set(u64::MAX));
    LOG_FORMAT.with(|l| l.set(false));
}

pub struct Alloc;
/// The most one worker may hold, and a process that runs a single case.
const HARD_CAP: isize = 3 << 30;
const ALONE_CAP: isize = 12 << 30;
static CAP: AtomicIsize = AtomicIsize::new(HARD_CAP);
pub fn alone() {
    CAP.store(ALONE_CAP, Ordering::Relaxed);
}

fn account(d: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
        if v > HARD_CAP && v > CAP.load(Ordering::Relaxed) {
            runaway();
        }
    });
}

fn runaway() -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
        fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    }
    let f = EMERGENCY.with(|e| e.borrow_mut().take());
    if let Some(f) = f {
        // what the report itself needs must not come back here
        LIVE.with(|l| l.set(isize::MIN / 2));
        f();
    }
    let m = b"harness: one worker holds too much: runaway allocation, inconclusive\n";
    unsafe {
        write(2, m.as_ptr().cast(), m.len());
        _exit(4)
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Peak number of bytes this thread held during `f` beyond what it held before.
pub fn peak_during<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.with(Cell::get);
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(Cell::get);
    (r, (peak - base).max(0) as usize)
}
