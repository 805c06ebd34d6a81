//! Run-time support for the monitors: virtual clock, counting allocator, coverage and comparison
//! callbacks, panic capture, and the monitored call into the parser.
use nmea_parser::{NmeaParser, ParseError, ParsedSentence};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicU8, Ordering};

// ---- virtual clock ------------------------------------------------------------------------------
thread_local! { static NOW: Cell<i64> = const { Cell::new(i64::MIN) }; }
/// 2021-06-15 10:30:00 UTC, used when a workload does not choose a time of its own.
pub const DEFAULT_NOW: i64 = 1_623_753_000;
pub fn set_now(t: i64) { NOW.with(|n| n.set(t)); }
/// The fraction of the second a clock reading carries, fixed by the reading.
pub fn nanos(t: i64) -> i64 { [0, 1, 500_000_000, 999_999_999][((t as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 61 & 3) as usize] }
pub fn now() -> i64 { NOW.with(|n| n.get()) }
thread_local! { static AGE: Cell<i64> = const { Cell::new(0) }; }
/// Lets the thread's monotonic clock jump ahead.
pub fn age(ns: i64) { AGE.with(|a| a.set(a.get() + ns)); }
/// A new case begins.
pub fn reset_clocks() { set_now(DEFAULT_NOW); AGE.with(|a| a.set(0)); }
/// Time passes between two sentences: mostly none, sometimes seconds, hours or weeks. Both clocks move.
pub fn pass(r: &mut crate::rng::Rng) {
    let s = match r.below(12) { 0 => r.below(5), 1 => r.below(120), 2 => r.below(7_200), 3 if AGE.with(|a| a.get()) < 1 << 60 => r.below(40 * 86_400), _ => return };
    age(s as i64 * 1_000_000_000 + r.below(1_000_000_000) as i64);
    set_now(now() + s as i64);
}

#[cfg(not(miri))]
mod clock {
    #[repr(C)]
    pub struct Timespec { s: i64, n: i64 }
    extern "C" { fn syscall(n: i64, ...) -> i64; }
    /// Interposes libc's clock_gettime: CLOCK_REALTIME reads the thread's virtual clock when one is set.
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
        let v = super::now();
        if id == 0 && v != i64::MIN { (*ts).s = v; (*ts).n = super::nanos(v); return 0; }
        *ts = Timespec { s: 0, n: 0 };
        let e = syscall(228, id as i64, ts) as i32;
        let a = super::AGE.with(|a| a.get());
        if a != 0 && e == 0 && matches!(id, 1 | 4 | 6 | 7) {
            let t = (*ts).s as i128 * 1_000_000_000 + (*ts).n as i128 + a as i128;
            (*ts).s = (t / 1_000_000_000) as i64;
            (*ts).n = (t % 1_000_000_000) as i64;
        }
        e
    }
}

// ---- log ----------------------------------------------------------------------------------------
/// Listens to everything the library logs, so that the arguments of its log lines are evaluated and
/// formatted as they are for a user who has a logger. Keeps only counts.
struct Listener;
struct Count(u64);
impl std::fmt::Write for Count { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len() as u64; Ok(()) } }
pub static LOG_RECORDS: AtomicU64 = AtomicU64::new(0);
pub static LOG_BYTES: AtomicU64 = AtomicU64::new(0);
impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) {
        let mut c = Count(0);
        let _ = std::fmt::write(&mut c, *r.args());
        LOG_RECORDS.fetch_add(1, Ordering::Relaxed);
        LOG_BYTES.fetch_add(c.0, Ordering::Relaxed);
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    static L: Listener = Listener;
    if log::set_logger(&L).is_ok() { log::set_max_level(log::LevelFilter::Trace); }
}

// ---- counting allocator -------------------------------------------------------------------------
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { big(l.size()); note(l.size() as i64, 1); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { note(-(l.size() as i64), -1); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { big(l.size()); note(l.size() as i64, 1); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        big(n);
        note(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}
/// A single request this large can only come from a number inside a sentence.
fn big(n: usize) {
    if n > 1 << 31 && LIMIT.with(|l| l.get()) != u64::MAX {
        LIMIT.with(|c| c.set(u64::MAX));
        let cur = CURRENT.with(|c| c.borrow().clone());
        crate::mon::fatal_violation(&format!("call requests {} bytes at once", n), &cur)
    }
}
fn note(d: i64, b: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + d));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + b));
    if d > 0 { let _ = TOTAL.try_with(|c| c.set(c.get() + d as u64)); }
}
#[cfg(not(miri))]
#[global_allocator]
static ALLOC: Counting = Counting;
pub fn live_bytes() -> i64 { LIVE.with(|c| c.get()) }
pub fn total_bytes() -> u64 { TOTAL.with(|c| c.get()) }

// ---- executed edges -----------------------------------------------------------------------------
const MAXG: usize = 1 << 17;
static MAP: [AtomicU8; MAXG] = [const { AtomicU8::new(0) }; MAXG];
static GUARDS: AtomicU32 = AtomicU32::new(0);
pub static COVERED: AtomicU64 = AtomicU64::new(0);
/// A single call that executes more edges of the crate than this is reported as not terminating.
pub const STEP_LIMIT: u64 = 2_000_000_000;
thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FRESH: Cell<u64> = const { Cell::new(0) };
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 { return; }
    while a < b {
        *a = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let s = STEPS.with(|c| { let v = c.get() + 1; c.set(v); v });
    let i = (*g as usize) & (MAXG - 1);
    if MAP[i].load(Ordering::Relaxed) == 0 && MAP[i].swap(1, Ordering::Relaxed) == 0 {
        COVERED.fetch_add(1, Ordering::Relaxed);
        FRESH.with(|c| c.set(c.get() + 1));
    }
    if s > LIMIT.with(|c| c.get()) { runaway(); }
}
pub fn steps() -> u64 { STEPS.with(|c| c.get()) }
pub fn edges_total() -> u64 { GUARDS.load(Ordering::Relaxed) as u64 }
pub fn edges_covered() -> u64 { COVERED.load(Ordering::Relaxed) }
/// Number of edges first covered by this thread so far (grows when a call reached something new).
pub fn fresh_edges() -> u64 { FRESH.with(|c| c.get()) }

#[cold]
fn runaway() -> ! {
    LIMIT.with(|c| c.set(u64::MAX));
    let cur = CURRENT.with(|c| c.borrow().clone());
    crate::mon::fatal_violation(&format!("call did not finish within {} executed edges", STEP_LIMIT), &cur)
}

// ---- comparison constants -----------------------------------------------------------------------
thread_local! {
    static REC: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
}
fn cmp_const(v: u64) {
    if REC.with(|r| r.get()) {
        REC.with(|r| r.set(false));
        SEEN.with(|s| { let mut s = s.borrow_mut(); if s.len() < 20000 { s.insert(v); } });
        REC.with(|r| r.set(true));
    }
}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp1(_: u8, _: u8) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp2(_: u16, _: u16) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp4(_: u32, _: u32) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_cmp8(_: u64, _: u64) {}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, _: u8) { cmp_const(a as u64) }
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, _: u16) { cmp_const(a as u64) }
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, _: u32) { cmp_const(a as u64) }
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, _: u64) { cmp_const(a) }
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, c: *const u64) {
    if !REC.with(|r| r.get()) { return; }
    for i in 0..*c { cmp_const(*c.add(2 + i as usize)); }
}
pub fn record_constants(on: bool) { REC.with(|r| r.set(on)); }
/// Constants seen since recording started, smallest first; values that look like addresses are dropped.
pub fn recorded_constants() -> Vec<u64> {
    let mut v: Vec<u64> = SEEN.with(|s| s.borrow().iter().cloned().collect());
    v.retain(|x| *x < (1 << 40) || (*x as i64) < 0 && (*x as i64) > -(1 << 40));
    v.sort();
    v
}

// ---- monitored call -----------------------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Unsupported, Corrupted, Invalid }

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(ParsedSentence),
    Err(Kind, String),
    Panic(String),
}
impl Out {
    pub fn is_incomplete(&self) -> bool { matches!(self, Out::Ok(ParsedSentence::Incomplete)) }
    pub fn is_err(&self) -> bool { matches!(self, Out::Err(..)) }
    pub fn is_panic(&self) -> bool { matches!(self, Out::Panic(_)) }
    pub fn kind(&self) -> Option<Kind> { if let Out::Err(k, _) = self { Some(*k) } else { None } }
    /// Equality of outcomes up to the wording of error messages.
    pub fn same(&self, o: &Out) -> bool {
        match (self, o) {
            (Out::Err(a, _), Out::Err(b, _)) => a == b,
            (Out::Ok(a), Out::Ok(b)) => a == b || format!("{:?}", a) == format!("{:?}", b),
            (Out::Panic(_), Out::Panic(_)) => true,
            _ => false,
        }
    }
    pub fn brief(&self) -> String {
        let s = match self {
            Out::Ok(p) => format!("Ok({:?})", p),
            Out::Err(k, m) => format!("Err({:?}: {})", k, m),
            Out::Panic(m) => format!("PANIC({})", m),
        };
        if s.chars().count() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s }
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static CURRENT: RefCell<String> = RefCell::new(String::new());
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            let s = format!("{}", i).replace('\n', " ");
            PANIC_MSG.with(|m| *m.borrow_mut() = s);
        } else {
            old(i);
        }
    }));
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let q = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|x| x.set(q));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}
// Bytes allocated and edges executed inside the last monitored call, per thread.
thread_local! { static LAST_COST: Cell<(u64, u64)> = const { Cell::new((0, 0)) }; }
pub fn last_cost() -> (u64, u64) { LAST_COST.with(|c| c.get()) }

pub fn current() -> String { CURRENT.with(|c| c.borrow().clone()) }
pub fn set_current(s: &str) { CURRENT.with(|c| { let mut c = c.borrow_mut(); c.clear(); c.push_str(s); }); }
pub fn call(p: &mut NmeaParser, s: &str) -> Out {
    set_current(s);
    let (b0, s0) = (total_bytes(), steps());
    LIMIT.with(|l| l.set(s0 + STEP_LIMIT));
    let r = guarded(|| p.parse_sentence(s));
    LIMIT.with(|l| l.set(u64::MAX));
    LAST_COST.with(|c| c.set((total_bytes() - b0, steps() - s0)));
    match r {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err(ParseError::UnsupportedSentenceType(m))) => Out::Err(Kind::Unsupported, m),
        Ok(Err(ParseError::CorruptedSentence(m))) => Out::Err(Kind::Corrupted, m),
        Ok(Err(ParseError::InvalidSentence(m))) => Out::Err(Kind::Invalid, m),
        Err(m) => Out::Panic(m),
    }
}
/// Outcome of one sentence on a new parser.
pub fn once(s: &str) -> Out { call(&mut NmeaParser::new(), s) }
