//! What the compiler's coverage counters say; only in the "counted" variants.
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

extern "C" {
    #[link_name = "__start___llvm_prf_cnts"]
    static COUNTS_FROM: u64;
    #[link_name = "__stop___llvm_prf_cnts"]
    static COUNTS_TO: u64;
}
/// Code regions of the library (and the harness) executed so far; the standard library's are not counted.
#[inline(never)]
pub fn executed() -> u64 {
    let (p, q) = std::hint::black_box((&raw const COUNTS_FROM, &raw const COUNTS_TO));
    // The loop is the standard library's, so it does not count itself.
    unsafe { std::slice::from_raw_parts(p, q.offset_from(p) as usize) }.iter().sum()
}

static FROM: AtomicU64 = AtomicU64::new(0);
static BOUND: AtomicU64 = AtomicU64::new(0);
static WHAT: Mutex<String> = Mutex::new(String::new());

/// Announces a call, so that one that goes on and on is noticed before it ends.
pub fn start(what: String, bound: f64) -> u64 {
    *WHAT.lock().unwrap() = what;
    let n = executed();
    FROM.store(n, SeqCst);
    BOUND.store(bound as u64, SeqCst);
    n
}
pub fn stop(from: u64) -> u64 {
    let n = executed().wrapping_sub(from);
    BOUND.store(0, SeqCst);
    n
}
/// The call that is running if it is past its bound. Run by the watchdog.
pub fn overdue() -> Option<String> {
    let b = BOUND.load(SeqCst);
    let n = executed().wrapping_sub(FROM.load(SeqCst));
    // The running thread may have gone on in between: only a wide margin counts.
    if b == 0 || n < b.saturating_mul(3) || n > 1 << 60 || BOUND.load(SeqCst) != b {
        return None;
    }
    let what = WHAT.lock().unwrap().clone();
    Some(format!("{} executed {} code regions (bound {}) and was still running", what, n, b))
}
