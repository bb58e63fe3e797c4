//! Common machinery: random numbers, instrumented element types, allocation counting, panics.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::Mutex;

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n (0 if n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    /// A position in 0..=n, biased to the ends and to multiples of the node width.
    pub fn position(&mut self, n: usize) -> usize {
        let w = librrb::RRB_WIDTH;
        let p = match self.below(8) {
            0 => self.below(3),
            1 => n.saturating_sub(self.below(3)),
            2 => (w * self.below(n / w + 1) + self.below(3)).saturating_sub(1),
            3 => n - n.min(w * self.below(n / w + 1) + self.below(3)),
            4 => self.below(n.min(2 * w) + 1),
            5 => n - self.below(n.min(2 * w) + 1),
            _ => self.below(n + 1),
        };
        p.min(n)
    }
    /// A sub-range of 0..=n.
    pub fn subrange(&mut self, n: usize) -> (usize, usize) {
        let a = self.position(n);
        let b = if self.chance(1, 5) {
            (a + self.below(5)).min(n)
        } else {
            self.position(n)
        };
        (a.min(b), a.max(b))
    }
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = h.rotate_left(5) ^ v.wrapping_mul(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
    z ^ (z >> 32)
}

// ---------------------------------------------------------------- allocation counting
pub struct Counting;
pub static ALLOC_LIVE: AtomicI64 = AtomicI64::new(0);
pub static ALLOC_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static ALLOC_TOTAL: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOC_LIVE.fetch_add(l.size() as i64, Relaxed);
        ALLOC_BLOCKS.fetch_add(1, Relaxed);
        ALLOC_TOTAL.fetch_add(l.size() as u64, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        ALLOC_LIVE.fetch_sub(l.size() as i64, Relaxed);
        ALLOC_BLOCKS.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        ALLOC_LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        ALLOC_TOTAL.fetch_add(n.saturating_sub(l.size()) as u64, Relaxed);
        System.realloc(p, l, n)
    }
}

// ---------------------------------------------------------------- monitor verdicts
static VIOL_SET: AtomicBool = AtomicBool::new(false);
static VIOL: Mutex<Option<String>> = Mutex::new(None);

/// Records the first violation an instrumented element notices.
pub fn report(msg: String) {
    if !VIOL_SET.swap(true, SeqCst) {
        *VIOL.lock().unwrap() = Some(msg);
    }
}
pub fn reported() -> Option<String> {
    if VIOL_SET.load(SeqCst) {
        VIOL.lock().unwrap().clone()
    } else {
        None
    }
}

// ---------------------------------------------------------------- progress
/// Where the process is: which case, and whether what runs now is what the property is about.
/// Kept in a file so that a crash can be attributed.
static PROGRESS: Mutex<Option<std::fs::File>> = Mutex::new(None);
pub static CASE: AtomicU64 = AtomicU64::new(0);
pub static CASE_NO: AtomicU64 = AtomicU64::new(0);
pub static OWNED: AtomicU8 = AtomicU8::new(0);
pub static MULTI: AtomicBool = AtomicBool::new(false);
pub fn open_progress(path: &str) {
    *PROGRESS.lock().unwrap() = std::fs::File::create(path).ok();
}
fn write_progress() {
    if let Some(f) = &*PROGRESS.lock().unwrap() {
        use std::os::unix::fs::FileExt;
        let mut b = [0u8; 9];
        b[..8].copy_from_slice(&CASE.load(SeqCst).to_le_bytes());
        b[8] = OWNED.load(SeqCst);
        let _ = f.write_all_at(&b, 0);
    }
}
pub fn begin_case(seed: u64) {
    CASE.store(seed, SeqCst);
    CASE_NO.fetch_add(1, SeqCst);
    MULTI.store(false, SeqCst);
    OWNED.store(0, SeqCst);
    write_progress();
}
/// From here on several threads run what the property is about.
pub fn multi() {
    phase(true);
    MULTI.store(true, SeqCst);
}
/// Says whether the calls that follow are those the property is about.
pub fn phase(owned: bool) {
    if MULTI.load(Relaxed) {
        return;
    }
    if OWNED.swap(owned as u8, SeqCst) != owned as u8 {
        write_progress();
    }
}

// ---------------------------------------------------------------- panics
thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub struct Injected;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if p.downcast_ref::<Injected>().is_some() {
            "injected".to_string()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("panic '{}' at {}", msg, loc));
    }));
}

/// Runs `f`; a panic becomes Err with its message and place.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|c| c.borrow().clone()))
}

// ---------------------------------------------------------------- fault injection
pub const F_CLONE: u8 = 1;
pub const F_CMP: u8 = 2;
pub const F_EQ: u8 = 4;
pub const F_HASH: u8 = 8;
pub const F_CALL: u8 = 16;
pub const F_DROP: u8 = 32;
static FUSE_MASK: AtomicU8 = AtomicU8::new(0);
static FUSE: AtomicI64 = AtomicI64::new(i64::MAX);
pub static CALLBACKS: AtomicU64 = AtomicU64::new(0);

/// The `n`-th callback (from 0) whose kind is in `mask` will panic.
pub fn arm(mask: u8, n: u64) {
    FUSE_MASK.store(mask, SeqCst);
    FUSE.store(n as i64, SeqCst);
}
pub fn disarm() {
    FUSE_MASK.store(0, SeqCst);
}
pub fn fuse(kind: u8) {
    if FUSE_MASK.load(Relaxed) & kind != 0 {
        CALLBACKS.fetch_add(1, Relaxed);
        if FUSE.fetch_sub(1, Relaxed) == 0 {
            std::panic::panic_any(Injected);
        }
    }
}

// ---------------------------------------------------------------- element types
pub trait Elem: Clone + Debug + Ord + std::hash::Hash + Send + Sync + 'static {
    const NAME: &'static str;
    /// Whether values can be told apart.
    const VALUED: bool = true;
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    fn norm(v: u64) -> u64 {
        v
    }
}

impl Elem for u64 {
    const NAME: &'static str = "u64";
    fn mk(v: u64) -> u64 {
        v
    }
    fn val(&self) -> u64 {
        *self
    }
}
impl Elem for u8 {
    const NAME: &'static str = "u8";
    fn mk(v: u64) -> u8 {
        (v ^ (v >> 8)) as u8
    }
    fn val(&self) -> u64 {
        *self as u64
    }
    fn norm(v: u64) -> u64 {
        (v ^ (v >> 8)) & 0xff
    }
}
impl Elem for Box<u64> {
    const NAME: &'static str = "Box<u64>";
    fn mk(v: u64) -> Self {
        Box::new(v)
    }
    fn val(&self) -> u64 {
        **self
    }
}
impl Elem for String {
    const NAME: &'static str = "String";
    fn mk(v: u64) -> Self {
        format!("{:024}", v)
    }
    fn val(&self) -> u64 {
        self.parse().unwrap()
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Big([u64; 21]);
impl Elem for Big {
    const NAME: &'static str = "[u64;21]";
    fn mk(v: u64) -> Self {
        let mut a = [0; 21];
        for (i, x) in a.iter_mut().enumerate() {
            *x = v.wrapping_add(i as u64);
        }
        Big(a)
    }
    fn val(&self) -> u64 {
        for (i, x) in self.0.iter().enumerate() {
            if *x != self.0[0].wrapping_add(i as u64) {
                report(format!("torn element: {:?}", self.0));
            }
        }
        self.0[0]
    }
}

/// Zero-sized, counted.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Zst;
pub static ZST_LIVE: AtomicI64 = AtomicI64::new(0);
impl Clone for Zst {
    fn clone(&self) -> Self {
        fuse(F_CLONE);
        ZST_LIVE.fetch_add(1, SeqCst);
        Zst
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        if ZST_LIVE.fetch_sub(1, SeqCst) <= 0 {
            report("zero-sized element dropped more often than created".into());
        }
    }
}
impl Elem for Zst {
    const NAME: &'static str = "()-like";
    const VALUED: bool = false;
    fn mk(_: u64) -> Self {
        ZST_LIVE.fetch_add(1, SeqCst);
        Zst
    }
    fn val(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}

/// An element with an identity whose life is followed: born, live, dropped.
pub const TABLE: usize = if cfg!(miri) { 1 << 14 } else { 1 << 22 };
static TAB: [AtomicU8; TABLE] = [const { AtomicU8::new(0) }; TABLE];
static NEXT: AtomicUsize = AtomicUsize::new(1);
pub static TR_LIVE: AtomicI64 = AtomicI64::new(0);
pub static TR_BORN: AtomicU64 = AtomicU64::new(0);
pub static TR_CLONES: AtomicU64 = AtomicU64::new(0);

pub struct Tr {
    v: u64,
    id: usize,
    heap: Box<u64>,
}

impl Tr {
    fn born(v: u64) -> Tr {
        let id = NEXT.fetch_add(1, SeqCst);
        if id < TABLE {
            TAB[id].store(1, SeqCst);
        }
        TR_LIVE.fetch_add(1, SeqCst);
        TR_BORN.fetch_add(1, Relaxed);
        Tr { v, id, heap: Box::new(v ^ id as u64) }
    }
    fn check(&self, what: &str) {
        let st = if self.id == 0 { 9 } else if self.id < TABLE { TAB[self.id].load(SeqCst) } else { 1 };
        if st != 1 {
            report(format!("{} of an element that is not live (id {}, value {}, state {})", what, self.id, self.v, st));
        } else if *self.heap != self.v ^ self.id as u64 {
            report(format!("{} of a corrupted element (id {}, value {})", what, self.id, self.v));
        }
    }
}
impl Clone for Tr {
    fn clone(&self) -> Self {
        self.check("clone");
        fuse(F_CLONE);
        TR_CLONES.fetch_add(1, Relaxed);
        Tr::born(self.v)
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        if self.id < TABLE {
            let old = TAB[self.id].swap(2, SeqCst);
            if old != 1 {
                report(format!("element dropped twice or never created (id {}, value {}, state {})", self.id, self.v, old));
                // Do not free the heap part again.
                let h = std::mem::replace(&mut self.heap, Box::new(0));
                std::mem::forget(h);
                return;
            }
        }
        TR_LIVE.fetch_sub(1, SeqCst);
        if FUSE_MASK.load(Relaxed) & F_DROP != 0 && !std::thread::panicking() {
            fuse(F_DROP);
        }
    }
}
impl Debug for Tr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.check("format");
        write!(f, "{}", self.v)
    }
}
impl PartialEq for Tr {
    fn eq(&self, o: &Tr) -> bool {
        self.check("eq");
        o.check("eq");
        fuse(F_EQ);
        self.v == o.v
    }
}
impl Eq for Tr {}
impl PartialOrd for Tr {
    fn partial_cmp(&self, o: &Tr) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tr {
    fn cmp(&self, o: &Tr) -> std::cmp::Ordering {
        self.check("cmp");
        o.check("cmp");
        fuse(F_CMP);
        self.v.cmp(&o.v)
    }
}
impl std::hash::Hash for Tr {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.check("hash");
        fuse(F_HASH);
        self.v.hash(h)
    }
}
impl Elem for Tr {
    const NAME: &'static str = "tracked";
    fn mk(v: u64) -> Self {
        Tr::born(v)
    }
    fn val(&self) -> u64 {
        self.check("read");
        self.v
    }
}

/// Forgets everything recorded (between cases).
pub fn reset_monitors() {
    let n = NEXT.swap(1, SeqCst).min(TABLE);
    for t in TAB.iter().take(n) {
        t.store(0, Relaxed);
    }
    TR_LIVE.store(0, SeqCst);
    TR_BORN.store(0, SeqCst);
    TR_CLONES.store(0, SeqCst);
    ZST_LIVE.store(0, SeqCst);
    VIOL_SET.store(false, SeqCst);
    if let Ok(mut v) = VIOL.lock() {
        *v = None;
    }
    disarm();
}

// ---------------------------------------------------------------- outcomes
#[derive(Default, Clone)]
pub struct Info {
    /// Distinguishes this case from others.
    pub fp: u64,
    pub trivial: bool,
    /// What the case did.
    pub counts: std::collections::BTreeMap<String, u64>,
    pub sample: String,
}
impl Info {
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(x) = self.counts.get_mut(k) {
            *x += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(format!("max {}", k)).or_insert(0);
        *e = (*e).max(n);
    }
}
pub enum Out {
    Held(Info),
    Violated(String),
    Inconclusive(String),
}

/// Whether this runs under Miri with its default aliasing model.
pub fn stacked_borrows() -> bool {
    cfg!(miri) && std::env::var_os("LIBRRB_TREE_BORROWS").is_none()
}
