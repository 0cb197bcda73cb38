//! Panic capture, allocation counting, the ledger of payloads, step budgets.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Once;

// ---------------------------------------------------------------- allocation

pub struct CountingAlloc;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
fn grown(by: i64) {
    let _ = LIVE.try_with(|c| {
        let n = c.get() + by;
        c.set(n);
        let _ = PEAK.try_with(|p| p.set(p.get().max(n)));
    });
}
// SAFETY: forwards everything to the system allocator.
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        grown(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grown(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        grown(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        // For a while both may be there.
        grown(n as i64);
        grown(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
/// Number of heap allocations made by this thread so far.
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}
/// Bytes that this thread has allocated and not yet given back.
pub fn live_bytes() -> i64 {
    LIVE.with(|c| c.get())
}
/// The most that `live_bytes` was since the last call of this function.
pub fn take_peak() -> i64 {
    let now = live_bytes();
    PEAK.with(|c| c.replace(now))
}
/// Forgets the message of the last panic, which takes memory.
pub fn forget_message() {
    LAST.with(|l| *l.borrow_mut() = String::new());
}

// -------------------------------------------------------------------- panics

/// Message of panics raised on purpose by user code of the harness (hooks, `Clone`).
pub const USER_PANIC: &str = "[user] panic on purpose";

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum PanicClass {
    Precondition,
    Consistency,
    Unmarked,
    User,
    OutOfSteps,
}

#[derive(Clone, Debug)]
pub struct Panicked {
    pub class: PanicClass,
    pub msg: String,
}

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
static HOOK: Once = Once::new();

pub fn install_panic_hook() {
    HOOK.call_once(|| {
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if QUIET.with(|q| q.get()) > 0 {
                let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = info.payload().downcast_ref::<String>() {
                    s.clone()
                } else {
                    "<no message>".to_string()
                };
                let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line()));
                LAST.with(|l| *l.borrow_mut() = msg + &loc.unwrap_or_default());
            } else {
                old(info);
            }
        }));
    });
}

fn classify(msg: &str) -> PanicClass {
    if msg.starts_with(USER_PANIC) {
        PanicClass::User
    } else if msg.contains("[treena_verif]") {
        PanicClass::OutOfSteps
    } else if msg.contains("[consistency]") {
        PanicClass::Consistency
    } else if msg.contains("[precondition]") {
        PanicClass::Precondition
    } else {
        PanicClass::Unmarked
    }
}

/// Runs `f` and keeps what is known of the last panic before it.
pub fn keep_message<R>(f: impl FnOnce() -> R) -> R {
    let old = LAST.with(|l| l.borrow().clone());
    let r = f();
    LAST.with(|l| *l.borrow_mut() = old);
    r
}

/// Runs `f`, and returns what it panicked with.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|_| {
        let msg = LAST.with(|l| l.borrow().clone());
        Panicked { class: classify(&msg), msg }
    })
}

// --------------------------------------------------------------------- steps

/// Node accesses by this thread, as counted by the hook in treena.
pub fn steps() -> u64 {
    treena::verif_hook::steps()
}
/// Lets treena panic after `n` more node accesses, so that endless loops end.
pub fn budget(n: u64) {
    treena::verif_hook::set_budget(n)
}

// -------------------------------------------------------------------- ledger

pub struct Ledger {
    /// State by serial: true while the value lives.
    live: Vec<bool>,
    nlive: usize,
    clone_fuel: Option<u64>,
    /// Serial numbers of (original, copy) for each `Clone` of a payload.
    clones: Vec<(u32, u32)>,
}
thread_local! {
    static LEDGER: RefCell<Ledger> = const { RefCell::new(Ledger { live: Vec::new(), nlive: 0, clone_fuel: None, clones: Vec::new() }) };
}

pub mod ledger {
    use super::LEDGER;
    pub fn reset() {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.live.clear();
            l.nlive = 0;
            l.clone_fuel = None;
            l.clones.clear();
        })
    }
    pub fn nlive() -> usize {
        LEDGER.with(|l| l.borrow().nlive)
    }
    pub fn next() -> u32 {
        LEDGER.with(|l| l.borrow().live.len() as u32)
    }
    pub fn is_live(s: u32) -> bool {
        LEDGER.with(|l| l.borrow().live.get(s as usize).copied().unwrap_or(false))
    }
    pub fn set_fuel(f: Option<u64>) {
        LEDGER.with(|l| l.borrow_mut().clone_fuel = f)
    }
    pub fn take_clones() -> Vec<(u32, u32)> {
        LEDGER.with(|l| std::mem::take(&mut l.borrow_mut().clones))
    }
    /// Serials in `from..` that are live.
    pub fn live_since(from: u32) -> Vec<u32> {
        LEDGER.with(|l| {
            let l = l.borrow();
            (from..l.live.len() as u32).filter(|s| l.live[*s as usize]).collect()
        })
    }
}

/// Value stored in nodes: every instance has its own serial number, and the
/// ledger knows which instances live.
#[derive(PartialEq, Eq)]
pub struct Payload {
    pub serial: u32,
    pub val: u32,
}

impl Payload {
    pub fn new(val: u32) -> Self {
        let serial = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.live.push(true);
            l.nlive += 1;
            (l.live.len() - 1) as u32
        });
        Payload { serial, val }
    }
}

impl Clone for Payload {
    fn clone(&self) -> Self {
        let blow = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            match &mut l.clone_fuel {
                Some(0) => true,
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            }
        });
        if blow {
            panic!("{}", USER_PANIC);
        }
        crate::side::pulse();
        let new = Payload::new(self.val);
        LEDGER.with(|l| l.borrow_mut().clones.push((self.serial, new.serial)));
        new
    }
}

impl Drop for Payload {
    fn drop(&mut self) {
        crate::side::pulse();
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            if let Some(x) = l.live.get_mut(self.serial as usize) {
                if *x {
                    *x = false;
                    l.nlive -= 1;
                }
            }
        })
    }
}

/// Fragments of the text of a value. Multi-line, empty and split texts all occur.
pub fn label(val: u32) -> Vec<String> {
    let s = format!("n{}", val / 16);
    let f = |v: &[&str]| v.iter().map(|x| x.replace('$', &s)).collect();
    match val % 16 {
        0..=5 => f(&["$"]),
        6 => f(&["$\nsecond $"]),
        7 => f(&["$", "-tail"]),
        8 => f(&["$", "\n", "b$", "c\nd", "e"]),
        9 => f(&[]),
        10 => f(&["$\n\nthird"]),
        11 => f(&["", "$", ""]),
        12 => f(&["$\n", "x\n", "y"]),
        13 => f(&["$ with spaces\n  indented"]),
        14 => f(&["\n", "$"]),
        _ => f(&["\u{30c4}\u{30ea}\u{30fc}$\n\u{1f332}", "z"]),
    }
}

impl fmt::Display for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, s) in label(self.val).into_iter().enumerate() {
            if i < 2 {
                crate::side::pulse();
            }
            f.write_str(&s)?;
        }
        Ok(())
    }
}
impl fmt::Debug for Payload {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("P(")?;
        crate::side::pulse();
        for s in label(self.val) {
            f.write_str(&s)?;
        }
        f.write_str(")")
    }
}

// ---------------------------------------------------------------------- hash

/// FNV-1a, so that hashes are the same in every build and run.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
}
pub fn hash_of(v: &impl Hash) -> u64 {
    let mut h = Fnv::default();
    v.hash(&mut h);
    h.finish()
}

/// Processor time of this thread, in nanoseconds.
pub fn cpu_ns() -> u64 {
    #[repr(C)]
    struct T(i64, i64);
    extern "C" {
        fn clock_gettime(clock: i32, t: *mut T) -> i32;
    }
    let mut t = T(0, 0);
    // 3: CLOCK_THREAD_CPUTIME_ID.
    let r = unsafe { clock_gettime(3, &mut t) };
    if r == 0 { t.0 as u64 * 1_000_000_000 + t.1 as u64 } else { 0 }
}
