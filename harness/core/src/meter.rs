//! Heap meter: what the program under test would use of its on-chain heap.
//!
//! On chain the program allocates from a 32 KiB region with a bump pointer
//! that is never moved back.  The same arithmetic is applied to the
//! allocations the program makes while it runs here; those made by the
//! simulated runtime (inside syscalls and called programs) are left out.
//!
//! It also reads the CPU time the program's own code takes, and lets a
//! watchdog see how long the run in progress has been going on.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// pinocchio's bump allocator keeps its pointer in the first 8 bytes.
pub const ROOM: usize = 32 * 1024 - 8;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static USED: Cell<usize> = const { Cell::new(0) };
    static N: Cell<u64> = const { Cell::new(0) };
    static SINCE: Cell<u64> = const { Cell::new(0) };
    static PAUSED: Cell<u64> = const { Cell::new(0) };
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}

/// A transaction has at most 1.4 million compute units, about as many
/// machine instructions; code that runs this long executes a hundred times
/// more, on whatever machine.
pub const CPU_LIMIT: Duration = Duration::from_millis(60);
/// A program run that has taken this much CPU time is not going to return.
pub const HUNG: Duration = Duration::from_secs(20);

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
}
fn clock(id: i32) -> u64 {
    let mut t = Timespec { s: 0, ns: 0 };
    if unsafe { clock_gettime(id, &mut t) } != 0 {
        return 0;
    }
    t.s as u64 * 1_000_000_000 + t.ns as u64
}
const THREAD_CPUTIME: i32 = 3;

/// What a worker thread is doing.
#[derive(Default)]
pub struct Slot {
    clock: i32,
    since: AtomicU64,
    pub case: AtomicU64,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(vec![]);

/// Makes this thread's program runs visible to `hung`, until dropped.
pub struct Worker(pub Arc<Slot>);
pub fn worker() -> Worker {
    let mut clock = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut clock) };
    let s = Arc::new(Slot { clock, ..Default::default() });
    SLOTS.lock().unwrap().push(s.clone());
    SLOT.with(|c| *c.borrow_mut() = Some(s.clone()));
    Worker(s)
}
impl Drop for Worker {
    fn drop(&mut self) {
        SLOT.with(|c| *c.borrow_mut() = None);
        SLOTS.lock().unwrap().retain(|s| !Arc::ptr_eq(s, &self.0));
    }
}
/// The case whose program run has gone on for longer than `HUNG`.
pub fn hung() -> Option<u64> {
    let slots = SLOTS.lock().unwrap();
    slots.iter().find_map(|s| {
        let t = s.since.load(Ordering::Acquire);
        let over = t != 0 && clock(s.clock).saturating_sub(t) > HUNG.as_nanos() as u64;
        // the run may have ended between the two readings
        (over && s.since.load(Ordering::Acquire) == t).then(|| s.case.load(Ordering::Relaxed))
    })
}

pub struct Meter;

fn note(size: usize, align: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            // the region grows downwards from an aligned end
            let u = USED.with(|u| u.get()).saturating_add(size);
            let u = u.checked_next_multiple_of(align.max(1)).unwrap_or(usize::MAX);
            USED.with(|c| c.set(u));
            N.with(|c| c.set(c.get() + 1));
        }
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size(), l.align());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size(), l.align());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n, l.align());
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

/// Starts metering a program run; dropping it restores the caller's reading.
pub struct Run(bool, usize, u64, u64, u64);
pub fn run() -> Run {
    let now = clock(THREAD_CPUTIME).max(1);
    SLOT.with(|s| {
        if let Some(s) = &*s.borrow() {
            s.since.store(now, Ordering::Release);
        }
    });
    Run(
        ON.with(|c| c.replace(true)),
        USED.with(|c| c.replace(0)),
        N.with(|c| c.replace(0)),
        SINCE.with(|c| c.replace(now)),
        PAUSED.with(|c| c.replace(0)),
    )
}
impl Run {
    /// (bytes of heap, allocations)
    pub fn heap(&self) -> (usize, u64) {
        (USED.with(|c| c.get()), N.with(|c| c.get()))
    }
    /// CPU time of the program's own code.
    pub fn cpu(&self) -> Duration {
        let d = clock(THREAD_CPUTIME).saturating_sub(SINCE.with(|c| c.get()));
        Duration::from_nanos(d.saturating_sub(PAUSED.with(|c| c.get())))
    }
}
impl Drop for Run {
    fn drop(&mut self) {
        ON.with(|c| c.set(self.0));
        USED.with(|c| c.set(self.1));
        N.with(|c| c.set(self.2));
        SINCE.with(|c| c.set(self.3));
        PAUSED.with(|c| c.set(self.4));
        SLOT.with(|s| {
            if let Some(s) = &*s.borrow() {
                s.since.store(self.3, Ordering::Release);
            }
        });
    }
}

/// Suspends metering (runtime work on behalf of the program).
pub struct Pause(bool, u64);
pub fn pause() -> Pause {
    let on = ON.with(|c| c.replace(false));
    Pause(on, if on { clock(THREAD_CPUTIME) } else { 0 })
}
impl Drop for Pause {
    fn drop(&mut self) {
        if self.0 {
            let d = clock(THREAD_CPUTIME).saturating_sub(self.1);
            PAUSED.with(|c| c.set(c.get() + d));
        }
        ON.with(|c| c.set(self.0));
    }
}
