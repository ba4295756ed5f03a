//! Callbacks at the basic blocks of the library (of the code under test only, not of its
//! dependencies and not of the harness), for schedules which preempt between any two of them.
//!
//! The crates are compiled with LLVM's coverage instrumentation (see tools/rustc-fine). It is
//! filtered here, by the source file which a block belongs to.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

thread_local! {
    /// Whether the running thread is preempted at basic blocks.
    pub static ON: Cell<bool> = const { Cell::new(false) };
}

static GUARDS: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static PCS: [AtomicUsize; 2] = [AtomicUsize::new(0), AtomicUsize::new(0)];
static AVAILABLE: AtomicBool = AtomicBool::new(false);

/// Whether the library is compiled with the instrumentation.
pub fn available() -> bool {
    AVAILABLE.load(Ordering::Relaxed)
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(from: *mut u32, to: *mut u32) {
    GUARDS[0].store(from as usize, Ordering::Relaxed);
    GUARDS[1].store(to as usize, Ordering::Relaxed);
}

#[no_mangle]
extern "C" fn __sanitizer_cov_pcs_init(from: *const usize, to: *const usize) {
    PCS[0].store(from as usize, Ordering::Relaxed);
    PCS[1].store(to as usize, Ordering::Relaxed);
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    // set only by `init`, before there are any threads
    if unsafe { *guard } != 0 && ON.with(|f| f.get()) {
        crate::sched::point();
    }
}

/// Whether a block belongs to the library, also after inlining.
fn wanted(pc: usize) -> bool {
    let (mut library, mut excluded) = (false, false);
    // all the functions which it was inlined into; it looks up the address before the given one
    backtrace::resolve((pc + 1) as *mut _, |s| {
        let file = s.filename().map_or_else(String::new, |f| f.to_string_lossy().into_owned());
        library |= file.contains("/repo/src/");
        // The stand-in for std's locks has its own points. Code which holds a real lock or
        // spins must not be interrupted.
        excluded |= ["/repo/src/verif", "/futures-channel", "/std/src/sync/"].iter().any(|x| file.contains(x));
    });
    library && !excluded
}

/// Enables the callbacks of the library's blocks; how many there are.
pub fn init() -> usize {
    let [from, to] = [0, 1].map(|i| GUARDS[i].load(Ordering::Relaxed));
    let pcs = PCS[0].load(Ordering::Relaxed);
    if from == 0 || pcs == 0 {
        return 0;
    }
    let mut n = 0;
    for i in 0..(to - from) / 4 {
        let pc = unsafe { *(pcs as *const usize).add(i * 2) };
        if pc != 0 && wanted(pc) {
            unsafe { *(from as *mut u32).add(i) = 1 };
            n += 1;
        }
    }
    AVAILABLE.store(n > 0, Ordering::Relaxed);
    n
}
