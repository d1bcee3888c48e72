//! Run-time side of the edge instrumentation (sancov trace-pc-guard) that
//! rustcw.sh switches on for templito, its parser library and the `sut` crate.
//! It gives two things: the set of edges reached (search guidance, coverage
//! figures) and an exact, deterministic count of the work done (fuel), which is
//! what decides "terminates in work proportional to the input", not a clock.
#![allow(static_mut_refs)]

pub const MAX_EDGES: usize = 1 << 18;
pub static mut SEEN: [u8; MAX_EDGES] = [0; MAX_EDGES];
pub static mut NEW_EDGES: u64 = 0;
pub static mut TOTAL_EDGES: u32 = 0;
pub static mut STEPS: u64 = 0;
pub static mut LIMIT: u64 = u64::MAX;
pub static mut ON_FUEL: Option<fn()> = None;
/// called at every edge while set (see the harness's sched.rs)
pub static mut POINT: Option<fn()> = None;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        if (TOTAL_EDGES as usize) < MAX_EDGES - 1 {
            TOTAL_EDGES += 1;
        }
        *p = TOTAL_EDGES;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    STEPS += 1;
    if STEPS > LIMIT {
        LIMIT = u64::MAX;
        if let Some(f) = ON_FUEL {
            f();
        }
    }
    let i = *g as usize;
    if SEEN[i] == 0 {
        SEEN[i] = 1;
        NEW_EDGES += 1;
    }
    if let Some(p) = POINT {
        p();
    }
}

pub fn arm(limit: u64) {
    unsafe {
        STEPS = 0;
        NEW_EDGES = 0;
        LIMIT = limit;
    }
}
/// Start a new fuel budget without forgetting new edges.
pub fn refuel(limit: u64) {
    unsafe {
        STEPS = 0;
        LIMIT = limit;
    }
}
pub fn disarm() {
    unsafe { LIMIT = u64::MAX }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}
pub fn new_edges() -> u64 {
    unsafe { NEW_EDGES }
}
pub fn edges_seen() -> u64 {
    unsafe { SEEN.iter().filter(|&&b| b != 0).count() as u64 }
}
pub fn seen_ids() -> Vec<u32> {
    unsafe { (0..MAX_EDGES).filter(|&i| SEEN[i] != 0).map(|i| i as u32).collect() }
}
pub fn total_edges() -> u64 {
    unsafe { TOTAL_EDGES as u64 }
}
