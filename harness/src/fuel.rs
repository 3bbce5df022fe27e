//! Deterministic step budgets. Non-termination of the code under test shows as an exhausted budget, which is a
//! pure function of the case, instead of a time-out.

use std::cell::Cell;

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    static GETS: Cell<u64> = const { Cell::new(0) };
    static CMPS: Cell<u64> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static RELEASES: Cell<u64> = const { Cell::new(0) };
    /// Panic when this many more comparisons have been made.
    static CMP_FUSE: Cell<u64> = const { Cell::new(u64::MAX) };
    static FACTOR: Cell<u64> = const { Cell::new(1) };
    static RAN_OUT: Cell<bool> = const { Cell::new(false) };
}

pub const EXHAUSTED: &str = "STEPS: step budget exhausted (non-termination)";

pub fn reset() {
    FUEL.with(|f| f.set(u64::MAX));
    GETS.with(|f| f.set(0));
    CMPS.with(|f| f.set(0));
    ALLOCS.with(|f| f.set(0));
    RELEASES.with(|f| f.set(0));
    CMP_FUSE.with(|f| f.set(u64::MAX));
}

fn step() {
    FUEL.with(|f| {
        let v = f.get();
        if v == 0 {
            // Give the unwinding code room to release things.
            f.set(u64::MAX);
            RAN_OUT.with(|r| r.set(true));
            if std::thread::panicking() {
                return;
            }
            panic!("{EXHAUSTED}");
        }
        if v != u64::MAX {
            f.set(v - 1);
        }
    })
}

/// Runs `f` with at most `n` steps (node accesses + comparisons).
pub fn with<R>(n: u64, f: impl FnOnce() -> R) -> R {
    FUEL.with(|c| c.set(n.saturating_mul(FACTOR.with(|f| f.get()))));
    let r = f();
    FUEL.with(|c| c.set(u64::MAX));
    r
}
/// Whether a budget was exhausted since this was last asked.
pub fn ran_out() -> bool {
    RAN_OUT.with(|r| r.replace(false))
}
/// Multiplies every budget from now on.
pub fn set_factor(n: u64) {
    FACTOR.with(|f| f.set(n))
}
pub fn unlimited() {
    FUEL.with(|c| c.set(u64::MAX));
}
/// Budget generous enough for any single operation on a tree of n items.
pub fn for_len(n: usize) -> u64 {
    20_000 + 64 * n as u64
}

pub fn get() {
    GETS.with(|c| c.set(c.get() + 1));
    step();
}
pub fn cmp() {
    CMPS.with(|c| c.set(c.get() + 1));
    CMP_FUSE.with(|c| {
        let v = c.get();
        if v == 0 {
            c.set(u64::MAX);
            panic!("{}", crate::ledger::INJECTED);
        }
        if v != u64::MAX {
            c.set(v - 1)
        }
    });
    step();
}
pub fn alloc() {
    ALLOCS.with(|c| c.set(c.get() + 1));
    step();
}
pub fn release() {
    RELEASES.with(|c| c.set(c.get() + 1));
    step();
}
pub fn gets() -> u64 {
    GETS.with(|c| c.get())
}
pub fn cmps() -> u64 {
    CMPS.with(|c| c.get())
}
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}
pub fn releases() -> u64 {
    RELEASES.with(|c| c.get())
}
pub fn set_cmp_fuse(n: Option<u64>) {
    CMP_FUSE.with(|c| c.set(n.unwrap_or(u64::MAX)));
}
pub fn cmp_fuse_armed() -> bool {
    CMP_FUSE.with(|c| c.get() != u64::MAX)
}
