//! Test knobs of the recorder (not part of the original API).
use std::cell::Cell;

thread_local! {
    /// 0: workers of `assign_regions` all at once; 1: one after the other, in order;
    /// 2: one after the other, in reverse; k > 2: at once, with start delays and a
    /// start order derived from k.
    pub static SCHEDULE: Cell<u64> = const { Cell::new(0) };
    /// How regions are placed. 0: the simple single-pass planner. Otherwise a seed, whose
    /// low bits choose between: the single-pass planner leaving gaps (1 mod 4); the
    /// two-pass planner, biggest regions first, first fit (2 mod 4); the same in an
    /// arbitrary order (3 mod 4), with gaps (0 mod 4).
    pub static PLANNER: Cell<u64> = const { Cell::new(0) };
}
pub fn planner() -> u64 {
    PLANNER.with(|s| s.get())
}
pub fn set_planner(k: u64) {
    PLANNER.with(|s| s.set(k))
}
pub fn schedule() -> u64 {
    SCHEDULE.with(|s| s.get())
}
pub fn set_schedule(k: u64) {
    SCHEDULE.with(|s| s.set(k))
}
pub(crate) fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
