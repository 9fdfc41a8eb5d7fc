//! Safe face of hooks.c.
mod sys {
    extern "C" {
        pub fn tracer_set(v: i32);
        pub fn tracer_edges() -> u64;
        pub fn tracer_features() -> u64;
        pub fn tracer_guards() -> u64;
        pub fn tracer_events() -> u64;
        pub fn tracer_pair(i: u32, a: *mut u64, b: *mut u64) -> i32;
        pub fn tracer_reset();
    }
}
pub fn set(on: bool) {
    unsafe { sys::tracer_set(on as i32) }
}
/// edges reached, comparison features seen, edges there are, comparisons observed
pub fn counts() -> [u64; 4] {
    unsafe { [sys::tracer_edges(), sys::tracer_features(), sys::tracer_guards(), sys::tracer_events()] }
}
/// Did anything new happen since the last call with this state?
pub fn fresh(last: &mut u64) -> bool {
    let n = unsafe { sys::tracer_edges() + sys::tracer_features() };
    let f = n != *last;
    *last = n;
    f
}
pub fn pair(i: u32) -> Option<(u64, u64)> {
    let (mut a, mut b) = (0, 0);
    if unsafe { sys::tracer_pair(i, &mut a, &mut b) } != 0 { Some((a, b)) } else { None }
}
pub fn reset() {
    unsafe { sys::tracer_reset() }
}
