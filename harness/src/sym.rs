//! Interface to the symbolic executor. In the native replay build the same symbols are provided by the
//! replay binary, which reads the input values of one path from a file.
extern "C-unwind" {
    pub fn sym_u8() -> u8;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, p: *const u8, n: usize);
    fn sym_cover(p: *const u8, n: usize);
    fn sym_observe(v: u64);
    fn sym_fix(v: u64) -> u64;
    fn sym_param(i: u64, default: u64) -> u64;
    fn sym_panic_ok(ok: bool);
    fn sym_end() -> !;
}

/// arbitrary byte
pub fn any() -> u8 {
    unsafe { sym_u8() }
}
/// arbitrary byte below `n`, kept symbolic
pub fn below(n: u8) -> u8 {
    let v = any();
    assume(v < n);
    v
}
/// arbitrary choice in 0..n; the executor explores every feasible value
pub fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let v = any();
    assume((v as usize) < n);
    fix(v as u64) as usize
}
pub fn flag() -> bool {
    choose(2) == 1
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, msg: &'static str) {
    unsafe { sym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &'static str) {
    unsafe { sym_cover(msg.as_ptr(), msg.len()) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn fix(v: u64) -> u64 {
    unsafe { sym_fix(v) }
}
pub fn param(i: u64, default: u64) -> usize {
    unsafe { sym_param(i, default) as usize }
}
/// a panic of the code under test past this point is an allowed outcome (or not)
pub fn panic_ok(ok: bool) {
    unsafe { sym_panic_ok(ok) }
}
pub fn end() -> ! {
    unsafe { sym_end() }
}
