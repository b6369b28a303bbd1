//! Interface to the symbolic executor (and, with the same symbols, to the native replay runner).

extern "C" {
    fn vp_sym(p: *mut u8, n: usize);
    fn vp_choose(n: u64) -> u64;
    fn vp_first(n: u64) -> u64;
    fn vp_assume(c: bool);
    fn vp_assert(c: bool, id: u32);
    fn vp_cover(id: u32);
    fn vp_concretize(v: u64) -> u64;
    fn vp_mem_limit(single: u64, total: u64);
    fn vp_step_limit(n: u64);
    fn vp_split(n: u64);
    fn vp_trace(p: *const u8, n: usize);
    fn vp_tier() -> u64;
    fn vp_print(p: *const u8, n: usize);
    fn vp_mark(n: u64);
}

pub fn sym(b: &mut [u8]) {
    unsafe { vp_sym(b.as_mut_ptr(), b.len()) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    sym(&mut b);
    b
}
pub fn u8_() -> u8 {
    bytes::<1>()[0]
}
pub fn u16_() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32_() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn i32_() -> i32 {
    i32::from_le_bytes(bytes())
}
pub fn u64_() -> u64 {
    u64::from_le_bytes(bytes())
}
/// a symbolic value below 2^w, held in the w low bits
pub fn bits(w: u32) -> u64 {
    if w == 0 {
        return 0;
    }
    u64_() & (u64::MAX >> (64 - w))
}
/// explore n alternatives, each on its own path
pub fn choose(n: u64) -> u64 {
    unsafe { vp_choose(n) }
}
/// the first split of an entry: every alternative is an independent unit of work
pub fn first(n: u64) -> u64 {
    unsafe { vp_first(n) }
}
pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}
pub fn assert_id(c: bool, id: u32) {
    unsafe { vp_assert(c, id) }
}
pub fn cover(id: u32) {
    unsafe { vp_cover(id) }
}
pub fn conc(v: u64) -> u64 {
    unsafe { vp_concretize(v) }
}
pub fn mem_limit(single: u64, total: u64) {
    unsafe { vp_mem_limit(single, total) }
}
pub fn step_limit(n: u64) {
    unsafe { vp_step_limit(n) }
}
/// decide symbolic shift amounts one by one, which keeps the bit reader's position concrete
pub fn split(on: bool) {
    unsafe { vp_split(on as u64) }
}
pub fn trace(b: &[u8]) {
    unsafe { vp_trace(b.as_ptr(), b.len()) }
}
pub fn trace_u64(v: u64) {
    trace(&v.to_le_bytes())
}
pub fn thorough() -> bool {
    unsafe { vp_tier() != 0 }
}
#[allow(dead_code)]
pub fn print(s: &str) {
    unsafe { vp_print(s.as_ptr(), s.len()) }
}
pub fn mark(n: u64) {
    unsafe { vp_mark(n) }
}

/// assertion whose id encodes the property module and the source line
#[macro_export]
macro_rules! va {
    ($c:expr) => {
        $crate::vp::assert_id($c, (M << 16) | line!())
    };
}
/// reachability marker: the check fails as vacuous when no explored path reaches it
#[macro_export]
macro_rules! cov {
    () => {
        $crate::vp::cover((M << 16) | line!())
    };
}
/// an independent unit of checking
#[macro_export]
macro_rules! entry {
    ($name:ident, $body:block) => {
        #[no_mangle]
        pub extern "C" fn $name() $body
    };
}
