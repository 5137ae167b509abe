//! Interface to the symbolic executor.
extern "C-unwind" {
    fn vs_bytes(p: *mut u8, n: usize);
    fn vs_choose(n: u64) -> u64;
    fn vs_assume(c: u32);
    fn vs_fail(code: u32) -> !;
    fn vs_reach(id: u32);
    fn vs_observe(tag: u32, p: *const u8, n: usize);
    fn vs_mode(m: u32);
}

#[macro_export]
macro_rules! entry {
    ($n:ident, $b:block) => {
        #[no_mangle]
        pub extern "C-unwind" fn $n() $b
    };
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { vs_bytes(v.as_mut_ptr(), n) };
    v
}
pub fn choose(n: usize) -> usize {
    unsafe { vs_choose(n as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { vs_assume(c as u32) }
}
pub fn fail(code: u32) -> ! {
    unsafe { vs_fail(code) }
}
pub fn check(c: bool, code: u32) {
    if !c {
        fail(code)
    }
}
pub fn reach(id: u32) {
    unsafe { vs_reach(id) }
}
pub fn observe(b: &[u8]) {
    unsafe { vs_observe(0, b.as_ptr(), b.len()) }
}
pub fn label(s: &str) {
    unsafe { vs_observe(1, s.as_ptr(), s.len()) }
}
pub fn mode(m: u32) {
    unsafe { vs_mode(m) }
}
/// `n` symbolic ASCII bytes.
pub fn ascii(n: usize) -> Vec<u8> {
    let v = bytes(n);
    for b in &v {
        assume(*b < 0x80);
    }
    v
}
pub fn s(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
