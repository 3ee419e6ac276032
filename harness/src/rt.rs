//! What a harness may ask for: symbolic bytes, assumptions, assertions.
//! The symbolic engine recognises these symbols in the IR; the native replay
//! program defines them to feed recorded values.
extern "C-unwind" {
    fn obs_byte(tag: u32) -> u8;
    fn obs_choose(n: u32, tag: u32) -> u32;
    fn obs_concretize(v: u64) -> u64;
    fn obs_assume(c: bool);
    fn obs_assert(c: bool, id: u32);
    fn obs_cover(id: u32);
    fn obs_param(i: u32) -> u64;
    fn obs_expect_panic(b: bool);
    fn obs_observe(v: u64);
    fn obs_opened_count() -> u64;
    fn obs_opened_len(i: u64) -> u64;
    fn obs_opened_get(i: u64, p: *mut u8, cap: u64) -> u64;
    fn obs_file_add(p: *const u8, n: u64, d: *const u8, m: u64);
}

/// An arbitrary byte
pub fn byte(tag: u32) -> u8 {
    unsafe { obs_byte(tag) }
}
/// An arbitrary value below `n`
pub fn choose(n: usize, tag: u32) -> usize {
    unsafe { obs_choose(n as u32, tag) as usize }
}
/// The same, split into one path per value
pub fn pick(n: usize, tag: u32) -> usize {
    conc(choose(n, tag))
}
pub fn conc(v: usize) -> usize {
    unsafe { obs_concretize(v as u64) as usize }
}
pub fn assume(c: bool) {
    unsafe { obs_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { obs_assert(c, id) }
}
pub fn cover(id: u32) {
    unsafe { obs_cover(id) }
}
/// A parameter of the job (case split, concrete)
pub fn param(i: u32) -> usize {
    unsafe { obs_param(i) as usize }
}
/// From here on a panic is the required outcome of the path
pub fn expect_panic(b: bool) {
    unsafe { obs_expect_panic(b) }
}
pub fn observe(v: usize) {
    unsafe { obs_observe(v as u64) }
}
pub fn opened() -> Vec<Vec<u8>> {
    unsafe {
        (0..obs_opened_count())
            .map(|i| {
                let n = obs_opened_len(i) as usize;
                let mut v = vec![0u8; n];
                obs_opened_get(i, v.as_mut_ptr(), n as u64);
                v
            })
            .collect()
    }
}
pub fn file_add(path: &[u8], data: &[u8]) {
    unsafe { obs_file_add(path.as_ptr(), path.len() as u64, data.as_ptr(), data.len() as u64) }
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len());
    for x in b {
        observe(*x as usize);
    }
}
