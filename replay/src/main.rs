//! Runs one harness natively against the real crate with recorded inputs.
//! stdin: one run per line, `harness|params,..|v,v,..`. stdout per run: `obs ..`,
//! then one of `end ok`, `end assume`, `end assert <id>`, `end panic <msg>`,
//! `end expected-panic`, `end inputs` (a value was requested that was not recorded).
#[path = "../../harness/src/lib.rs"]
mod harness;

use std::cell::RefCell;
use std::sync::Mutex;

#[derive(Default)]
struct S {
    params: Vec<u64>,
    inputs: Vec<u64>,
    at: usize,
    obs: Vec<u64>,
    expect_panic: bool,
    end: Option<String>,
    opened: Vec<Vec<u8>>,
    files: Vec<(Vec<u8>, Vec<u8>)>,
    record: bool,
}
static STATE: Mutex<Option<S>> = Mutex::new(None);
fn st<R>(f: impl FnOnce(&mut S) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(S::default))
}
struct Stop;
fn stop(e: String) -> ! {
    st(|s| {
        if s.end.is_none() {
            s.end = Some(e)
        }
    });
    std::panic::resume_unwind(Box::new(Stop))
}

#[no_mangle]
extern "C-unwind" fn obs_byte(_tag: u32) -> u8 {
    match st(|s| {
        s.at += 1;
        s.inputs.get(s.at - 1).copied()
    }) {
        Some(v) => v as u8,
        None => stop("inputs".into()),
    }
}
#[no_mangle]
extern "C-unwind" fn obs_choose(n: u32, tag: u32) -> u32 {
    let v = obs_byte(tag) as u32;
    if v >= n {
        stop("assume".into())
    }
    v
}
#[no_mangle]
extern "C-unwind" fn obs_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C-unwind" fn obs_assume(c: bool) {
    if !c {
        stop("assume".into())
    }
}
#[no_mangle]
extern "C-unwind" fn obs_assert(c: bool, id: u32) {
    if !c {
        stop(format!("assert {}", id))
    }
}
#[no_mangle]
extern "C-unwind" fn obs_cover(_id: u32) {}
#[no_mangle]
extern "C-unwind" fn obs_param(i: u32) -> u64 {
    st(|s| s.params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C-unwind" fn obs_expect_panic(b: bool) {
    st(|s| s.expect_panic = b)
}
#[no_mangle]
extern "C-unwind" fn obs_observe(v: u64) {
    st(|s| s.obs.push(v))
}
#[no_mangle]
extern "C-unwind" fn obs_opened_count() -> u64 {
    st(|s| s.opened.len() as u64)
}
#[no_mangle]
extern "C-unwind" fn obs_opened_len(i: u64) -> u64 {
    st(|s| s.opened[i as usize].len() as u64)
}
#[no_mangle]
unsafe extern "C-unwind" fn obs_opened_get(i: u64, p: *mut u8, cap: u64) -> u64 {
    st(|s| {
        let b = &s.opened[i as usize];
        let n = b.len().min(cap as usize);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
        n as u64
    })
}
#[no_mangle]
unsafe extern "C-unwind" fn obs_file_add(p: *const u8, n: u64, d: *const u8, m: u64) {
    let a = std::slice::from_raw_parts(p, n as usize).to_vec();
    let b = std::slice::from_raw_parts(d, m as usize).to_vec();
    st(|s| {
        s.record = true;
        s.files.push((a, b))
    })
}

// ---- containment: while a harness that serves files runs, no open reaches the
// real file system. The path is recorded, and a registered virtual file is
// backed by an anonymous memory file.
extern "C" {
    fn __errno_location() -> *mut i32;
    fn syscall(n: i64, ...) -> i64;
}
/// A path without `/cwd/` or `./` in front
fn plain_path(mut p: &[u8]) -> Vec<u8> {
    if p.len() > 5 && p.starts_with(b"/cwd/") {
        p = &p[5..];
    }
    while p.len() > 2 && p.starts_with(b"./") {
        p = &p[2..];
    }
    p.to_vec()
}
#[no_mangle]
unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    let name = plain_path(std::ffi::CStr::from_ptr(path as *const _).to_bytes());
    let hit = st(|s| {
        if !s.record {
            return None;
        }
        s.opened.push(name.clone());
        Some(s.files.iter().rev().find(|f| f.0 == name).map(|f| f.1.clone()))
    });
    match hit {
        None => syscall(257, -100i64, path, flags as i64, mode as i64) as i32,
        Some(None) => {
            *__errno_location() = 2;
            -1
        }
        Some(Some(data)) => {
            let fd = syscall(319, c"v".as_ptr(), 0i64);
            syscall(1, fd, data.as_ptr(), data.len());
            syscall(8, fd, 0i64, 0i64);
            fd as i32
        }
    }
}
fn is_dir(path: &[u8]) -> bool {
    let mut p = path.to_vec();
    if p.last() != Some(&b'/') {
        p.push(b'/');
    }
    (path.len() < 5 && path.starts_with(b"/")) || st(|s| s.files.iter().any(|f| f.0.len() > p.len() && f.0.starts_with(&p)))
}
/// Mode and length of what is there
fn known(path: &[u8]) -> Option<(u32, i64)> {
    let name = plain_path(path);
    match st(|s| s.files.iter().rev().find(|f| f.0 == name).map(|f| f.1.len())) {
        Some(n) => Some((0o100644, n as i64)),
        None if is_dir(&name) => Some((0o040755, 0)),
        None => None,
    }
}
unsafe fn c_path<'a>(p: *const u8) -> &'a [u8] {
    std::ffi::CStr::from_ptr(p as *const _).to_bytes()
}
#[no_mangle]
unsafe extern "C" fn stat64(path: *const u8, to: *mut u8) -> i32 {
    if !st(|s| s.record) {
        return syscall(4, path, to) as i32;
    }
    match known(c_path(path)) {
        Some((mode, len)) => {
            to.write_bytes(0, 144);
            (to.add(24) as *mut u32).write_unaligned(mode);
            (to.add(48) as *mut i64).write_unaligned(len);
            0
        }
        None => {
            *__errno_location() = 2;
            -1
        }
    }
}
#[no_mangle]
unsafe extern "C" fn lstat64(path: *const u8, to: *mut u8) -> i32 {
    if !st(|s| s.record) {
        return syscall(6, path, to) as i32;
    }
    stat64(path, to)
}
/// Not there: std asks stat64 instead
#[no_mangle]
unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, to: *mut u8) -> i32 {
    if st(|s| s.record) && (path.is_null() || *path != 0) {
        *__errno_location() = 38;
        return -1;
    }
    syscall(332, dir as i64, path, flags as i64, mask as i64, to) as i32
}
#[no_mangle]
unsafe extern "C" fn getcwd(to: *mut u8, n: usize) -> *mut u8 {
    if !st(|s| s.record) {
        return if syscall(79, to, n) < 0 { std::ptr::null_mut() } else { to };
    }
    if n < 5 {
        *__errno_location() = 34;
        return std::ptr::null_mut();
    }
    std::ptr::copy_nonoverlapping(c"/cwd".as_ptr() as *const u8, to, 5);
    to
}
extern "C" {
    fn malloc(n: usize) -> *mut u8;
}
/// Only what the harnesses use: never the real file system
#[no_mangle]
unsafe extern "C" fn realpath(path: *const u8, to: *mut u8) -> *mut u8 {
    let path = c_path(path);
    let mut parts: Vec<&[u8]> = if path.starts_with(b"/") { vec![] } else { vec![b"cwd"] };
    for p in path.split(|b| *b == b'/') {
        match p {
            b"" | b"." => {}
            b".." => drop(parts.pop()),
            p => parts.push(p),
        }
    }
    let mut real: Vec<u8> = parts.iter().flat_map(|p| [b"/", *p].concat()).collect();
    if known(&real).is_none() {
        *__errno_location() = 2;
        return std::ptr::null_mut();
    }
    real.push(0);
    let to = if to.is_null() { malloc(real.len()) } else { to };
    std::ptr::copy_nonoverlapping(real.as_ptr(), to, real.len());
    to
}
thread_local! { static MSG: RefCell<String> = RefCell::new(String::new()); }

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        MSG.with(|x| *x.borrow_mut() = m);
    }));
    let mut out = String::new();
    // the threads that read files look at the machine once, when they are started
    if let Some(f) = harness::TABLE.iter().find(|x| x.0 == "harness_build_file") {
        *STATE.lock().unwrap() = Some(S { params: vec![1, 0], inputs: vec![97, 1], ..S::default() });
        let _ = std::panic::catch_unwind(|| (f.1)());
    }
    for l in std::io::stdin().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.split('|').collect();
        if p.len() < 3 {
            continue;
        }
        let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
        let f = harness::TABLE.iter().find(|x| x.0 == p[0]).expect("harness").1;
        {
            let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
            *g = Some(S { params: nums(p[1]), inputs: nums(p[2]), ..S::default() });
        }
        let r = std::panic::catch_unwind(|| f());
        let end = st(|s| {
            s.record = false;
            s.end.clone().unwrap_or_else(|| match r {
                Ok(()) => "ok".to_string(),
                Err(_) if s.expect_panic => "expected-panic".to_string(),
                Err(_) => format!("panic {}", MSG.with(|m| m.borrow().clone())),
            })
        });
        let obs = st(|s| s.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        out.push_str(&format!("obs {}\nend {}\n", obs, end));
        // stdout may carry log lines of the crate: keep the protocol on stderr
        eprint!("{}", out);
        out.clear();
    }
}
