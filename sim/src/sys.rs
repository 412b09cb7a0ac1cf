//! The few libc calls the runner needs.
use std::ffi::{c_char, c_int, c_void, CString};
extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    pub fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    pub fn close(fd: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn poll(fds: *mut PollFd, n: u64, timeout_ms: c_int) -> c_int;
    pub fn dlopen(p: *const c_char, flags: c_int) -> *mut c_void;
    pub fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    pub fn dlerror() -> *const c_char;
    pub fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
    pub fn prctl(opt: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    pub fn syscall(n: i64, ...) -> i64;
}
#[repr(C)]
pub struct PollFd {
    pub fd: c_int,
    pub events: i16,
    pub revents: i16,
}
pub fn gettid() -> i64 {
    unsafe { syscall(186) }
}
pub fn write_all(fd: c_int, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr() as *const c_void, b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
pub fn sym(h: *mut c_void, name: &str) -> *mut c_void {
    let c = CString::new(name).unwrap();
    let p = unsafe { dlsym(h, c.as_ptr()) };
    assert!(!p.is_null(), "no symbol {name}");
    p
}
pub fn load(path: &str) -> *mut c_void {
    let c = CString::new(path).unwrap();
    let h = unsafe { dlopen(c.as_ptr(), 2) }; // RTLD_NOW | RTLD_LOCAL
    if h.is_null() {
        let e = unsafe { std::ffi::CStr::from_ptr(dlerror()) };
        panic!("dlopen {path}: {e:?}");
    }
    h
}
/// A page of memory shared with forked children.
pub fn shared_page() -> &'static [std::sync::atomic::AtomicU64; 512] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        &*(p as *const [std::sync::atomic::AtomicU64; 512])
    }
}
/// Memory for `n` words, shared with forked children.
pub fn shared(n: usize) -> &'static [u64] {
    unsafe {
        let p = mmap(std::ptr::null_mut(), 8 * n, 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        std::slice::from_raw_parts(p as *const u64, n)
    }
}
/// The writable static memory (.data and .bss) of a loaded library.
pub fn writable(path: &str) -> (usize, usize) {
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let real = std::fs::canonicalize(path).unwrap();
    let (mut lo, mut hi) = (0usize, 0usize);
    for l in maps.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        let (a, b) = f[0].split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        let rw = f[1].starts_with("rw");
        if rw && f.len() >= 6 && std::path::Path::new(f[5]) == real {
            if lo == 0 {
                lo = a;
            }
            hi = b;
        } else if rw && f.len() < 6 && hi == a && lo != 0 {
            hi = b; // .bss
        }
    }
    assert!(lo != 0, "no writable segment of {path}");
    (lo, hi)
}
