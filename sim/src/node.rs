//! Loading of the node libraries and the calling convention of their register machine.
use crate::sys;
use std::ffi::c_void;

pub const BUILDS: [&str; 4] = ["u64-release", "u32-release", "u64-checked", "u32-checked"];

type Exec = unsafe extern "C" fn(*mut c_void, u32, u32, u32, u32, u32, *const u8, usize, *mut u8, usize, *mut usize) -> i32;
type RngFill = extern "C" fn(u64, *mut u8, usize, u32) -> i32;
type Yield = extern "C" fn(u32);

#[derive(Clone, Copy)]
pub struct Lib {
    init: unsafe extern "C" fn(RngFill, Yield),
    new: unsafe extern "C" fn() -> *mut c_void,
    free: unsafe extern "C" fn(*mut c_void),
    exec: Exec,
}
unsafe impl Send for Lib {}
unsafe impl Sync for Lib {}

#[derive(Clone, Copy, PartialEq)]
pub struct Vm(pub *mut c_void);
unsafe impl Send for Vm {}

pub const OK: i32 = 0;
pub const REJECT: i32 = 1;
pub const PANIC: i32 = 2;
pub const INJECTED: i32 = 3;
pub const MISUSE: i32 = 9;

impl Lib {
    pub fn load(path: &str, rng: RngFill, yld: Yield) -> Lib {
        let h = sys::load(path);
        let l = unsafe {
            Lib {
                init: std::mem::transmute(sys::sym(h, "vn_init")),
                new: std::mem::transmute(sys::sym(h, "vn_new")),
                free: std::mem::transmute(sys::sym(h, "vn_free")),
                exec: std::mem::transmute(sys::sym(h, "vn_exec")),
            }
        };
        unsafe { (l.init)(rng, yld) };
        l
    }
    pub fn load_traced(path: &str, rng: RngFill, yld: Yield, note: extern "C" fn(usize)) -> Lib {
        let l = Lib::load(path, rng, yld);
        let (lo, hi) = sys::writable(path);
        unsafe {
            let f: unsafe extern "C" fn(usize, usize, extern "C" fn(usize)) = std::mem::transmute(sys::sym(sys::load(path), "vn_trace"));
            f(lo, hi, note)
        };
        l
    }
    pub fn vm(&self) -> Vm {
        Vm(unsafe { (self.new)() })
    }
    pub fn free(&self, vm: Vm) {
        unsafe { (self.free)(vm.0) }
    }
    pub fn exec(&self, vm: Vm, op: u32, dst: u32, a: u32, b: u32, var: u32, inp: &[u8]) -> (i32, Vec<u8>) {
        let mut out = [0u8; 512];
        let mut n = 0usize;
        let st = unsafe {
            (self.exec)(vm.0, op, dst, a, b, var, inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len(), &mut n)
        };
        (st, out[..n].to_vec())
    }
}

/// A library whose blocks and accesses are reported.
#[derive(Clone, Copy)]
pub struct Observed {
    pub lib: Lib,
    begin: unsafe extern "C" fn(usize, usize, u64),
    end: unsafe extern "C" fn(*mut u64, *mut u8, usize) -> usize,
}
impl Observed {
    pub fn load(path: &str, rng: RngFill, yld: Yield) -> Observed {
        let lib = Lib::load(path, rng, yld);
        let h = sys::load(path);
        unsafe { Observed { lib, begin: std::mem::transmute(sys::sym(h, "vn_observe")), end: std::mem::transmute(sys::sym(h, "vn_observed")) } }
    }
    pub fn begin(&self, log: usize, cap: usize, stop: u64) {
        unsafe { (self.begin)(log, cap, stop) }
    }
    pub fn end(&self) -> (u64, u64, String) {
        let mut o = [0u64; 2];
        let mut b = vec![0u8; 16384];
        let n = unsafe { (self.end)(o.as_mut_ptr(), b.as_mut_ptr(), b.len()) };
        (o[0], o[1], String::from_utf8_lossy(&b[..n]).to_string())
    }
}
