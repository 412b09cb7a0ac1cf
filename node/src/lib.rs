//! A node runtime: the real ed448-goldilocks library behind a small register machine.
//!
//! Every instruction is one call of the library's public API on values that live in this
//! machine's registers (so internal representations persist from call to call, as they do in a
//! caller's program). The simulator loads one copy of this shared object per build
//! (backend x profile) and decides which node executes what, when, and which faults it meets.
use ed448_goldilocks::curve::edwards::CompressedEdwardsY;
use ed448_goldilocks::curve::{ExtendedPoint, MontgomeryPoint};
use ed448_goldilocks::decaf::{CompressedDecaf, DecafPoint};
use ed448_goldilocks::Scalar;
use rand_core::{CryptoRng, RngCore};
#[cfg(feature = "twisted")]
use std::any::Any;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use subtle::{Choice, ConditionallyNegatable, ConditionallySelectable, ConstantTimeEq};

pub type RngFill = extern "C" fn(ctx: u64, buf: *mut u8, len: usize, method: u32) -> i32;
pub type Yield = extern "C" fn(site: u32);

static HOST: std::sync::OnceLock<(RngFill, Yield)> = std::sync::OnceLock::new();

/// Marker payload of an unwind that a simulated callback started.
struct Injected;

fn hook(site: u32) {
    if let Some((_, y)) = HOST.get() {
        y(site)
    }
}

#[no_mangle]
pub extern "C" fn vn_init(rng: RngFill, yld: Yield) {
    let _ = HOST.set((rng, yld));
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(goldilocks_sim)]
    ed448_goldilocks::sim::install(hook);
}

/// The traced builds (feature `traced`, compiled without `goldilocks_sim`): the compiler reports
/// every load and store of the library and the accesses to its writable static memory become
/// scheduling points.
#[cfg(feature = "traced")]
mod traced {
    static mut RANGE: [usize; 2] = [0, 0];
    static mut NOTE: Option<extern "C" fn(usize)> = None;
    /// # Safety
    /// Called once, before the library is used.
    #[no_mangle]
    pub unsafe extern "C" fn vn_trace(lo: usize, hi: usize, note: extern "C" fn(usize)) {
        NOTE = Some(note);
        RANGE = [lo, hi];
    }
    // functions with this prefix are not instrumented themselves
    macro_rules! access {
        ($($n:ident)*) => { $(
            #[no_mangle]
            pub unsafe extern "C" fn $n(a: usize) {
                if a >= RANGE[0] && a < RANGE[1] {
                    if let Some(f) = NOTE {
                        f(a)
                    }
                }
            }
        )* }
    }
    access!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
        __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
}

/// The observed builds (feature `observed`, compiled without `goldilocks_sim`): the compiler reports
/// every basic block that is entered and the address of every load and store, and the calls that copy,
/// fill and compare memory are made here, so that what they touch is reported as well. The sequence of these events is
/// what an observer of time and memory could learn at best.
#[cfg(feature = "observed")]
mod observed {
    static mut ON: bool = false;
    static mut COUNT: u64 = 0;
    static mut HASH: u64 = 0;
    /// every event, for the search of the first difference
    static mut LOG: [usize; 2] = [0, 0];
    static mut STOP: u64 = 0;
    static mut PLACE: String = String::new();

    #[inline(always)]
    unsafe fn __sanitizer_vn_event(kind: u64, v: u64) {
        if !ON {
            return;
        }
        COUNT += 1;
        HASH = (HASH.rotate_left(5) ^ v ^ (kind << 60)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        if LOG[1] != 0 && (COUNT as usize) <= LOG[1] {
            *(LOG[0] as *mut u64).add(COUNT as usize - 1) = v ^ (kind << 60);
        }
        if COUNT == STOP {
            ON = false;
            PLACE = std::backtrace::Backtrace::force_capture().to_string();
            ON = true;
        }
    }
    /// Starts an observation. `log`: room for `cap` events, or nothing; `stop`: the event whose place in the code is wanted.
    /// # Safety
    /// `log` describes a valid buffer.
    #[no_mangle]
    pub unsafe extern "C" fn vn_observe(log: usize, cap: usize, stop: u64) {
        COUNT = 0;
        HASH = 0;
        LOG = [log, cap];
        STOP = stop;
        PLACE = String::new();
    }
    pub(crate) unsafe fn on(x: bool) {
        ON = x
    }
    /// Ends it: number of events and their hash; writes the place.
    /// # Safety
    /// The pointers describe valid buffers.
    #[no_mangle]
    #[allow(static_mut_refs)]
    pub unsafe extern "C" fn vn_observed(out: *mut u64, place: *mut u8, cap: usize) -> usize {
        *out = COUNT;
        *out.add(1) = HASH;
        let n = PLACE.len().min(cap);
        std::ptr::copy_nonoverlapping(PLACE.as_ptr(), place, n);
        n
    }
    macro_rules! access {
        ($k:expr, $($n:ident)*) => { $(
            #[no_mangle]
            pub unsafe extern "C" fn $n(a: usize) {
                __sanitizer_vn_event($k, a as u64)
            }
        )* }
    }
    access!(1, __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16);
    access!(2, __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
        let mut n = 0;
        while a < b {
            n += 1;
            *a = n;
            a = a.add(1);
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
        __sanitizer_vn_event(3, g as u64)
    }
    // what the compiler calls for copies and comparisons
    #[no_mangle]
    pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        __sanitizer_vn_event(4, d as u64);
        __sanitizer_vn_event(5, s as u64);
        __sanitizer_vn_event(6, n as u64);
        std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
        __sanitizer_vn_event(4, d as u64);
        __sanitizer_vn_event(5, s as u64);
        __sanitizer_vn_event(6, n as u64);
        if (d as usize) <= s as usize || d as usize >= s as usize + n {
            std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _);
        } else {
            std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _);
        }
        d
    }
    #[no_mangle]
    pub unsafe extern "C" fn memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
        __sanitizer_vn_event(4, d as u64);
        __sanitizer_vn_event(6, n as u64);
        std::arch::asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") c as u8);
        d
    }
    /// As in a C library, it stops at the first difference.
    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        let mut i = 0;
        let mut r = 0;
        while i < n {
            let (x, y) = (std::ptr::read_volatile(a.add(i)), std::ptr::read_volatile(b.add(i)));
            if x != y {
                r = x as i32 - y as i32;
                break;
            }
            i += 1;
        }
        __sanitizer_vn_event(7, i as u64);
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}

#[derive(Default)]
pub struct Vm {
    s: Vec<Option<Scalar>>,
    e: Vec<Option<ExtendedPoint>>,
    m: Vec<Option<MontgomeryPoint>>,
    d: Vec<Option<DecafPoint>>,
    #[cfg(feature = "twisted")]
    t: Vec<Option<Box<dyn Any>>>,
    #[cfg(feature = "twisted")]
    x: Vec<Option<Box<dyn Any>>>,
    #[cfg(feature = "twisted")]
    k: Vec<Option<Box<dyn Any>>>,
}

#[no_mangle]
pub extern "C" fn vn_new() -> *mut Vm {
    Box::into_raw(Box::new(Vm::default()))
}
/// # Safety
/// `vm` comes from `vn_new`.
#[no_mangle]
pub unsafe extern "C" fn vn_free(vm: *mut Vm) {
    drop(Box::from_raw(vm))
}

/// A generator of the host. With `nested`, it uses the library itself while it is being asked.
struct HostRng {
    ctx: u64,
    nested: bool,
}
impl HostRng {
    fn fill(&mut self, buf: &mut [u8], method: u32) -> i32 {
        if self.nested {
            let a = Scalar::random(&mut HostRng { ctx: self.ctx | 1 << 62, nested: false });
            let b = a * (a + Scalar::one()) - a.invert();
            let p = ExtendedPoint::generator();
            let q: ExtendedPoint = [p, p.double(), p.negate()].iter().sum();
            std::hint::black_box((b.to_bytes(), q.compress().0));
        }
        let f = HOST.get().expect("host").0;
        f(self.ctx, buf.as_mut_ptr(), buf.len(), method)
    }
    fn must(&mut self, buf: &mut [u8], method: u32) {
        if self.fill(buf, method) != 0 {
            resume_unwind(Box::new(Injected))
        }
    }
}
impl RngCore for HostRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.must(&mut b, 0);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.must(&mut b, 1);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.must(dest, 2)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        if self.fill(dest, 3) != 0 {
            return Err(rand_core::Error::from(std::num::NonZeroU32::new(rand_core::Error::CUSTOM_START).unwrap()));
        }
        Ok(())
    }
}
impl CryptoRng for HostRng {}

/// Iterator handed to `Sum`: yields registers, may end early or fail at a chosen position.
struct FaultyIter<'a> {
    vm: &'a Vm,
    slots: &'a [u8],
    pos: usize,
    fail_at: usize,
    end_at: usize,
    /// what `size_hint` tells: nothing, an upper bound, the exact number (always truthful)
    hint: u32,
}
impl<'a> Iterator for FaultyIter<'a> {
    type Item = &'a ExtendedPoint;
    fn next(&mut self) -> Option<&'a ExtendedPoint> {
        hook(100);
        if self.pos == self.fail_at {
            resume_unwind(Box::new(Injected))
        }
        if self.pos >= self.end_at || 4 * self.pos >= self.slots.len() {
            return None;
        }
        let i = u32::from_le_bytes(self.slots[4 * self.pos..4 * self.pos + 4].try_into().unwrap());
        self.pos += 1;
        self.vm.e[i as usize].as_ref()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let all = self.slots.len() / 4;
        let left = all.min(self.end_at).saturating_sub(self.pos);
        match self.hint {
            0 => (0, None),
            1 => (0, Some(all - self.pos)),
            2 => (left, Some(left)),
            _ => (left / 2, Some(all - self.pos + 3)),
        }
    }
}

pub const OK: i32 = 0;
pub const REJECT: i32 = 1;
pub const PANIC: i32 = 2;
pub const INJECTED: i32 = 3;
pub const MISUSE: i32 = 9;

fn put<T>(v: &mut Vec<Option<T>>, i: u32, x: T) {
    let i = i as usize;
    while v.len() <= i {
        v.push(None)
    }
    v[i] = Some(x)
}

struct Misuse;

fn arr<const N: usize>(inp: &[u8]) -> [u8; N] {
    inp.try_into().unwrap_or_else(|_| resume_unwind(Box::new(Misuse)))
}
fn get<T>(v: &[Option<T>], i: u32) -> &T {
    v.get(i as usize).and_then(|x| x.as_ref()).unwrap_or_else(|| resume_unwind(Box::new(Misuse)))
}
fn take<T>(v: &mut [Option<T>], i: u32) -> T {
    v.get_mut(i as usize).and_then(|x| x.take()).unwrap_or_else(|| resume_unwind(Box::new(Misuse)))
}

fn exec(vm: &mut Vm, op: u32, dst: u32, a: u32, b: u32, var: u32, inp: &[u8], out: &mut Vec<u8>) -> i32 {
    match op {
        // ---- scalars
        1 => put(&mut vm.s, dst, Scalar::zero()),
        2 => put(&mut vm.s, dst, Scalar::one()),
        3 => put(&mut vm.s, dst, Scalar::default()),
        4 => put(&mut vm.s, dst, Scalar::from(u32::from_le_bytes(arr::<4>(inp)))),
        5 => put(&mut vm.s, dst, Scalar::from_bytes(arr::<56>(inp))),
        6 => match Scalar::from_canonical_bytes(arr::<57>(inp)) {
            Some(s) => put(&mut vm.s, dst, s),
            None => return REJECT,
        },
        7 => put(&mut vm.s, dst, Scalar::from_bytes_mod_order_wide(&arr::<114>(inp))),
        8 => {
            let ctx = u64::from_le_bytes(arr::<8>(inp));
            let s = Scalar::random(&mut HostRng { ctx, nested: var == 1 });
            put(&mut vm.s, dst, s)
        }
        9 => {
            let r = *get(&vm.s, a) + *get(&vm.s, b);
            put(&mut vm.s, dst, r)
        }
        10 => {
            let r = *get(&vm.s, a) - *get(&vm.s, b);
            put(&mut vm.s, dst, r)
        }
        11 => {
            let r = *get(&vm.s, a) * *get(&vm.s, b);
            put(&mut vm.s, dst, r)
        }
        12 => {
            let r = get(&vm.s, a).invert();
            put(&mut vm.s, dst, r)
        }
        13 => {
            let r = get(&vm.s, a).halve();
            put(&mut vm.s, dst, r)
        }
        14 => out.extend_from_slice(&get(&vm.s, a).to_bytes()),
        15 => out.extend_from_slice(&get(&vm.s, a).to_bytes_rfc_8032()),
        16 => {
            let bits = get(&vm.s, a).bits();
            out.extend(bits.iter().map(|b| *b as u8));
        }
        17 => {
            let (x, y) = (get(&vm.s, a), get(&vm.s, b));
            out.push(match var {
                0 => (x == y) as u8,
                1 => x.ct_eq(y).unwrap_u8(),
                _ => !(x != y) as u8,
            })
        }
        18 => {
            // limb view: write limb `b` of a copy of scalar `a`
            let mut r = *get(&vm.s, a);
            r[b as usize] = u32::from_le_bytes(arr::<4>(inp));
            put(&mut vm.s, dst, r)
        }
        19 => out.extend_from_slice(&get(&vm.s, a)[b as usize].to_le_bytes()),
        20 => {
            let r = *get(&vm.s, a);
            put(&mut vm.s, dst, r)
        }
        // ---- Edwards points
        40 => put(&mut vm.e, dst, match var {
            0 => ExtendedPoint::identity(),
            _ => ExtendedPoint::default(),
        }),
        41 => put(&mut vm.e, dst, ExtendedPoint::generator()),
        42 => match CompressedEdwardsY(arr::<57>(inp)).decompress() {
            Some(p) => put(&mut vm.e, dst, p),
            None => return REJECT,
        },
        43 => out.extend_from_slice(&get(&vm.e, a).compress().0),
        44 => {
            let (x, y) = (get(&vm.e, a), get(&vm.e, b));
            let r = match var {
                0 => ExtendedPoint::add(x, y),
                1 => x + y,
                2 => *x + y,
                3 => x + *y,
                4 => *x + *y,
                5 => {
                    let mut t = *x;
                    t += y;
                    t
                }
                _ => {
                    let mut t = *x;
                    t += *y;
                    t
                }
            };
            put(&mut vm.e, dst, r)
        }
        45 => {
            let (x, y) = (get(&vm.e, a), get(&vm.e, b));
            let r = match var {
                0 | 1 => x - y,
                2 => *x - y,
                3 => x - *y,
                4 => *x - *y,
                5 => {
                    let mut t = *x;
                    t -= y;
                    t
                }
                _ => {
                    let mut t = *x;
                    t -= *y;
                    t
                }
            };
            put(&mut vm.e, dst, r)
        }
        46 => {
            let x = get(&vm.e, a);
            let r = match var {
                0 => x.negate(),
                1 => -x,
                2 => -*x,
                3 => {
                    let mut t = *x;
                    t.conditional_negate(Choice::from(1));
                    t
                }
                _ => {
                    let mut t = x.negate();
                    t.conditional_negate(Choice::from(0));
                    t
                }
            };
            put(&mut vm.e, dst, r)
        }
        47 => {
            let r = get(&vm.e, a).torque();
            put(&mut vm.e, dst, r)
        }
        48 => {
            let r = get(&vm.e, a).double();
            put(&mut vm.e, dst, r)
        }
        49 => {
            let (p, s) = (get(&vm.e, a), get(&vm.s, b));
            let r = match var {
                0 => p.scalar_mul(s),
                1 => p * s,
                2 => *p * s,
                3 => p * *s,
                4 => *p * *s,
                5 => s * p,
                6 => *s * p,
                7 => s * *p,
                8 => *s * *p,
                9 => {
                    let mut t = *p;
                    t *= s;
                    t
                }
                _ => {
                    let mut t = *p;
                    t *= *s;
                    t
                }
            };
            put(&mut vm.e, dst, r)
        }
        50 => {
            let r = get(&vm.e, a).scalar_mod_four(get(&vm.s, b));
            put(&mut vm.e, dst, r)
        }
        51 => {
            // sum: inp = fail_at u32, end_at u32, slots u32*
            let fail_at = u32::from_le_bytes(arr::<4>(&inp[..4])) as usize;
            let end_at = u32::from_le_bytes(arr::<4>(&inp[4..8])) as usize;
            for c in inp[8..].chunks(4) {
                get(&vm.e, u32::from_le_bytes(arr::<4>(c)));
            }
            let it = FaultyIter { vm, slots: &inp[8..], pos: 0, fail_at, end_at, hint: (var >> 1) & 3 };
            // the iterator may compute what it yields with the library itself
            let lazy = |p: &ExtendedPoint| -> ExtendedPoint {
                let g = ExtendedPoint::generator();
                let parts = [p.add(&g), g.negate()];
                parts.iter().sum()
            };
            let r: ExtendedPoint = match (var & 1, var >> 3) {
                (0, 0) => it.sum(),
                (_, 0) => it.copied().sum(),
                (0, 1) => it.map(lazy).sum(),
                _ => {
                    let mut n = 0;
                    it.map(|p| {
                        n += 1;
                        if n % 2 == 0 { p * Scalar::one() } else { lazy(p).to_affine().to_extended() }
                    })
                    .sum()
                }
            };
            put(&mut vm.e, dst, r)
        }
        52 => {
            let (x, y) = (get(&vm.e, a), get(&vm.e, b));
            let c = Choice::from(inp[0] & 1);
            let r = match var {
                0 => ExtendedPoint::conditional_select(x, y, c),
                1 => {
                    let mut t = *x;
                    t.conditional_assign(y, c);
                    t
                }
                2 => {
                    let (mut t, mut u) = (*x, *y);
                    ExtendedPoint::conditional_swap(&mut t, &mut u, c);
                    t
                }
                _ => {
                    let (mut t, mut u) = (*x, *y);
                    ExtendedPoint::conditional_swap(&mut t, &mut u, !c);
                    u
                }
            };
            put(&mut vm.e, dst, r)
        }
        53 => {
            let (x, y) = (get(&vm.e, a), get(&vm.e, b));
            out.push(match var {
                0 => (x == y) as u8,
                1 => x.ct_eq(y).unwrap_u8(),
                _ => !(x != y) as u8,
            })
        }
        54 => out.push(get(&vm.e, a).is_torsion_free() as u8),
        55 => {
            let r = get(&vm.e, a).to_montgomery();
            put(&mut vm.m, dst, r)
        }
        56 => {
            let r = get(&vm.e, a).to_affine().to_extended();
            put(&mut vm.e, dst, r)
        }
        57 => {
            let r = get(&vm.e, a).to_twisted().to_untwisted();
            put(&mut vm.e, dst, r)
        }
        58 => {
            let r = *get(&vm.e, a);
            put(&mut vm.e, dst, r)
        }
        // ---- Curve448 points
        60 => put(&mut vm.m, dst, MontgomeryPoint::generator()),
        61 => put(&mut vm.m, dst, MontgomeryPoint(arr::<56>(inp))),
        62 => {
            let x = get(&vm.m, a);
            match var {
                0 => out.extend_from_slice(x.as_bytes()),
                _ => out.extend_from_slice(&x.0),
            }
        }
        63 => {
            let (u, s) = (get(&vm.m, a), get(&vm.s, b));
            let r = match var {
                0 => u * s,
                _ => s * u,
            };
            put(&mut vm.m, dst, r)
        }
        64 => out.push(get(&vm.m, a).is_low_order() as u8),
        65 => {
            let (x, y) = (get(&vm.m, a), get(&vm.m, b));
            out.push(match var {
                0 => (x == y) as u8,
                1 => x.ct_eq(y).unwrap_u8(),
                _ => !(x != y) as u8,
            })
        }
        66 => {
            let r = get(&vm.m, a).to_projective().to_affine();
            put(&mut vm.m, dst, r)
        }
        67 => {
            let (x, y) = (get(&vm.m, a).to_projective(), get(&vm.m, b).to_projective());
            let r = ConditionallySelectable::conditional_select(&x, &y, Choice::from(inp[0] & 1)).to_affine();
            put(&mut vm.m, dst, r)
        }
        // ---- Decaf elements
        80 => put(&mut vm.d, dst, DecafPoint::identity()),
        81 => put(&mut vm.d, dst, DecafPoint::generator()),
        82 => match CompressedDecaf(arr::<56>(inp)).decompress() {
            Some(p) => put(&mut vm.d, dst, p),
            None => return REJECT,
        },
        83 => {
            let c = get(&vm.d, a).compress();
            match var {
                0 => out.extend_from_slice(c.as_bytes()),
                _ => out.extend_from_slice(&c.0),
            }
        }
        84 => {
            let r = match var {
                0 => get(&vm.d, a) + get(&vm.d, b),
                _ => {
                    let (x, y) = (take(&mut vm.d, a), take(&mut vm.d, b));
                    x + y
                }
            };
            put(&mut vm.d, dst, r)
        }
        85 => {
            let r = match var {
                0 => DecafPoint::sub(get(&vm.d, a), get(&vm.d, b)),
                1 => get(&vm.d, a) - get(&vm.d, b),
                _ => {
                    let (x, y) = (take(&mut vm.d, a), take(&mut vm.d, b));
                    std::ops::Sub::sub(x, y)
                }
            };
            put(&mut vm.d, dst, r)
        }
        86 => {
            let r = match var {
                0 => -get(&vm.d, a),
                _ => -take(&mut vm.d, a),
            };
            put(&mut vm.d, dst, r)
        }
        87 => {
            let r = match var {
                0 => get(&vm.d, a) * get(&vm.s, b),
                1 => get(&vm.s, b) * get(&vm.d, a),
                2 => {
                    let s = *get(&vm.s, b);
                    s * take(&mut vm.d, a)
                }
                _ => {
                    let s = *get(&vm.s, b);
                    take(&mut vm.d, a) * s
                }
            };
            put(&mut vm.d, dst, r)
        }
        88 => out.push(get(&vm.d, a).equals(get(&vm.d, b)) as u8),
        89 => out.extend_from_slice(CompressedDecaf::identity().as_bytes()),
        90 => {
            let (x, y) = (CompressedDecaf(arr::<56>(&inp[..56])), CompressedDecaf(arr::<56>(&inp[56..])));
            out.push(match var {
                0 => (x == y) as u8,
                1 => x.ct_eq(&y).unwrap_u8(),
                _ => !(x != y) as u8,
            })
        }
        #[cfg(feature = "twisted")]
        100..=119 => return twisted::exec(vm, op, dst, a, b, var, inp, out),
        _ => return MISUSE,
    }
    OK
}

/// Points of the isogenous twisted curve. Their types are reachable from the public API but have no
/// public name, hence the registers of type `Any`.
#[cfg(feature = "twisted")]
mod twisted {
    use super::*;

    /// The register as the type that `_like` returns.
    fn as_ret<A, T: 'static>(v: &[Option<Box<dyn Any>>], i: u32, _like: impl Fn(&A) -> T) -> &T {
        get(v, i).downcast_ref::<T>().expect("register type")
    }
    macro_rules! tw {
        ($vm:expr, $i:expr) => { as_ret(&$vm.t, $i, ExtendedPoint::to_twisted) };
    }
    macro_rules! tx {
        ($vm:expr, $i:expr) => { as_ret(&$vm.x, $i, |e: &ExtendedPoint| e.to_twisted().to_extensible()) };
    }
    macro_rules! tk {
        ($vm:expr, $i:expr) => { as_ret(&$vm.k, $i, |e: &ExtendedPoint| e.to_twisted().to_extensible().to_projective_niels()) };
    }
    fn like<T>(_: &T, x: T) -> T {
        x
    }

    pub fn exec(vm: &mut Vm, op: u32, dst: u32, a: u32, b: u32, var: u32, inp: &[u8], out: &mut Vec<u8>) -> i32 {
        match op {
            100 => {
                let r = get(&vm.e, a).to_twisted();
                put(&mut vm.t, dst, Box::new(r))
            }
            101 => {
                let r = tw!(vm, a).to_untwisted();
                put(&mut vm.e, dst, r)
            }
            102 => {
                let r = tw!(vm, a).negate();
                put(&mut vm.t, dst, Box::new(r))
            }
            103 => {
                let r = tw!(vm, a).torque();
                put(&mut vm.t, dst, Box::new(r))
            }
            104 => {
                let r = tw!(vm, a).to_extensible();
                put(&mut vm.x, dst, Box::new(r))
            }
            105 => {
                let r = tx!(vm, a).double();
                put(&mut vm.x, dst, Box::new(r))
            }
            106 => {
                let r = tx!(vm, a).add_extended(tw!(vm, b));
                put(&mut vm.x, dst, Box::new(r))
            }
            107 => {
                let r = tx!(vm, a).sub_extended(tw!(vm, b));
                put(&mut vm.x, dst, Box::new(r))
            }
            108 => {
                let r = tx!(vm, a).add_extensible(tx!(vm, b));
                put(&mut vm.x, dst, Box::new(r))
            }
            109 => {
                let r = tx!(vm, a).to_extended();
                put(&mut vm.t, dst, Box::new(r))
            }
            110 => {
                let r = tx!(vm, a).to_projective_niels();
                put(&mut vm.k, dst, Box::new(r))
            }
            111 => {
                let r = tk!(vm, a).to_extended();
                put(&mut vm.t, dst, Box::new(r))
            }
            112 => {
                let r = tx!(vm, a).add_projective_niels(tk!(vm, b));
                put(&mut vm.x, dst, Box::new(r))
            }
            113 => {
                let (x, y) = (tw!(vm, a), tw!(vm, b));
                let c = Choice::from(inp[0] & 1);
                let r = match var {
                    0 => ConditionallySelectable::conditional_select(x, y, c),
                    1 => {
                        let mut t = *x;
                        t.conditional_assign(y, c);
                        t
                    }
                    _ => {
                        let (mut t, mut u) = (*x, *y);
                        ConditionallySelectable::conditional_swap(&mut t, &mut u, c);
                        t
                    }
                };
                put(&mut vm.t, dst, Box::new(r))
            }
            114 => {
                let (x, y) = (tk!(vm, a), tk!(vm, b));
                let c = Choice::from(inp[0] & 1);
                let r = match var {
                    0 => ConditionallySelectable::conditional_select(x, y, c),
                    1 => {
                        let mut t = *x;
                        t.conditional_assign(y, c);
                        t
                    }
                    _ => {
                        let (mut t, mut u) = (*x, *y);
                        ConditionallySelectable::conditional_swap(&mut t, &mut u, c);
                        t
                    }
                };
                put(&mut vm.k, dst, Box::new(r))
            }
            115 => {
                let mut r = *tk!(vm, a);
                r.conditional_negate(Choice::from(inp[0] & 1));
                put(&mut vm.k, dst, Box::new(r))
            }
            116 => {
                let (x, y) = (tw!(vm, a), tw!(vm, b));
                out.push(match var {
                    0 => (x == y) as u8,
                    1 => x.ct_eq(y).unwrap_u8(),
                    _ => !(x != y) as u8,
                })
            }
            117 => {
                let (x, y) = (tx!(vm, a), tx!(vm, b));
                out.push(match var {
                    0 => (x == y) as u8,
                    1 => x.ct_eq(y).unwrap_u8(),
                    _ => !(x != y) as u8,
                })
            }
            118 => {
                let (x, y) = (tk!(vm, a), tk!(vm, b));
                out.push(match var {
                    0 | 1 => (x == y) as u8,
                    _ => !(x != y) as u8,
                })
            }
            119 => {
                // the identities that `Default` gives
                let g = ExtendedPoint::generator().to_twisted();
                let r = like(&g, Default::default());
                let n = like(&g.to_extensible().to_projective_niels(), Default::default());
                put(&mut vm.t, dst, Box::new(r));
                put(&mut vm.k, a, Box::new(n));
            }
            _ => return MISUSE,
        }
        OK
    }
}

/// # Safety
/// Pointers and lengths describe valid buffers; `vm` comes from `vn_new` of a copy of this library.
#[no_mangle]
pub unsafe extern "C" fn vn_exec(
    vm: *mut Vm, op: u32, dst: u32, a: u32, b: u32, var: u32,
    inp: *const u8, inlen: usize, out: *mut u8, outcap: usize, outlen: *mut usize,
) -> i32 {
    let inp = if inlen == 0 { &[][..] } else { std::slice::from_raw_parts(inp, inlen) };
    let mut o: Vec<u8> = Vec::new();
    #[cfg(feature = "observed")]
    observed::on(true);
    let r = catch_unwind(AssertUnwindSafe(|| exec(&mut *vm, op, dst, a, b, var, inp, &mut o)));
    #[cfg(feature = "observed")]
    observed::on(false);
    let st = match r {
        Ok(st) => st,
        Err(e) => {
            o.clear();
            if e.is::<Injected>() {
                INJECTED
            } else if e.is::<Misuse>() {
                MISUSE
            } else {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                o.extend_from_slice(m.unwrap_or_else(|| "?".into()).as_bytes());
                PANIC
            }
        }
    };
    let n = o.len().min(outcap);
    std::ptr::copy_nonoverlapping(o.as_ptr(), out, n);
    *outlen = n;
    st
}
