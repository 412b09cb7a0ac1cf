//! A party that keeps Curve448 values in memory and wipes them (feature `zeroize` of the library).
//!
//! Its values live in slots, whose memory the simulator reads when it injects a core dump, or in containers on the
//! heap; when one of these is freed, the allocator keeps what the block still held for the simulator to see.
use ed448_goldilocks::curve::MontgomeryPoint;
use ed448_goldilocks::Scalar;
use std::mem::size_of;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::ptr::{addr_of, addr_of_mut, read_volatile};
use zeroize::{Zeroize, Zeroizing};

const SLOTS: usize = 12;
const M: usize = size_of::<MontgomeryPoint>();

/// Blocks that belong to containers of values, and what they held when they were freed.
static mut TRACK: bool = false;
static mut BLOCKS: [(usize, usize); 64] = [(0, 0); 64];
static mut FREED: [u8; 16384] = [0; 16384];
static mut FREED_LEN: usize = 0;
static mut FREES: usize = 0;

// The C library's functions, taken over for this object (-Bsymbolic), and not a `#[global_allocator]`: with one of those the
// compiler is more careful with stores to memory that is about to be freed than it is in an ordinary program.
extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_free(p: *mut u8);
}
/// # Safety
/// As in C.
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
    let p = __libc_malloc(n);
    if TRACK {
        let b = &mut *addr_of_mut!(BLOCKS);
        if let Some(x) = b.iter_mut().find(|x| x.0 == 0) {
            *x = (p as usize, n);
        }
    }
    p
}
/// # Safety
/// As in C.
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut u8) {
    let b = &mut *addr_of_mut!(BLOCKS);
    if !p.is_null() {
        if let Some(x) = b.iter_mut().find(|x| x.0 == p as usize) {
            let n = x.1;
            *x = (0, 0);
            FREES += 1;
            let f = &mut *addr_of_mut!(FREED);
            for i in 0..n {
                if FREED_LEN < f.len() {
                    f[FREED_LEN] = read_volatile(p.add(i));
                    FREED_LEN += 1;
                }
            }
        }
    }
    __libc_free(p)
}

struct Injected;
pub struct Party {
    slots: Box<[MontgomeryPoint; SLOTS]>,
}

// a core dump in the middle of a computation
static mut LEFT: u64 = 0;
static mut CORE: (usize, usize) = (0, 0);
static mut DUMP: [u8; SLOTS * 64] = [0; SLOTS * 64];
static mut DUMPED: bool = false;
fn dump(from: usize, n: usize) {
    unsafe {
        let d = &mut *addr_of_mut!(DUMP);
        for i in 0..n.min(d.len()) {
            d[i] = read_volatile((from as *const u8).add(i));
        }
        DUMPED = true;
    }
}
#[cfg(goldilocks_sim)]
fn point(_: u32) {
    unsafe {
        if LEFT > 0 {
            LEFT -= 1;
            if LEFT == 0 {
                dump(CORE.0, CORE.1)
            }
        }
    }
}

#[no_mangle]
pub extern "C" fn wp_new() -> *mut Party {
    std::panic::set_hook(Box::new(|_| {}));
    #[cfg(goldilocks_sim)]
    ed448_goldilocks::sim::install(point);
    Box::into_raw(Box::new(Party { slots: Box::new([MontgomeryPoint([0; 56]); SLOTS]) }))
}

fn arr(b: &[u8]) -> [u8; 56] {
    b.try_into().unwrap()
}
/// A container in scope: `fail` 1 unwinds before the values are used, 2 after; 3 uses and ends early with `return`.
fn scoped<C>(mk: impl FnOnce() -> C, first: impl Fn(&C) -> MontgomeryPoint, k: &Scalar, fail: u32, out: &mut [u8; 56]) {
    unsafe { TRACK = true };
    let c = mk();
    unsafe { TRACK = false };
    if fail == 1 {
        resume_unwind(Box::new(Injected));
    }
    *out = *(&first(&c) * k).as_bytes();
    if fail == 2 {
        resume_unwind(Box::new(Injected));
    }
    if fail == 3 {
        return;
    }
    drop(c)
}
fn run(p: &mut Party, op: u32, dst: usize, a: usize, n: usize, var: u32, inp: &[u8], out: &mut [u8; 56]) {
    match op {
        1 => p.slots[dst] = MontgomeryPoint(arr(inp)),
        2 => {
            let k = Scalar::from_bytes(arr(inp));
            p.slots[dst] = if var == 0 { &p.slots[a] * &k } else { &k * &p.slots[a] };
        }
        3 => p.slots[dst] = if var == 0 { p.slots[a] } else { p.slots[a].clone() },
        // wiping, in the ways a program would
        4 => match var {
            0 => p.slots[a].zeroize(),
            1 => p.slots[a..a + n].iter_mut().zeroize(),
            2 => p.slots[a..a + n].iter_mut().for_each(Zeroize::zeroize),
            3 => {
                let z: &mut dyn Zeroize = &mut p.slots[a];
                z.zeroize()
            }
            4 => <&mut [MontgomeryPoint; 2]>::try_from(&mut p.slots[a..a + 2]).unwrap().zeroize(),
            _ => {
                // by a guard that takes the place of the value, and goes out of scope
                struct Guard<'a>(&'a mut MontgomeryPoint);
                impl Drop for Guard<'_> {
                    fn drop(&mut self) {
                        self.0.zeroize()
                    }
                }
                let _g = Guard(&mut p.slots[a]);
                if var == 6 {
                    resume_unwind(Box::new(Injected))
                }
            }
        },
        5 => {
            let k = Scalar::from_bytes(arr(&inp[..56]));
            let vals: Vec<MontgomeryPoint> = inp[56..].chunks(56).map(|c| MontgomeryPoint(arr(c))).collect();
            let (kind, fail) = (var >> 4, var & 15);
            match kind {
                0 => scoped(|| Box::new(Zeroizing::new(vals[0])), |c| ***c, &k, fail, out),
                1 => scoped(
                    || {
                        let mut v = Zeroizing::new(Vec::with_capacity(vals.len() + n));
                        v.extend_from_slice(&vals);
                        v
                    },
                    |c| c[0],
                    &k,
                    fail,
                    out,
                ),
                2 => scoped(|| vals.iter().map(|v| Zeroizing::new(*v)).collect::<Vec<_>>(), |c| *c[0], &k, fail, out),
                // (an Option is left out: the zeroize crate ends with writing `None`, whose payload is whatever lay on the stack)
                3 => scoped(|| std::sync::Arc::new(Zeroizing::new(vals[0])), |c| ***c, &k, fail, out),
                _ => scoped(|| Box::new(Zeroizing::new([vals[0], vals[vals.len() - 1]])), |c| c[0], &k, fail, out),
            }
        }
        6 => *out = *p.slots[a].as_bytes(),
        7 => out[0] = p.slots[a].is_low_order() as u8,
        8 => out[0] = (p.slots[a] == p.slots[n]) as u8,
        _ => panic!("unknown operation"),
    }
}

/// `core`: dump the slots at that hook point of the operation. Afterwards: `mem` holds the slots' memory, `freed` what freed
/// containers held. Status: 0 done, 2 panic, 3 injected unwind.
/// # Safety
/// The pointers describe valid buffers.
#[no_mangle]
pub unsafe extern "C" fn wp_exec(
    p: *mut Party, op: u32, dst: u32, a: u32, n: u32, var: u32, inp: *const u8, inp_len: usize, core: u64, out: *mut u8, mem: *mut u8, dumped: *mut u8, freed: *mut u8, lens: *mut usize,
) -> i32 {
    let inp = std::slice::from_raw_parts(inp, inp_len);
    let base = (*p).slots.as_ptr() as usize;
    FREED_LEN = 0;
    FREES = 0;
    DUMPED = false;
    TRACK = false;
    CORE = (base, SLOTS * M);
    LEFT = core;
    let mut o = [0u8; 56];
    let r = catch_unwind(AssertUnwindSafe(|| run(&mut *p, op, dst as usize, a as usize, n as usize, var, inp, &mut o)));
    LEFT = 0;
    TRACK = false;
    std::ptr::copy_nonoverlapping(o.as_ptr(), out, 56);
    for i in 0..SLOTS * M {
        *mem.add(i) = read_volatile((base as *const u8).add(i));
    }
    std::ptr::copy_nonoverlapping(addr_of!(DUMP) as *const u8, dumped, SLOTS * M);
    std::ptr::copy_nonoverlapping(addr_of!(FREED) as *const u8, freed, FREED_LEN);
    *lens = M;
    *lens.add(1) = DUMPED as usize;
    *lens.add(2) = FREED_LEN;
    *lens.add(3) = FREES;
    match r {
        Ok(()) => 0,
        Err(e) if e.is::<Injected>() => 3,
        Err(_) => 2,
    }
}
