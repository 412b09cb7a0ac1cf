//! C22: parties keep Curve448 values in memory and wipe them, in scope or out of it, while others keep theirs. Core dumps are taken at
//! seeded points, between operations and inside them; nothing wiped may be found, nothing else may have changed.
use crate::ch::Ch;
use crate::gens;
use crate::node::BUILDS;
use crate::num::*;
use crate::sys;
use crate::world::*;
use std::ffi::c_void;

const SLOTS: usize = 12;
type Exec = unsafe extern "C" fn(*mut c_void, u32, u32, u32, u32, u32, *const u8, usize, u64, *mut u8, *mut u8, *mut u8, *mut u8, *mut usize) -> i32;
#[derive(Clone, Copy)]
pub struct Wipe {
    new: unsafe extern "C" fn() -> *mut c_void,
    exec: Exec,
}
struct Res {
    st: i32,
    out: [u8; 56],
    mem: Vec<Vec<u8>>,
    dump: Option<Vec<Vec<u8>>>,
    freed: Vec<u8>,
    frees: usize,
}
impl Wipe {
    pub fn load(path: &str) -> Wipe {
        let h = sys::load(path);
        unsafe { Wipe { new: std::mem::transmute(sys::sym(h, "wp_new")), exec: std::mem::transmute(sys::sym(h, "wp_exec")) } }
    }
    fn exec(&self, p: *mut c_void, c: &Call) -> Res {
        let (mut out, mut mem, mut dump, mut freed, mut lens) = ([0u8; 56], vec![0u8; 64 * SLOTS], vec![0u8; 64 * SLOTS], vec![0u8; 16384], [0usize; 4]);
        let st = unsafe {
            (self.exec)(p, c.op, c.dst, c.a, c.n, c.var, c.inp.as_ptr(), c.inp.len(), c.core, out.as_mut_ptr(), mem.as_mut_ptr(), dump.as_mut_ptr(), freed.as_mut_ptr(), lens.as_mut_ptr())
        };
        let cut = |b: &[u8]| b.chunks(lens[0]).take(SLOTS).map(|x| x.to_vec()).collect::<Vec<_>>();
        freed.truncate(lens[2]);
        Res { st, out, mem: cut(&mem), dump: (lens[1] != 0).then(|| cut(&dump)), freed, frees: lens[3] }
    }
}
#[derive(Default, Clone)]
struct Call {
    op: u32,
    dst: u32,
    a: u32,
    n: u32,
    var: u32,
    inp: Vec<u8>,
    core: u64,
}
struct Party {
    build: usize,
    p: *mut c_void,
    /// what each slot should hold; wiped and never used ones hold zero
    want: [[u8; 56]; SLOTS],
    wiped: [bool; SLOTS],
}

fn value(ch: &mut Ch, like: &[U]) -> [u8; 56] {
    gens::field_raw(ch, like).to_le()
}
/// Eight bytes of the value that are unlikely to be there by chance.
fn residue(mem: &[u8], v: &[u8; 56]) -> Option<usize> {
    (0..49).filter(|i| v[*i..*i + 8].iter().filter(|b| **b != 0).count() >= 4).find(|i| mem.windows(8).any(|w| w == &v[*i..*i + 8]))
}

pub fn run(w: &mut W, libs: &[Wipe; 4]) -> R<()> {
    let n = w.ch.range(1, 3) as usize;
    let mut ps: Vec<Party> = (0..n)
        .map(|_| {
            let build = w.ch.idx(4);
            Party { build, p: unsafe { (libs[build].new)() }, want: [[0; 56]; SLOTS], wiped: [false; SLOTS] }
        })
        .collect();
    for (i, p) in ps.iter().enumerate() {
        ev!(w, "party {} runs build {}", i, BUILDS[p.build]);
    }
    let mut seen: Vec<U> = vec![];
    let mut mults = 0;
    for step in 0..w.ch.range(10, 40) {
        w.now += w.ch.range(1, 500);
        let i = w.ch.idx(n);
        let lib = libs[ps[i].build];
        let slot = |ch: &mut Ch| ch.idx(SLOTS) as u32;
        let mut c = Call::default();
        // (slots written, slots wiped)
        let mut wiped: Vec<usize> = vec![];
        let mut live: Vec<[u8; 56]> = vec![];
        let kind = w.ch.below(16);
        match kind {
            0..=3 => {
                let v = if w.ch.chance(1, 5) { ps[w.ch.idx(n)].want[w.ch.idx(SLOTS)] } else { value(&mut w.ch, &seen) };
                seen.push(U::from_le(&v));
                c = Call { op: 1, dst: slot(&mut w.ch), inp: v.to_vec(), ..c };
                ev!(w, "party {} stores {} in slot {}", i, hx(&v), c.dst);
            }
            4 | 5 if mults < 4 => {
                mults += 1;
                let k = gens::scalar_raw(&mut w.ch, &[]);
                c = Call { op: 2, dst: slot(&mut w.ch), a: slot(&mut w.ch), var: w.ch.below(2) as u32, inp: k.to_le().to_vec(), ..c };
                if w.ch.chance(1, 2) {
                    c.core = w.ch.range(1, 4000);
                }
                ev!(w, "party {} multiplies slot {} by {} into slot {}, core dump at point {}", i, c.a, k.hex(), c.dst, c.core);
            }
            6 => {
                c = Call { op: 3, dst: slot(&mut w.ch), a: slot(&mut w.ch), var: w.ch.below(2) as u32, ..c };
                ev!(w, "party {} copies slot {} to slot {}", i, c.a, c.dst);
            }
            7..=11 => {
                c = Call { op: 4, a: slot(&mut w.ch), n: 1, var: w.ch.below(7) as u32, ..c };
                match c.var {
                    1 | 2 => c.n = w.ch.range(0, (SLOTS as u64 - c.a as u64).min(5)) as u32,
                    4 => {
                        c.a = c.a.min(SLOTS as u32 - 2);
                        c.n = 2
                    }
                    6 => w.fault(F_UNWIND),
                    _ => {}
                }
                wiped = (c.a as usize..(c.a + c.n) as usize).collect();
                ev!(w, "party {} wipes slots {:?}, form {}", i, wiped, c.var);
            }
            12 | 13 => {
                let m = w.ch.range(1, 4) as usize;
                let k = gens::scalar_raw(&mut w.ch, &[]);
                let mut fail = w.ch.below(4) as u32;
                if fail != 1 && mults >= 4 {
                    fail = 1;
                }
                if fail != 1 {
                    mults += 1;
                }
                let kindc = w.ch.below(5) as u32;
                let mut inp = k.to_le().to_vec();
                for _ in 0..m {
                    let v = if w.ch.chance(1, 4) { ps[i].want[w.ch.idx(SLOTS)] } else { value(&mut w.ch, &seen) };
                    inp.extend_from_slice(&v);
                    live.push(v);
                }
                if fail == 1 || fail == 2 {
                    w.fault(F_UNWIND);
                }
                c = Call { op: 5, n: w.ch.below(4) as u32, var: kindc << 4 | fail, inp, ..c };
                ev!(w, "party {} holds {} values in a self-wiping container of kind {}, ends in way {}: {}", i, m, kindc, fail, live.iter().map(|v| hx(v)).collect::<Vec<_>>().join(" "));
            }
            14 => {
                c = Call { op: w.ch.range(6, 8) as u32, a: slot(&mut w.ch), n: slot(&mut w.ch), ..c };
                ev!(w, "party {} reads slot {} ({})", i, c.a, c.op);
            }
            _ => {
                // core dump, then the party starts anew
                w.fault(F_CRASH);
                w.fault(F_DUMP);
                ev!(w, "party {} crashes and leaves a core dump", i);
                c = Call { op: 6, a: slot(&mut w.ch), ..c };
            }
        }
        let r = lib.exec(ps[i].p, &c);
        w.st.lib_ops += 1;
        w.st.events += 1;
        w.note(kind ^ (i as u64) << 8 ^ (c.var as u64) << 16 ^ (c.a as u64) << 32);
        let p = &mut ps[i];
        let want_st = match (c.op, c.var) {
            (4, 6) => 3,
            (5, v) if v & 15 == 1 || v & 15 == 2 => 3,
            _ => 0,
        };
        if r.st != want_st {
            // an operation that fails where it should not is a matter of other properties, except when it is the wiping
            let m = format!("operation {} form {} on {} ends with status {}", c.op, c.var, BUILDS[p.build], r.st);
            return viol(if c.op == 4 { "wipe-fails" } else { FOREIGN }, m);
        }
        // what the slots held while the operation was under way
        if let Some(d) = &r.dump {
            w.fault(F_CRASH_IN);
            w.fault(F_DUMP);
            for s in 0..SLOTS {
                w.st.checks += 1;
                if p.wiped[s] && d[s].iter().any(|b| *b != 0) {
                    return viol("dump-residue", format!("a core dump inside a computation on {} shows {} in slot {s}, which was wiped", BUILDS[p.build], hx(&d[s])));
                }
            }
        }
        for &s in &wiped {
            let old = p.want[s];
            p.want[s] = [0; 56];
            p.wiped[s] = true;
            w.st.checks += 1;
            if r.mem[s].iter().any(|b| *b != 0) {
                return viol("residue", format!("step {step}: slot {s} held {} and was wiped (form {}, {}), yet its memory is {}", hx(&old), c.var, BUILDS[p.build], hx(&r.mem[s])));
            }
        }
        match c.op {
            1 | 2 | 3 => {
                let d = c.dst as usize;
                // what the library itself says the value is
                let b = lib.exec(p.p, &Call { op: 6, a: c.dst, ..Default::default() }).out;
                p.want[d] = b;
                p.wiped[d] = false;
                let good = match c.op {
                    1 => b == c.inp[..],
                    3 => b == p.want[c.a as usize],
                    _ => true,
                };
                if !good {
                    return viol(FOREIGN, "a stored value reads differently".into());
                }
            }
            5 => {
                w.st.checks += 1;
                if r.frees == 0 {
                    return viol("not-freed", format!("a self-wiping container of kind {} was never freed", c.var >> 4));
                }
                let plain = (c.var >> 4) != 3;
                let bad = (plain && r.freed.iter().any(|b| *b != 0)) || live.iter().any(|v| residue(&r.freed, v).is_some());
                if bad {
                    return viol(
                        "freed-residue",
                        format!("a self-wiping container of kind {} with {} was freed (way {}, {}), yet its memory is {}", c.var >> 4, live.iter().map(|v| hx(v)).collect::<Vec<_>>().join(" "), c.var & 15, BUILDS[p.build], hx(&r.freed)),
                    );
                }
            }
            7 if p.wiped[c.a as usize] => {
                w.st.checks += 1;
                if r.out[0] != 1 {
                    return viol("not-zero", format!("slot {} was wiped but does not count as of low order on {}", c.a, BUILDS[p.build]));
                }
            }
            8 => {
                w.st.checks += 1;
                let same = p.want[c.a as usize] == p.want[c.n as usize];
                if same != (r.out[0] == 1) {
                    return viol("compare", format!("slots {} and {} on {}: == gives {}", c.a, c.n, BUILDS[p.build], r.out[0]));
                }
            }
            _ => {}
        }
        // everybody, not only the one who acted: values that are wiped stay so, the others keep their value
        for (j, q) in ps.iter().enumerate() {
            let l = libs[q.build];
            let m = if j == i { lib.exec(q.p, &Call { op: 6, ..Default::default() }) } else { l.exec(q.p, &Call { op: 6, ..Default::default() }) }.mem;
            for s in 0..SLOTS {
                w.st.checks += 1;
                if q.wiped[s] && m[s].iter().any(|b| *b != 0) {
                    return viol("residue", format!("step {step}: slot {s} of party {j} was wiped, yet its memory is {}", hx(&m[s])));
                }
                if m[s].len() == 56 && m[s] != q.want[s] {
                    return viol("collateral", format!("step {step}: slot {s} of party {j} on {} held {} and now {}, though nobody wrote to it", BUILDS[q.build], hx(&q.want[s]), hx(&m[s])));
                }
            }
        }
        if kind == 15 {
            w.fault(F_RESTART);
            let build = w.ch.idx(4);
            ps[i] = Party { build, p: unsafe { (libs[build].new)() }, want: [[0; 56]; SLOTS], wiped: [false; SLOTS] };
            ev!(w, "party {} starts anew on build {}", i, BUILDS[build]);
        }
    }
    w.st.sim_us = w.now;
    Ok(())
}
