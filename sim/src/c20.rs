//! C20: several worlds, one history. The worlds run the same program under the same faults and differ in nothing
//! but the secrets; what an observer of time and memory sees (every block entered, every address touched, in order) has
//! to be the same in all of them.
use crate::ch::Ch;
use crate::gens;
use crate::model::Pt;
use crate::node::*;
use crate::rngsim::{self, Kind, Stream};
use crate::sys;
use crate::world::*;

const NAMES: [&str; 2] = ["u64-observed", "u32-observed"];
// export and import per register file: scalar, Edwards, Curve448, Decaf
const ENC: [u32; 4] = [14, 43, 62, 83];
const DEC: [u32; 4] = [5, 42, 61, 82];

#[derive(Clone)]
struct Op {
    op: u32,
    dst: u32,
    a: u32,
    b: u32,
    var: u32,
    /// per world
    inp: Vec<Vec<u8>>,
    rng: Option<Vec<Stream>>,
    /// 0-3: result is a register of that file; 4: a party crashes and reloads register `a` of file `b`; 8: unwinds; 9: result is data
    kind: usize,
}
type Seen = (i32, u64, u64);

/// One kind of secret, in each world; the public ones are the same everywhere.
fn secret<T: Clone>(ch: &mut Ch, worlds: usize, gen: &mut dyn FnMut(&mut Ch, &[T]) -> T) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    let public = ch.chance(1, 4);
    for _ in 0..worlds {
        let x = if public && !v.is_empty() { v[0].clone() } else { gen(ch, &v) };
        v.push(x);
    }
    v
}
fn load(ch: &mut Ch, worlds: usize, k: usize) -> Op {
    let bytes = |v: Vec<Vec<u8>>| v;
    let (op, inp) = match k {
        0 => match ch.below(4) {
            0 => (6, bytes(secret(ch, worlds, &mut gens::scalar_canon).iter().map(|s| { let mut b = s.to_le().to_vec(); b.push(0); b }).collect())),
            1 => {
                let lo = secret(ch, worlds, &mut gens::scalar_raw);
                let hi = secret(ch, worlds, &mut gens::scalar_raw);
                let top = secret(ch, worlds, &mut |ch: &mut Ch, _: &[[u8; 2]]| ch.arr::<2>());
                (7, (0..worlds).map(|i| [&lo[i].to_le()[..], &hi[i].to_le()[..], &top[i][..]].concat()).collect())
            }
            _ => (5, secret(ch, worlds, &mut gens::scalar_raw).iter().map(|s| s.to_le().to_vec()).collect()),
        },
        1 => (42, secret(ch, worlds, &mut gens::point).iter().map(|p: &Pt| p.enc().to_vec()).collect()),
        2 => (61, secret(ch, worlds, &mut gens::field_raw).iter().map(|u| u.to_le().to_vec()).collect()),
        _ => (82, secret(ch, worlds, &mut gens::decaf).iter().map(|p: &Pt| p.decaf_enc().to_vec()).collect()),
    };
    Op { op, dst: 0, a: 0, b: 0, var: 0, inp, rng: None, kind: k }
}
fn program(ch: &mut Ch, worlds: usize) -> Vec<Op> {
    let mut p: Vec<Op> = vec![];
    let mut have: [Vec<u32>; 4] = Default::default();
    let len = ch.range(10, 22) as usize;
    let heavy = ch.below(4);
    let mut mults = 0;
    fn push(p: &mut Vec<Op>, have: &mut [Vec<u32>; 4], mut o: Op) {
        o.dst = p.len() as u32;
        if o.kind < 4 {
            have[o.kind].push(o.dst);
        }
        p.push(o);
    }
    for k in 0..4 {
        for _ in 0..ch.range(1, 2) {
            let o = load(ch, worlds, k);
            push(&mut p, &mut have, o);
        }
    }
    while p.len() < len {
        let pick = |ch: &mut Ch, k: usize| if ch.chance(1, 2) { have[k][have[k].len() - 1] } else { have[k][ch.idx(have[k].len())] };
        let (s1, s2) = (pick(ch, 0), pick(ch, 0));
        let (e1, e2) = (pick(ch, 1), pick(ch, 1));
        let (m1, m2) = (pick(ch, 2), pick(ch, 2));
        let (d1, d2) = (pick(ch, 3), pick(ch, 3));
        let none = vec![vec![]; worlds];
        let two = |op, kind, a, b, var| Op { op, dst: 0, a, b, var, inp: none.clone(), rng: None, kind };
        let one = |op, kind, a, var| Op { op, dst: 0, a, b: 0, var, inp: none.clone(), rng: None, kind };
        // the choice itself is a secret
        let choice = |ch: &mut Ch| -> Vec<Vec<u8>> { (0..worlds).map(|_| vec![ch.below(2) as u8]).collect() };
        let o = match ch.below(40) {
            0 => two(9, 0, s1, s2, 0),
            1 => two(10, 0, s1, s2, 0),
            2 => two(11, 0, s1, s2, 0),
            3 => one(12, 0, s1, 0),
            4 => one(13, 0, s1, 0),
            5 => two(17, 9, s1, s2, ch.below(3) as u32),
            6 => one(16, 9, s1, 0),
            7 => one(ch.pick(&[14u32, 15]), 9, s1, 0),
            8 => {
                let mut o = two(18, 0, s1, ch.below(14) as u32, 0);
                o.inp = (0..worlds).map(|_| { let x = ch.pick(&[0u32, 1, u32::MAX, 0x8000_0000]); if ch.chance(1, 2) { x } else { ch.raw() as u32 } }.to_le_bytes().to_vec()).collect();
                o
            }
            9 => two(19, 9, s1, ch.below(14) as u32, 0),
            10 => {
                let seeds: Vec<u64> = (0..worlds).map(|_| ch.raw()).collect();
                let fail = if ch.chance(1, 4) { Some(ch.chance(1, 2)) } else { None };
                let stuck: Vec<Option<u8>> = (0..worlds).map(|_| if ch.chance(1, 4) { Some(ch.pick(&[0u8, 255])) } else { None }).collect();
                let mut o = one(8, if fail.is_some() { 8 } else { 0 }, 0, 0);
                o.inp = vec![(p.len() as u64).to_le_bytes().to_vec(); worlds];
                o.rng = Some((0..worlds).map(|i| {
                    let mut s = Stream::new(stuck[i].map(Kind::Const).unwrap_or(Kind::Good), seeds[i]);
                    if let Some(partial) = fail {
                        s.fail_at = 0;
                        s.partial = partial;
                    }
                    s
                }).collect());
                o
            }
            11 => two(44, 1, e1, e2, ch.below(7) as u32),
            12 => two(45, 1, e1, e2, ch.below(7) as u32),
            13 => one(46, 1, e1, ch.below(3) as u32),
            14 => one(ch.pick(&[47u32, 48]), 1, e1, 0),
            15 => one(43, 9, e1, 0),
            16 => two(53, 9, e1, e2, ch.below(3) as u32),
            17 => one(55, 2, e1, 0),
            18 => one(56, 1, e1, 0),
            19 => one(57, 1, e1, 0),
            20 => {
                let mut o = two(52, 1, e1, e2, ch.below(4) as u32);
                o.inp = choice(ch);
                o
            }
            21 => {
                let n = ch.idx(5);
                let mut b = vec![];
                let var = ch.below(8) as u32;
                let fail = if n > 0 && ch.chance(1, 4) { ch.idx(n) as u32 } else { u32::MAX };
                b.extend_from_slice(&fail.to_le_bytes());
                b.extend_from_slice(&u32::MAX.to_le_bytes());
                for _ in 0..n {
                    let e = pick(ch, 1);
                    b.extend_from_slice(&e.to_le_bytes());
                }
                let mut o = one(51, if fail != u32::MAX { 8 } else { 1 }, 0, var);
                o.inp = vec![b; worlds];
                o
            }
            22 => two(65, 9, m1, m2, ch.below(3) as u32),
            23 => one(66, 2, m1, 0),
            24 => {
                let mut o = two(67, 2, m1, m2, 0);
                o.inp = choice(ch);
                o
            }
            25 => one(62, 9, m1, 0),
            26 => two(84, 3, d1, d2, 0),
            27 => two(85, 3, d1, d2, ch.below(2) as u32),
            28 => one(86, 3, d1, 0),
            29 => one(83, 9, d1, 0),
            30 => two(88, 9, d1, d2, 0),
            31 => two(50, 1, e1, s1, 0),
            32 => {
                let k = ch.idx(4);
                load(ch, worlds, k)
            }
            33 | 34 => {
                // crash and reload
                let k = ch.idx(4);
                let r = [s1, e1, m1, d1][k];
                two(0, 4, r, k as u32, 0)
            }
            _ => {
                // a run has its favourite kind of multiplication
                mults += 1;
                if mults > 3 {
                    continue;
                }
                match if ch.chance(1, 3) { ch.below(4) } else { heavy } {
                    0 => two(49, 1, e1, s1, ch.below(11) as u32),
                    1 => two(63, 2, m1, s1, ch.below(2) as u32),
                    2 => two(87, 3, d1, s1, ch.below(2) as u32),
                    _ => one(54, 9, e1, 0),
                }
            }
        };
        push(&mut p, &mut have, o);
    }
    p
}

/// Some of the worlds, each in a process of its own, forked at the same point so that their memory is laid out alike.
/// `log`: record the events of that operation there, per world; `stop`: tell the place of one event of it.
fn batch(lib: &Observed, p: &[Op], which: &[usize], log: Option<(usize, [&'static [u64]; 2])>, stop: Option<(usize, u64)>) -> Option<Vec<(Vec<Seen>, String)>> {
    let mut fds = [[0i32; 2]; 8];
    let mut pids = [0i32; 8];
    let mut buf = vec![0u8; 65536];
    let mut res = Vec::with_capacity(8);
    unsafe {
        for j in 0..which.len() {
            assert!(sys::pipe(fds[j].as_mut_ptr()) == 0);
        }
        // no allocation from here to the last fork
        for j in 0..which.len() {
            let pid = sys::fork();
            assert!(pid >= 0);
            if pid == 0 {
                one(lib, p, which[j], fds[j][1], log.map(|(k, b)| (k, b[j])), stop);
                sys::_exit(0);
            }
            pids[j] = pid;
        }
        for j in 0..which.len() {
            sys::close(fds[j][1]);
        }
        let mut good = true;
        for j in 0..which.len() {
            let mut b = vec![];
            loop {
                let n = sys::read(fds[j][0], buf.as_mut_ptr() as *mut _, buf.len());
                if n <= 0 {
                    break;
                }
                b.extend_from_slice(&buf[..n as usize]);
            }
            sys::close(fds[j][0]);
            let mut st = 0;
            sys::waitpid(pids[j], &mut st, 0);
            if b.len() < 24 * p.len() {
                good = false;
                continue;
            }
            let g = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
            let seen = (0..p.len()).map(|k| (g(24 * k) as i32, g(24 * k + 8), g(24 * k + 16))).collect();
            res.push((seen, String::from_utf8_lossy(&b[24 * p.len()..]).to_string()));
        }
        good.then_some(res)
    }
}
fn one(lib: &Observed, p: &[Op], i: usize, fd: i32, log: Option<(usize, &'static [u64])>, stop: Option<(usize, u64)>) {
    unsafe { sys::prctl(1, 9, 0, 0, 0) };
    let vm = lib.lib.vm();
    let mut seen = vec![0u8; 24 * p.len()];
    let mut place = String::new();
    // the input lies at the same address in every world
    let mut inp = vec![0u8; 1024];
    for (k, o) in p.iter().enumerate() {
        if let Some(r) = &o.rng {
            rngsim::set(k as u64, r[i].clone());
        }
        let (lp, lc) = match log {
            Some((j, b)) if j == k => (b.as_ptr() as usize, b.len()),
            _ => (0, 0),
        };
        let at = match stop {
            Some((j, n)) if j == k => n,
            _ => 0,
        };
        lib.begin(lp, lc, at);
        let st = if o.kind == 4 {
            let f = o.b as usize;
            let (_, b) = lib.lib.exec(vm, ENC[f], 0, o.a, 0, 0, &[]);
            inp[..b.len()].copy_from_slice(&b);
            lib.lib.exec(vm, DEC[f], o.a, 0, 0, 0, &inp[..b.len()]).0
        } else {
            let n = o.inp[i].len();
            inp[..n].copy_from_slice(&o.inp[i]);
            lib.lib.exec(vm, o.op, o.dst, o.a, o.b, o.var, &inp[..n]).0
        };
        let (n, h, pl) = lib.end();
        if at != 0 {
            place = pl;
        }
        for (x, y) in [st as u64, n, h].into_iter().enumerate() {
            seen[24 * k + 8 * x..24 * k + 8 * x + 8].copy_from_slice(&y.to_le_bytes());
        }
    }
    sys::write_all(fd, &seen);
    sys::write_all(fd, place.as_bytes());
}
/// The innermost named functions of a backtrace.
fn place(bt: &str) -> String {
    let f: Vec<&str> = bt
        .lines()
        .filter_map(|l| l.trim().split_once(": ").map(|x| x.1))
        .filter(|n| !n.contains("backtrace") && !n.contains("observed::") && !n.contains("sanitizer"))
        .take(3)
        .collect();
    f.join(" < ")
}

pub fn run(w: &mut W, libs: &[Observed; 2]) -> R<()> {
    let build = w.ch.idx(2);
    let lib = &libs[build];
    let worlds = w.ch.range(2, 4) as usize;
    let p = program(&mut w.ch, worlds);
    ev!(w, "build {}, {} worlds, {} operations", NAMES[build], worlds, p.len());
    for (k, o) in p.iter().enumerate() {
        if o.kind == 4 {
            w.fault(F_CRASH);
            ev!(w, "op {}: crash and reload of register {} of file {}", k, o.a, o.b);
        } else {
            if o.kind == 8 {
                w.fault(if o.op == 8 { F_RNGFAIL } else { F_ITERFAIL });
            }
            ev!(w, "op {}: {} a={} b={} form {} input {}", k, opname(o.op), o.a, o.b, o.var, o.inp.iter().map(|b| hx(b)).collect::<Vec<_>>().join(" | "));
        }
    }
    let Some(all) = batch(lib, &p, &(0..worlds).collect::<Vec<_>>(), None, None) else { return viol(FOREIGN, "an operation kills its process".into()) };
    let all: Vec<Vec<Seen>> = all.into_iter().map(|x| x.0).collect();
    for k in 0..p.len() {
        let o = &p[k];
        // an operation that fails where it should not is a matter of other properties
        let fine = |st: i32| st == OK || (o.kind == 8 && st == INJECTED);
        if all.iter().any(|s| !fine(s[k].0)) {
            return viol(FOREIGN, format!("{} gives status {:?}", opname(o.op), all.iter().map(|s| s[k].0).collect::<Vec<_>>()));
        }
        let (_, n, h) = all[0][k];
        w.st.lib_ops += worlds as u64;
        w.st.events += 1;
        w.now += n / 1000 + 1;
        // addresses differ from process to process, their number does not
        w.note(n);
        for i in 1..worlds {
            w.st.checks += 1;
            if (all[i][k].1, all[i][k].2) != (n, h) {
                let name = if o.kind == 4 { "reload" } else { opname(o.op) };
                let id = if o.kind == 4 { format!("reload{}", o.b) } else { format!("op{}", o.op) };
                // where do they part?
                const CAP: usize = 6 << 20;
                let (la, lb) = (sys::shared(CAP), sys::shared(CAP));
                batch(lib, &p, &[0, i], Some((k, [la, lb])), None);
                let at = la.iter().zip(lb.iter()).position(|(x, y)| x != y);
                let how = match at {
                    None => "after the part that was recorded".to_string(),
                    Some(at) => {
                        let pl = batch(lib, &p, &[0, i], None, Some((k, at as u64 + 1)));
                        let (pa, pb) = pl.map(|x| (x[0].1.clone(), x[1].1.clone())).unwrap_or_default();
                        let what = |e: u64| match e >> 60 {
                            0 => "ends",
                            1 => "loads",
                            2 => "stores",
                            3 => "enters a block",
                            7 => "compares so many bytes",
                            _ => "copies",
                        };
                        format!("at event {}: one {} in [{}], the other {} in [{}]", at + 1, what(la[at]), place(&pa), what(lb[at]), place(&pb))
                    }
                };
                return viol(
                    &format!("leak-{id}"),
                    format!(
                        "{name} (form {}, {}) is observed differently for different secrets: {} and {} events, first difference {how}; operation {k}, worlds 0 and {i}, inputs {} and {}",
                        o.var, NAMES[build], n, all[i][k].1, hx(&o.inp[0]), hx(&o.inp[i])
                    ),
                );
            }
        }
    }
    w.st.sim_us = w.now;
    Ok(())
}
