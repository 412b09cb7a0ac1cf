//! C12: several tasks of one process call the library; a seeded scheduler owns every interleaving
//! at the granularity of field operations. Real threads, but only the token holder runs: a thread
//! gives the token up at a scheduling point the seed selected, or between operations. Scheduling
//! points are the library's hooks (every field and scalar primitive), and, in the traced builds,
//! every load and store the compiled library makes to its writable static memory: whatever the
//! library might keep between calls.
//!
//! Oracles: (1) the same operations executed one by one, in another order, in a second freshly
//! loaded copy of the library; (2) for sampled operations, only the operations its operands stem
//! from, in a fresh process. Any difference means a result depended on something else than its
//! arguments.
use crate::ch::Ch;
use crate::gens;
use crate::model::*;
use crate::node::*;
use crate::num::*;
use crate::rngsim::{self, Kind, Stream};
use crate::sys;
use crate::world::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
struct Op {
    op: u32,
    dst: u32,
    a: u32,
    b: u32,
    var: u32,
    inp: Vec<u8>,
    kind: usize,
    deps: Vec<usize>, // earlier ops of the task that produced the operands
    rng: Option<Stream>,
}
type Out = (i32, Vec<u8>, Vec<u8>);
const NAMES: [&str; 6] = [BUILDS[0], BUILDS[1], BUILDS[2], BUILDS[3], "u64-traced", "u32-traced"];
const ENC: [u32; 4] = [14, 43, 62, 83];

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
static BUDGET: AtomicI64 = AtomicI64::new(i64::MAX);
static CURRENT: AtomicU64 = AtomicU64::new(0);
static HITS: AtomicU64 = AtomicU64::new(0);
static ACCESSES: AtomicU64 = AtomicU64::new(0);
static SCHED: Mutex<Option<Arc<Sched>>> = Mutex::new(None);

struct State {
    ch: Ch,
    current: usize,
    alive: Vec<bool>,
    blocked: Vec<bool>,
    tids: Vec<i64>,
    task_next: Vec<usize>,
    task_busy: Vec<bool>,
    results: Vec<Vec<Option<(Out, usize)>>>,
    order: Vec<(usize, usize)>,
    switches: u64,
    midop: u64,
    hash: u64,
    style: u64,
    trace: Vec<String>,
}
struct Sched {
    m: Mutex<State>,
    cv: Condvar,
}

/// An access of a traced build to its writable static memory.
pub extern "C" fn access_point(_addr: usize) {
    if ME.with(|m| m.get()) != usize::MAX {
        ACCESSES.fetch_add(1, SeqCst);
    }
    yield_point(0);
}
/// The hook: called by the library at every scheduling point.
pub extern "C" fn yield_point(_site: u32) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return;
    }
    HITS.fetch_add(1, SeqCst);
    if CURRENT.load(SeqCst) == me as u64 && BUDGET.fetch_sub(1, SeqCst) > 1 {
        return;
    }
    let s = SCHED.lock().unwrap().clone();
    if let Some(s) = s {
        switch(&s, me, true);
    }
}
fn interval(st: &mut State) -> i64 {
    let k = st.style;
    let r = match if k == 3 { st.ch.below(3) } else { k } {
        _ if st.switches > 6000 => st.ch.range(1, 60_000),
        0 => st.ch.range(1, 20),
        1 => st.ch.range(1, 600),
        2 => st.ch.range(1, 12_000),
        4 => st.ch.range(1, 2),
        5 => st.ch.range(1, 8),
        _ => st.ch.range(1, 60),
    };
    r as i64
}
fn switch(s: &Sched, me: usize, midop: bool) {
    let mut st = s.m.lock().unwrap();
    if st.current == me {
        let cand: Vec<usize> = (0..st.alive.len()).filter(|t| st.alive[*t] && !st.blocked[*t]).collect();
        let next = cand[st.ch.idx(cand.len())];
        let iv = interval(&mut st);
        BUDGET.store(iv, SeqCst);
        if next != me {
            st.switches += 1;
            st.midop += midop as u64;
            st.hash = crate::ch::mix(st.hash ^ HITS.load(SeqCst).wrapping_mul(31) ^ next as u64);
            if st.trace.len() < 4000 {
                let h = HITS.load(SeqCst);
                st.trace.push(format!("point {h}: thread {me} preempted{}, thread {next} runs", if midop { " inside an operation" } else { "" }));
            }
            st.current = next;
            CURRENT.store(st.current as u64, SeqCst);
            s.cv.notify_all();
        }
    } else {
        // a thread that had been blocked on a lock comes back
        st.blocked[me] = false;
    }
    while st.current != me {
        st = s.cv.wait(st).unwrap();
    }
    st.blocked[me] = false;
}

fn operands(ch: &mut Ch) -> (Vec<U>, Vec<Pt>, Vec<[u8; 56]>, Vec<Pt>) {
    // few values, many coincidences: equal, opposite, differing in one part only
    let mut sc = vec![];
    for _ in 0..ch.range(2, 5) {
        let l = sc.clone();
        sc.push(gens::scalar_raw(ch, &l));
    }
    let mut ed = vec![];
    for _ in 0..ch.range(2, 5) {
        let l = ed.clone();
        ed.push(gens::point(ch, &l));
    }
    let mut mo = vec![];
    for _ in 0..ch.range(1, 4) {
        let l: Vec<U> = mo.iter().map(|b: &[u8; 56]| U::from_le(b)).collect();
        mo.push(gens::field_raw(ch, &l).to_le());
    }
    let mut de = vec![];
    for _ in 0..ch.range(1, 4) {
        let l = de.clone();
        de.push(gens::decaf(ch, &l));
    }
    (sc, ed, mo, de)
}
fn program(ch: &mut Ch, len: usize, pool: &(Vec<U>, Vec<Pt>, Vec<[u8; 56]>, Vec<Pt>), classes: &[u64], tag: u64) -> Vec<Op> {
    let mut p: Vec<Op> = vec![];
    // producers per register file: op indexes (register number = op index)
    let mut have: [Vec<usize>; 4] = Default::default();
    // loads
    let push = |p: &mut Vec<Op>, have: &mut [Vec<usize>; 4], mut o: Op| {
        let i = p.len();
        o.dst = i as u32;
        if o.kind < 4 {
            have[o.kind].push(i);
        }
        p.push(o);
    };
    let base = |op, kind| Op { op, dst: 0, a: 0, b: 0, var: 0, inp: vec![], kind, deps: vec![], rng: None };
    for _ in 0..ch.range(1, 3) {
        for k in 0..4 {
            let mut o = match k {
                0 => base(5, 0),
                1 => base(42, 1),
                2 => base(61, 2),
                _ => base(82, 3),
            };
            o.inp = match k {
                0 => pool.0[ch.idx(pool.0.len())].to_le().to_vec(),
                1 => pool.1[ch.idx(pool.1.len())].enc().to_vec(),
                2 => pool.2[ch.idx(pool.2.len())].to_vec(),
                _ => pool.3[ch.idx(pool.3.len())].decaf_enc().to_vec(),
            };
            push(&mut p, &mut have, o);
        }
    }
    let pick = |ch: &mut Ch, have: &[Vec<usize>; 4], k: usize| -> usize {
        let v = &have[k];
        if ch.chance(1, 2) {
            v[v.len() - 1]
        } else {
            v[ch.idx(v.len())]
        }
    };
    while p.len() < len {
        let (s1, s2) = (pick(ch, &have, 0), pick(ch, &have, 0));
        let (e1, e2) = (pick(ch, &have, 1), pick(ch, &have, 1));
        let (m1, m2) = (pick(ch, &have, 2), pick(ch, &have, 2));
        let (d1, d2) = (pick(ch, &have, 3), pick(ch, &have, 3));
        let two = |op, kind, a: usize, b: usize, var| Op { op, dst: 0, a: a as u32, b: b as u32, var, inp: vec![], kind, deps: vec![a, b], rng: None };
        let one = |op, kind, a: usize, var| Op { op, dst: 0, a: a as u32, b: 0, var, inp: vec![], kind, deps: vec![a], rng: None };
        let o = match classes[ch.idx(classes.len())] {
            0 => two(9, 0, s1, s2, 0),
            1 => two(10, 0, s1, s2, 0),
            2 => two(11, 0, s1, s2, 0),
            3 => one(12, 0, s1, 0),
            4 => one(13, 0, s1, 0),
            5 => two(17, 9, s1, s2, 0),
            6 => one(16, 9, s1, 0),
            7 => two(44, 1, e1, e2, ch.below(7) as u32),
            8 => two(45, 1, e1, e2, ch.below(7) as u32),
            9 => one(46, 1, e1, ch.below(5) as u32),
            10 => one(47, 1, e1, 0),
            11 => one(48, 1, e1, 0),
            12 => two(53, 9, e1, e2, 0),
            13 => one(55, 2, e1, 0),
            14 => one(43, 9, e1, 0),
            15 => {
                let mut o = two(52, 1, e1, e2, ch.below(4) as u32);
                o.inp = vec![ch.below(2) as u8];
                o
            }
            16 | 17 => {
                let mut fail = u32::MAX;
                let n = ch.idx(6);
                let var = ch.below(16) as u32;
                let open = var & 6 == 0;
                if ch.chance(1, 2) && (open || n > 0) {
                    // an iterator that told its length need not be asked for one more element
                    fail = ch.idx(if open { n + 1 } else { n }) as u32;
                }
                let mut o = Op { op: 51, dst: 0, a: 0, b: 0, var, inp: fail.to_le_bytes().to_vec(), kind: 1, deps: vec![], rng: None };
                o.inp.extend_from_slice(&u32::MAX.to_le_bytes());
                for _ in 0..n {
                    let e = pick(ch, &have, 1);
                    o.deps.push(e);
                    o.inp.extend_from_slice(&(e as u32).to_le_bytes());
                }
                if fail != u32::MAX {
                    o.kind = 8; // unwinds: writes nothing
                }
                o
            }
            18 | 19 => {
                let ctx = tag.wrapping_add(p.len() as u64);
                let mut s = Stream::new(if ch.chance(1, 4) { Kind::Const(ch.pick(&[0u8, 255])) } else { Kind::Good }, ch.below(4));
                let mut o = Op { op: 8, dst: 0, a: 0, b: 0, var: ch.below(2) as u32, inp: ctx.to_le_bytes().to_vec(), kind: 0, deps: vec![], rng: None };
                if ch.chance(1, 3) {
                    s.fail_at = 0;
                    s.partial = ch.chance(1, 2);
                    o.kind = 8;
                }
                o.rng = Some(s);
                o
            }
            20 => two(65, 9, m1, m2, 0),
            21 => one(64, 9, m1, 0),
            22 => one(66, 2, m1, 0),
            23 => two(84, 3, d1, d2, 0),
            24 => two(85, 3, d1, d2, ch.below(2) as u32),
            25 => one(86, 3, d1, 0),
            26 => {
                // a fresh load, often of something that is no encoding at all
                match ch.below(6) {
                    0 => {
                        let mut o = base(5, 0);
                        o.inp = pool.0[ch.idx(pool.0.len())].to_le().to_vec();
                        o
                    }
                    1 => {
                        let mut o = base(42, 1);
                        o.inp = pool.1[ch.idx(pool.1.len())].enc().to_vec();
                        if ch.chance(1, 2) {
                            let other = pool.1[ch.idx(pool.1.len())].enc();
                            gens::damage(ch, &mut o.inp, &other);
                            o.inp.resize(57, 0);
                            if Pt::dec(&o.inp[..].try_into().unwrap()).is_none() {
                                o.kind = 9;
                            }
                        }
                        o
                    }
                    2 => {
                        let mut o = base(61, 2);
                        o.inp = pool.2[ch.idx(pool.2.len())].to_vec();
                        o
                    }
                    3 => {
                        let mut o = base(82, 3);
                        o.inp = pool.3[ch.idx(pool.3.len())].decaf_enc().to_vec();
                        if ch.chance(1, 2) {
                            let other = pool.3[ch.idx(pool.3.len())].decaf_enc();
                            gens::damage(ch, &mut o.inp, &other);
                            o.inp.resize(56, 0);
                            if Pt::decaf_dec(&o.inp[..].try_into().unwrap()).is_none() {
                                o.kind = 9;
                            }
                        }
                        o
                    }
                    4 => {
                        let mut o = base(6, 0);
                        o.inp = pool.0[ch.idx(pool.0.len())].to_le().to_vec();
                        o.inp.push(if ch.chance(1, 6) { 1 } else { 0 });
                        if o.inp[56] != 0 || U::from_le(&o.inp[..56]) >= L {
                            o.kind = 9;
                        }
                        o
                    }
                    _ => {
                        let mut o = base(7, 0);
                        o.inp = pool.0[ch.idx(pool.0.len())].to_le().to_vec();
                        let hi = pool.0[ch.idx(pool.0.len())].to_le();
                        o.inp.extend_from_slice(&hi);
                        o.inp.extend_from_slice(&[0, 0]);
                        o
                    }
                }
            }
            36 => one(15, 9, s1, 0),
            37 => one(56, 1, e1, 0),
            38 => {
                let mut o = two(67, 2, m1, m2, 0);
                o.inp = vec![ch.below(2) as u8];
                o
            }
            39 => two(88, 9, d1, d2, 0),
            40 => match ch.below(8) {
                0 => base(1, 0),
                1 => base(2, 0),
                2 => base(3, 0),
                3 => base(40, 1),
                4 => base(41, 1),
                5 => base(60, 2),
                6 => base(80, 3),
                _ => base(81, 3),
            },
            41 => {
                let mut o = base(90, 9);
                o.var = ch.below(3) as u32;
                for _ in 0..2 {
                    o.inp.extend_from_slice(&pool.3[ch.idx(pool.3.len())].decaf_enc());
                }
                o
            }
            42 => two(53, 9, e1, e2, ch.below(3) as u32),
            43 => two(65, 9, m1, m2, ch.below(3) as u32),
            44 => one(83, 9, d1, ch.below(2) as u32),
            45 => one(14, 9, s1, 0),
            27 | 28 => two(49, 1, e1, s1, ch.below(11) as u32),
            29 => two(50, 1, e1, s1, 0),
            30 | 31 => two(63, 2, m1, s1, ch.below(2) as u32),
            32 | 33 => two(87, 3, d1, s1, ch.below(2) as u32),
            34 => one(54, 9, e1, 0),
            _ => one(57, 1, e1, 0),
        };
        push(&mut p, &mut have, o);
    }
    p
}
/// The classes of operations of one run: all of them, or a few that then meet often.
fn classes(ch: &mut Ch, cheap: bool) -> Vec<u64> {
    let mut all: Vec<u64> = (0..27).chain(36..46).collect();
    if !cheap {
        all.extend(27..36);
        all.extend([28, 30, 32]);
    }
    if ch.chance(2, 3) {
        // always some fresh values
        let mut few = vec![26];
        for _ in 0..ch.range(1, 6) {
            few.push(all[ch.idx(all.len())]);
        }
        return few;
    }
    all
}
fn exec_op(lib: &Lib, vm: Vm, o: &Op) -> Out {
    if let Some(s) = &o.rng {
        rngsim::set(u64::from_le_bytes(o.inp[..].try_into().unwrap()), s.clone());
    }
    let (st, out) = lib.exec(vm, o.op, o.dst, o.a, o.b, o.var, &o.inp);
    let out = if st == PANIC { vec![] } else { out };
    if st == OK && o.kind < 4 {
        let (_, enc) = lib.exec(vm, ENC[o.kind], 0, o.dst, 0, 0, &[]);
        return (st, out, enc);
    }
    (st, out, vec![])
}

pub fn run(w: &mut W, alt: &[Lib; 4], traced_libs: &[Lib; 2]) -> R<()> {
    let build = w.ch.idx(6);
    let traced = build >= 4;
    let (lib, other) = if traced { (traced_libs[build - 4], alt[build - 4]) } else { (w.libs[build], alt[build]) };
    let threads = w.ch.range(1, 4) as usize;
    let long = w.ch.chance(1, 8);
    let tasks = if long { 1 + w.ch.idx(2) } else { w.ch.range(threads as u64, threads as u64 + 2) as usize };
    let pool = operands(&mut w.ch);
    let mut progs: Vec<Vec<Op>> = vec![];
    let same = w.ch.chance(1, 2);
    let cheap = long || w.ch.chance(1, 3);
    let mut cl = classes(&mut w.ch, cheap);
    for t in 0..tasks {
        let len = if long { let hi = w.ch.pick(&[500u64, 500, 500, 4000]); w.ch.range(60, hi) } else { w.ch.range(8, 26) } as usize;
        if !same {
            let cheap = long || w.ch.chance(1, 3);
            cl = classes(&mut w.ch, cheap);
        }
        progs.push(program(&mut w.ch, len, &pool, &cl, (t as u64) << 32));
    }
    if !long && tasks > 1 && w.ch.chance(1, 3) {
        // several tasks compute the very same thing
        for t in 1..tasks {
            if w.ch.chance(1, 2) {
                let mut p = progs[0].clone();
                for o in p.iter_mut().filter(|o| o.rng.is_some()) {
                    let c = u64::from_le_bytes(o.inp[..].try_into().unwrap()) + ((t as u64) << 32);
                    o.inp = c.to_le_bytes().to_vec();
                }
                progs[t] = p;
            }
        }
    }
    let style = if traced { w.ch.range(4, 6) } else { w.ch.below(4) };
    ev!(w, "build {}, {} threads, {} tasks, {} operations", NAMES[build], threads, tasks, progs.iter().map(|p| p.len()).sum::<usize>());
    if w.trace.is_some() {
        for (t, p) in progs.iter().enumerate() {
            for (i, o) in p.iter().enumerate() {
                ev!(w, "task {} op {}: {} a={} b={} form {} input {}{}", t, i, opname(o.op), o.a, o.b, o.var, hx(&o.inp), o.rng.as_ref().map(|s| format!(" generator {s:?}")).unwrap_or_default());
            }
        }
    }
    // reference 2 comes first: fresh processes, forked while the library has not computed anything yet
    let total: usize = progs.iter().map(|p| p.len()).sum();
    let mut sample: Vec<(usize, usize)> = vec![];
    for (t, p) in progs.iter().enumerate() {
        for i in 0..p.len() {
            sample.push((t, i));
        }
    }
    let want = total.min(24);
    for i in 0..want {
        let j = i + w.ch.idx(total - i);
        sample.swap(i, j);
    }
    sample.truncate(want);
    let mut fresh: Vec<((usize, usize), Out)> = vec![];
    for (t, i) in sample {
        match isolated(&lib, &progs[t], i) {
            Fresh::Got(o) => fresh.push(((t, i), o)),
            Fresh::Hang => {
                let o = &progs[t][i];
                return viol(&format!("hang-op{}", o.op), format!("{} ({}) does not return within 20 s in a fresh process with one thread; form {}, input {}", opname(o.op), NAMES[build], o.var, hx(&o.inp)));
            }
            Fresh::Died => return viol(FOREIGN, "an operation kills its process".into()),
        }
    }

    // a long past: one operation, over and over, before everything else
    if w.ch.chance(1, 6) {
        let t = w.ch.idx(tasks);
        // roughly what a call takes, in microseconds; a past is worth two seconds at most
        let factor = [1u64, 2, 2, 2, 2, 8][build];
        let cost = |o: &Op| match o.op {
            // sums and draws whose source itself computes included
            49 | 51 | 54 | 63 | 87 => 1000,
            8 if o.var == 1 => 1000,
            12 | 55 | 57 => 250,
            42 | 43 | 56 | 66 | 67 | 82 | 83 => 50,
            8 => 20,
            _ => 4,
        };
        let mut i = w.ch.idx(progs[t].len());
        if w.ch.chance(1, 3) {
            // what computes longest has most room for a past
            i = (0..progs[t].len()).map(|k| (i + k) % progs[t].len()).find(|k| cost(&progs[t][*k]) == 1000).unwrap_or(i);
        }
        let o = &progs[t][i];
        let reps = w.ch.pick(&[130u64, 300, 1100, 5000, 70_000]);
        let reps = if reps == 70_000 && w.ch.chance(3, 4) { 9000 } else { reps };
        let reps = reps.min(2_000_000 / (cost(o) * factor)).min(if o.kind >= 8 { 5000 } else { 70_000 });
        ev!(w, "before: task {} op {} ({}) {} times", t, i, opname(o.op), reps);
        let vm = lib.vm();
        for j in needs(&progs[t], i) {
            exec_op(&lib, vm, &progs[t][j]);
        }
        let first = exec_op(&lib, vm, o);
        let every = if reps * (cost(o) + 50) * factor <= 3_000_000 { 1 } else { 16 };
        for n in 1..reps {
            if n % every == 0 || n + 600 > reps {
                let again = exec_op(&lib, vm, o);
                w.st.checks += 1;
                if again != first {
                    return viol(&format!("interference-op{}", o.op), format!("{} ({}), called {} times with the same arguments, gives {} {} {} and then {} {} {}; form {}, input {}", opname(o.op), NAMES[build], n + 1, first.0, hx(&first.1), hx(&first.2), again.0, hx(&again.1), hx(&again.2), o.var, hx(&o.inp)));
                }
            } else {
                if let Some(s) = &o.rng {
                    rngsim::set(u64::from_le_bytes(o.inp[..].try_into().unwrap()), s.clone());
                }
                lib.exec(vm, o.op, o.dst, o.a, o.b, o.var, &o.inp);
            }
        }
        w.st.lib_ops += reps;
    }

    // the interleaved execution
    let n_ops: Vec<usize> = progs.iter().map(|p| p.len()).collect();
    let ch = std::mem::replace(&mut w.ch, Ch::replay(vec![]));
    let s = Arc::new(Sched {
        m: Mutex::new(State {
            ch, current: 0, alive: vec![true; threads], blocked: vec![false; threads], tids: vec![0; threads],
            task_next: vec![0; tasks], task_busy: vec![false; tasks],
            results: n_ops.iter().map(|n| vec![None; *n]).collect(), order: vec![], switches: 0, midop: 0, hash: 0, style, trace: vec![],
        }),
        cv: Condvar::new(),
    });
    {
        let mut st = s.m.lock().unwrap();
        let iv = interval(&mut st);
        BUDGET.store(iv, SeqCst);
    }
    *SCHED.lock().unwrap() = Some(s.clone());
    let progs = Arc::new(progs);
    let vms: Arc<Vec<Vm>> = Arc::new((0..tasks).map(|_| lib.vm()).collect());
    struct SendVms(Arc<Vec<Vm>>);
    unsafe impl Send for SendVms {}
    let finished = Arc::new(AtomicU64::new(0));
    for th in 0..threads {
        let (s, progs, vms, finished) = (s.clone(), progs.clone(), SendVms(vms.clone()), finished.clone());
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let vms = vms;
                {
                    let mut st = s.m.lock().unwrap();
                    st.tids[th] = sys::gettid();
                    while st.current != th {
                        st = s.cv.wait(st).unwrap();
                    }
                }
                loop {
                    // choose a task that nobody is executing
                    let job = {
                        let mut st = s.m.lock().unwrap();
                        let c: Vec<usize> = (0..progs.len()).filter(|t| !st.task_busy[*t] && st.task_next[*t] < progs[*t].len()).collect();
                        if c.is_empty() {
                            None
                        } else {
                            let t = c[st.ch.idx(c.len())];
                            st.task_busy[t] = true;
                            let i = st.task_next[t];
                            if st.trace.len() < 4000 {
                                st.trace.push(format!("thread {th}: task {t} op {i} ({}) starts", opname(progs[t][i].op)));
                            }
                            Some((t, i))
                        }
                    };
                    let Some((t, i)) = job else { break };
                    ME.with(|m| m.set(th));
                    let out = exec_op(&lib, vms.0[t], &progs[t][i]);
                    ME.with(|m| m.set(usize::MAX));
                    HITS.fetch_add(1, SeqCst);
                    {
                        let mut st = s.m.lock().unwrap();
                        // a thread that had been blocked may get here without the token
                        st.blocked[th] = false;
                        while st.current != th {
                            st = s.cv.wait(st).unwrap();
                        }
                        st.task_busy[t] = false;
                        st.task_next[t] = i + 1;
                        st.results[t][i] = Some((out, th));
                        st.order.push((t, i));
                        st.hash = crate::ch::mix(st.hash ^ ((t as u64) << 32) ^ i as u64);
                    }
                    switch(&s, th, false);
                }
                let mut st = s.m.lock().unwrap();
                st.alive[th] = false;
                if let Some(nx) = (0..st.alive.len()).find(|t| st.alive[*t] && !st.blocked[*t]) {
                    st.current = nx;
            CURRENT.store(st.current as u64, SeqCst);
                    let iv = interval(&mut st);
                    BUDGET.store(iv, SeqCst);
                }
                finished.fetch_add(1, SeqCst);
                s.cv.notify_all();
            })
            .unwrap();
    }
    // the monitor: a token holder that sleeps without progress waits for a lock somebody else holds
    let mut last = (0u64, 0u64);
    let mut since = Instant::now();
    let mut stuck_since = Instant::now();
    loop {
        {
            let st = s.m.lock().unwrap();
            let (st, _) = s.cv.wait_timeout(st, Duration::from_millis(5)).unwrap();
            drop(st);
        }
        if finished.load(SeqCst) == threads as u64 {
            break;
        }
        let mut st = s.m.lock().unwrap();
        let cur = (HITS.load(SeqCst), st.order.len() as u64 + finished.load(SeqCst));
        if cur != last {
            last = cur;
            since = Instant::now();
            stuck_since = Instant::now();
            continue;
        }
        if since.elapsed() < Duration::from_millis(60) {
            continue;
        }
        let c = st.current;
        let sleeping = !st.alive[c] || st.tids[c] == 0 || asleep(st.tids[c]);
        if sleeping {
            if st.alive[c] {
                st.blocked[c] = true;
            }
            let cand: Vec<usize> = (0..threads).filter(|t| st.alive[*t] && !st.blocked[*t]).collect();
            if cand.is_empty() {
                if stuck_since.elapsed() > Duration::from_secs(5) {
                    let tr = std::mem::take(&mut st.trace);
                    drop(st);
                    recover(w, &s, tr);
                    return viol("deadlock", "all threads wait for each other inside library calls".into());
                }
                // give everybody another try: the lock may have been released meanwhile
                for b in st.blocked.iter_mut() {
                    *b = false
                }
                let al: Vec<usize> = (0..threads).filter(|t| st.alive[*t]).collect();
                let nx = al[(al.iter().position(|x| *x == c).unwrap_or(0) + 1) % al.len()];
                st.current = nx;
            CURRENT.store(st.current as u64, SeqCst);
            } else {
                st.current = cand[0];
            CURRENT.store(st.current as u64, SeqCst);
            }
            BUDGET.store(50, SeqCst);
            s.cv.notify_all();
            since = Instant::now();
        }
        drop(st);
    }
    let (results, order, midop, switches, trace) = {
        let mut st = s.m.lock().unwrap();
        let r = std::mem::take(&mut st.results);
        let o = std::mem::take(&mut st.order);
        (r, o, st.midop, st.switches, std::mem::take(&mut st.trace))
    };
    recover(w, &s, trace);
    w.st.switches += switches;
    w.st.faults[F_PREEMPT] += midop;
    w.st.events += order.len() as u64;
    w.st.lib_ops += 2 * order.len() as u64;
    w.now = HITS.load(SeqCst) / 10;
    w.st.sim_us = w.now;
    for p in progs.iter() {
        for o in p {
            if o.kind == 8 {
                w.fault(if o.op == 8 { F_RNGFAIL } else { F_ITERFAIL });
            }
        }
    }
    // reference 1: one by one, in another order, in a second copy of the library
    let vms: Vec<Vm> = (0..tasks).map(|_| other.vm()).collect();
    let mut next = vec![tasks; tasks];
    for x in next.iter_mut() {
        *x = 0
    }
    let whole = w.ch.chance(1, 2);
    loop {
        let c: Vec<usize> = (0..tasks).rev().filter(|t| next[*t] < progs[*t].len()).collect();
        if c.is_empty() {
            break;
        }
        let t = if whole { c[0] } else { c[w.ch.idx(c.len())] };
        let i = next[t];
        next[t] += 1;
        let want = exec_op(&other, vms[t], &progs[t][i]);
        compare(w, build, &progs, &results, t, i, &want, "sequential")?;
    }
    for ((t, i), f) in fresh {
        compare(w, build, &progs, &results, t, i, &f, "fresh")?;
    }
    Ok(())
}
fn recover(w: &mut W, s: &Sched, trace: Vec<String>) {
    *SCHED.lock().unwrap() = None;
    let mut st = s.m.lock().unwrap();
    w.ch = std::mem::replace(&mut st.ch, Ch::replay(vec![]));
    let h = st.hash;
    drop(st);
    w.note(h);
    if let Some(t) = w.trace.as_mut() {
        t.extend(trace);
    }
}
fn compare(w: &mut W, build: usize, progs: &[Vec<Op>], results: &[Vec<Option<(Out, usize)>>], t: usize, i: usize, want: &Out, how: &str) -> R<()> {
    w.st.checks += 1;
    let (got, th) = results[t][i].as_ref().unwrap();
    if got != want {
        let o = &progs[t][i];
        return viol(
            &format!("interference-op{}", o.op),
            format!(
                "task {t} op {i} ({}, {}) on thread {th} of an interleaved execution gave status {} {} {}, {how} execution gives status {} {} {}; input {}",
                opname(o.op), NAMES[build], got.0, hx(&got.1), hx(&got.2), want.0, hx(&want.1), hx(&want.2), hx(&o.inp)
            ),
        );
    }
    Ok(())
}
enum Fresh {
    Got(Out),
    Hang,
    Died,
}
/// The operations from which the i-th and its operands stem, in order.
fn needs(p: &[Op], i: usize) -> Vec<usize> {
    let mut need = vec![false; i + 1];
    need[i] = true;
    for j in (0..=i).rev() {
        if need[j] {
            for d in &p[j].deps {
                need[*d] = true;
            }
        }
    }
    (0..=i).filter(|j| need[*j]).collect()
}
/// The operation and what its operands stem from, nothing else, in a new process.
fn isolated(lib: &Lib, p: &[Op], i: usize) -> Fresh {
    let need = needs(p, i);
    let mut fds = [0i32; 2];
    unsafe {
        assert!(sys::pipe(fds.as_mut_ptr()) == 0);
        let pid = sys::fork();
        assert!(pid >= 0);
        if pid == 0 {
            sys::close(fds[0]);
            sys::prctl(1, 9, 0, 0, 0); // die with the parent
            let vm = lib.vm();
            let mut last = None;
            for j in need {
                last = Some(exec_op(lib, vm, &p[j]));
            }
            let (st, o, e) = last.unwrap();
            let mut b = vec![st as u8];
            b.extend_from_slice(&(o.len() as u32).to_le_bytes());
            b.extend_from_slice(&o);
            b.extend_from_slice(&e);
            sys::write_all(fds[1], &b);
            sys::_exit(0);
        }
        sys::close(fds[1]);
        let mut b = vec![];
        let mut buf = [0u8; 4096];
        let t0 = Instant::now();
        let mut hang = false;
        loop {
            let mut pf = sys::PollFd { fd: fds[0], events: 1, revents: 0 };
            if sys::poll(&mut pf, 1, 500) <= 0 {
                if t0.elapsed() > Duration::from_secs(20) {
                    hang = true;
                    sys::kill(pid, 9);
                    break;
                }
                continue;
            }
            let n = sys::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            b.extend_from_slice(&buf[..n as usize]);
        }
        sys::close(fds[0]);
        let mut st = 0;
        sys::waitpid(pid, &mut st, 0);
        if hang {
            return Fresh::Hang;
        }
        if b.len() < 5 {
            return Fresh::Died;
        }
        let n = u32::from_le_bytes(b[1..5].try_into().unwrap()) as usize;
        Fresh::Got((b[0] as i32, b[5..5 + n].to_vec(), b[5 + n..].to_vec()))
    }
}
fn asleep(tid: i64) -> bool {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    s.rsplit(')').next().map(|r| r.trim_start().starts_with('S')).unwrap_or(false)
}
