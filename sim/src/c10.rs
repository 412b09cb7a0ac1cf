//! C10: replicated state machine whose replicas run different builds of the library. No model:
//! the oracle is agreement of all replicas on the encoded result of every log entry.
use crate::ch::Ch;
use crate::gens;
use crate::model::Pt;
use crate::node::*;
use crate::num::*;
use crate::rngsim;
use crate::world::*;

const REGS: usize = 6;
#[derive(Clone)]
struct Entry {
    op: u32,
    dst: u32,
    a: u32,
    b: u32,
    var: u32,
    inp: Vec<u8>,
    kind: usize, // register file written, 9 = none
}
const ENC: [u32; 4] = [14, 43, 62, 83];
const DEC: [u32; 4] = [5, 42, 61, 82];

struct Replica {
    build: usize,
    vm: Vm,
    up: bool,
    next: usize,
    live: [[bool; REGS]; 4],
    snap: Option<(usize, Vec<(usize, u32, Vec<u8>)>)>,
    pend: Option<(usize, Vec<(usize, u32, Vec<u8>)>)>,
}
type Out = (i32, Vec<u8>, i32, Vec<u8>);

/// An input for an import: fresh, or an earlier result of the log, whole or damaged.
fn input(ch: &mut Ch, seen: &[Vec<u8>], n: usize, fresh: impl Fn(&mut Ch, &[U]) -> Vec<u8>) -> Vec<u8> {
    let old: Vec<&Vec<u8>> = seen.iter().filter(|v| v.len() == n).collect();
    if old.is_empty() || ch.chance(1, 2) {
        let like: Vec<U> = seen.iter().filter(|v| v.len() == 56 || v.len() == 57).map(|v| U::from_le(&v[..56])).collect();
        return fresh(ch, &like);
    }
    let mut b = old[ch.idx(old.len())].clone();
    if ch.chance(3, 4) {
        let o = old[ch.idx(old.len())].clone();
        gens::damage(ch, &mut b, &o);
    }
    b
}
fn gen_entry(ch: &mut Ch, live: &mut [[bool; REGS]; 4], seen: &[Vec<u8>]) -> Entry {
    let pick = |ch: &mut Ch, live: &[[bool; REGS]; 4], k: usize| -> Option<u32> {
        let v: Vec<u32> = (0..REGS as u32).filter(|i| live[k][*i as usize]).collect();
        if v.is_empty() {
            None
        } else {
            Some(v[ch.idx(v.len())])
        }
    };
    loop {
        let dst = ch.idx(REGS) as u32;
        let k = ch.idx(4);
        let a = pick(ch, live, k);
        let b = pick(ch, live, k);
        let s = pick(ch, live, 0);
        let fresh = a.is_none() || ch.chance(1, 4);
        let mut e = Entry { op: 0, dst, a: a.unwrap_or(0), b: b.unwrap_or(0), var: 0, inp: vec![], kind: k };
        match k {
            0 if fresh => match ch.below(8) {
                0 => e.op = 1 + ch.below(3) as u32,
                1 => {
                    e.op = 4;
                    e.inp = (ch.raw() as u32).to_le_bytes().to_vec();
                }
                2 => {
                    e.op = 7;
                    e.inp = gens::scalar_raw(ch, &[]).to_le().to_vec();
                    e.inp.extend_from_slice(&gens::scalar_raw(ch, &[]).to_le());
                    e.inp.extend_from_slice(&ch.bytes(2));
                }
                3 => {
                    e.op = 8;
                    e.inp = ch.raw().to_le_bytes().to_vec();
                }
                4 => {
                    e.op = 6;
                    e.inp = input(ch, seen, 56, |ch, l| gens::scalar_raw(ch, l).to_le().to_vec());
                    e.inp.push(if ch.chance(1, 8) { 1 } else { 0 });
                }
                _ => {
                    e.op = 5;
                    e.inp = input(ch, seen, 56, |ch, l| gens::scalar_raw(ch, l).to_le().to_vec());
                }
            },
            0 => match ch.below(12) {
                10 => {
                    e.op = 18;
                    e.b = ch.below(14) as u32;
                    e.inp = ch.pick(&[0u32, 1, !0, 1 << 31, 0x7fff_ffff]).to_le_bytes().to_vec();
                }
                11 => {
                    e.op = 19;
                    e.b = ch.below(14) as u32;
                    e.kind = 9;
                }
                0..=1 => e.op = 9,
                2..=3 => e.op = 10,
                4..=5 => e.op = 11,
                6 => e.op = 12,
                7 => e.op = 13,
                8 => {
                    e.op = 17;
                    e.var = ch.below(3) as u32;
                    e.kind = 9;
                }
                _ => {
                    e.op = 15 + ch.below(2) as u32;
                    e.kind = 9;
                }
            },
            1 if fresh => match ch.below(6) {
                0 => e.op = 40,
                1 => e.op = 41,
                2 | 3 => {
                    e.op = 42;
                    e.inp = input(ch, seen, 57, |ch, l| {
                        let mut b = gens::field_raw(ch, l).to_le().to_vec();
                        b.push(if ch.chance(1, 2) { 0x80 } else { 0 });
                        b
                    });
                }
                _ => {
                    e.op = 42;
                    // related to a point the log has met
                    let like: Vec<Pt> = seen.iter().rev().filter_map(|v| Pt::dec(v[..].try_into().ok()?)).take(3).collect();
                    e.inp = gens::point(ch, &like).enc().to_vec();
                }
            },
            1 => match ch.below(18) {
                15 | 16 => {
                    // a sum over registers, by reference or by value, with any truthful size hint
                    e.op = 51;
                    let n = ch.below(6);
                    let mut v = u32::MAX.to_le_bytes().to_vec();
                    v.extend_from_slice(&u32::MAX.to_le_bytes());
                    for _ in 0..n {
                        v.extend_from_slice(&pick(ch, live, 1).unwrap().to_le_bytes());
                    }
                    e.inp = v;
                    e.var = ch.below(2) as u32 | (ch.below(4) as u32) << 1 | (ch.below(3) as u32) << 3;
                }
                0..=1 => {
                    e.op = 44;
                    e.var = ch.below(7) as u32;
                }
                2..=3 => {
                    e.op = 45;
                    e.var = ch.below(7) as u32;
                }
                4 => {
                    e.op = 46;
                    e.var = ch.below(5) as u32;
                }
                5 => e.op = 47,
                6 => e.op = 48,
                7..=9 => {
                    let Some(s) = s else { continue };
                    e.op = 49;
                    e.b = s;
                    e.var = ch.below(11) as u32;
                }
                10 => {
                    let Some(s) = s else { continue };
                    e.op = 50;
                    e.b = s;
                }
                11 => {
                    e.op = 52;
                    e.inp = vec![ch.below(2) as u8];
                    e.var = ch.below(4) as u32;
                }
                12 => {
                    e.op = 53;
                    e.var = ch.below(3) as u32;
                    e.kind = 9;
                }
                13 => {
                    e.op = 54;
                    e.kind = 9;
                }
                14 => {
                    e.op = 55;
                    e.kind = 2;
                }
                _ => e.op = 56 + ch.below(2) as u32,
            },
            2 if fresh => {
                if ch.chance(1, 6) {
                    e.op = 60
                } else {
                    e.op = 61;
                    e.inp = input(ch, seen, 56, |ch, l| gens::field_raw(ch, l).to_le().to_vec());
                }
            }
            2 => match ch.below(7) {
                0..=2 => {
                    let Some(s) = s else { continue };
                    e.op = 63;
                    e.b = s;
                    e.var = ch.below(2) as u32;
                }
                3 => {
                    e.op = 64;
                    e.kind = 9;
                }
                4 => {
                    e.op = 65;
                    e.var = ch.below(3) as u32;
                    e.kind = 9;
                }
                5 => {
                    e.op = 67;
                    e.inp = vec![ch.below(2) as u8];
                }
                _ => e.op = 66,
            },
            _ if fresh => match ch.below(6) {
                0 => e.op = 80,
                1 => e.op = 81,
                2 | 3 => {
                    e.op = 82;
                    e.inp = input(ch, seen, 56, |ch, l| gens::field_raw(ch, l).to_le().to_vec());
                }
                _ => {
                    e.op = 82;
                    let like: Vec<Pt> = seen.iter().rev().take(12).filter_map(|v| Pt::decaf_dec(v[..].try_into().ok()?)).take(3).collect();
                    e.inp = gens::decaf(ch, &like).decaf_enc().to_vec();
                }
            },
            _ => match ch.below(8) {
                0..=1 => e.op = 84,
                2..=3 => {
                    e.op = 85;
                    e.var = ch.below(2) as u32;
                }
                4 => e.op = 86,
                5 => {
                    e.op = 88;
                    e.kind = 9;
                }
                _ => {
                    let Some(s) = s else { continue };
                    e.op = 87;
                    e.b = s;
                    e.var = ch.below(2) as u32;
                }
            },
        }
        if e.kind < 4 {
            live[e.kind][dst as usize] = true;
        }
        return e;
    }
}

fn apply(w: &mut W, r: &mut Replica, e: &Entry) -> Out {
    w.st.lib_ops += 2;
    if e.op == 8 {
        let ctx = u64::from_le_bytes(e.inp[..].try_into().unwrap());
        rngsim::set(ctx, rngsim::Stream::new(rngsim::Kind::Good, ctx));
    }
    let lib = w.libs[r.build];
    let (st, out) = lib.exec(r.vm, e.op, e.dst, e.a, e.b, e.var, &e.inp);
    if st == MISUSE {
        panic!("misuse of op {}", e.op);
    }
    if e.kind < 4 && st == OK {
        r.live[e.kind][e.dst as usize] = true;
        let (st2, enc) = lib.exec(r.vm, ENC[e.kind], 0, e.dst, 0, 0, &[]);
        return (st, out, st2, enc);
    }
    (st, out, 0, vec![])
}

pub fn run(w: &mut W) -> R<()> {
    let k = w.n();
    let len = w.ch.range(8, 40) as usize;
    let crashy = w.ch.below(12);
    let mut reps: Vec<Replica> = vec![];
    let off = w.ch.idx(4);
    for i in 0..k {
        // both backends are always present
        let build = (off + i) % 4;
        reps.push(Replica { build, vm: w.libs[build].vm(), up: true, next: 0, live: Default::default(), snap: None, pend: None });
        ev!(w, "replica {} runs build {}", i, BUILDS[build]);
    }
    let mut glive: [[bool; REGS]; 4] = Default::default();
    let mut log: Vec<Entry> = vec![];
    let mut first: Vec<(usize, Out)> = vec![];
    let mut seen: Vec<Vec<u8>> = vec![];
    loop {
        w.now += w.ch.range(100, 2000);
        w.st.events += 1;
        if log.len() >= len && reps.iter().all(|r| r.up && r.next == log.len()) {
            break;
        }
        let i = w.ch.idx(k);
        let act = w.ch.below(16 + crashy);
        w.note(act * 16 + i as u64);
        if log.len() < len && (act < 4 || reps.iter().all(|r| !r.up || r.next == log.len())) {
            // a client's entry is appended; every live register set is tracked from the first replica
            // to apply it, so an entry only uses registers that every replica has by then
            let e = gen_entry(&mut w.ch, &mut glive, &seen);
            // a refused import leaves its register as it was: only count it live once known
            ev!(w, "log[{}] = {} dst {} a {} b {} form {} input {}", log.len(), opname(e.op), e.dst, e.a, e.b, e.var, hx(&e.inp));
            log.push(e);
            // decide acceptance by applying at replica 0's build in order: forced catch-up below
            let mut any = 0;
            while any < k && !reps[any].up {
                any += 1
            }
            if any == k {
                any = 0;
                revive(w, &mut reps[0], 0)?;
            }
            while reps[any].next < log.len() {
                advance(w, &mut reps, any, &log, &mut first)?;
            }
            let last = log.len() - 1;
            let enc = &first[last].1 .3;
            if enc.len() > 1 {
                seen.push(enc.clone());
            }
            if log[last].kind < 4 && first[last].1 .0 != OK {
                // was it live before?
                let (kd, d) = (log[last].kind, log[last].dst as usize);
                glive[kd][d] = reps[any].live[kd][d];
            }
            continue;
        }
        if !reps[i].up {
            revive(w, &mut reps[i], i)?;
            continue;
        }
        if act < 12 {
            if reps[i].next < log.len() {
                advance(w, &mut reps, i, &log, &mut first)?;
            }
        } else if act < 16 {
            // snapshot: written now, durable only after the next sync
            let r = &mut reps[i];
            if let Some(p) = r.pend.take() {
                r.snap = Some(p);
            }
            let mut s = vec![];
            for kd in 0..4 {
                for g in 0..REGS {
                    if r.live[kd][g] {
                        let (st, enc) = w.libs[r.build].exec(r.vm, ENC[kd], 0, g as u32, 0, 0, &[]);
                        w.st.lib_ops += 1;
                        if st != OK {
                            return viol("snapshot", format!("replica {i} cannot encode register {g} of file {kd}"));
                        }
                        s.push((kd, g as u32, enc));
                    }
                }
            }
            r.pend = Some((r.next, s));
            ev!(w, "replica {} writes a snapshot at {}", i, r.next);
        } else {
            w.fault(F_CRASH);
            let r = &mut reps[i];
            w.libs[r.build].free(r.vm);
            r.up = false;
            if r.pend.is_some() {
                if w.ch.chance(1, 2) {
                    r.snap = r.pend.take();
                } else {
                    r.pend = None;
                    w.fault(F_LOSTW);
                }
            }
            ev!(w, "replica {} crashes at position {}", i, reps[i].next);
        }
    }
    w.st.sim_us = w.now;
    Ok(())
}
fn revive(w: &mut W, r: &mut Replica, i: usize) -> R<()> {
    w.fault(F_RESTART);
    r.vm = w.libs[r.build].vm();
    r.up = true;
    r.live = Default::default();
    r.next = 0;
    ev!(w, "replica {} restarts from {:?}", i, r.snap.as_ref().map(|s| s.0));
    if let Some((pos, s)) = r.snap.clone() {
        r.next = pos;
        for (kd, g, enc) in s {
            w.st.lib_ops += 1;
            let (st, _) = w.libs[r.build].exec(r.vm, DEC[kd], g, 0, 0, 0, &enc);
            w.st.checks += 1;
            if st != OK {
                return viol("snapshot", format!("replica {i} ({}) cannot resume: its own encoding {} is refused", BUILDS[r.build], hx(&enc)));
            }
            r.live[kd][g as usize] = true;
        }
    }
    Ok(())
}
fn advance(w: &mut W, reps: &mut [Replica], i: usize, log: &[Entry], first: &mut Vec<(usize, Out)>) -> R<()> {
    let pos = reps[i].next;
    let e = &log[pos];
    let o = apply(w, &mut reps[i], e);
    ev!(w, "replica {} applies log[{}] -> {} {} {}", i, pos, o.0, hx(&o.1), hx(&o.3));
    reps[i].next += 1;
    w.st.checks += 1;
    if pos == first.len() {
        first.push((i, o));
    } else {
        let (j, f) = &first[pos];
        // panic texts may differ, outcomes may not
        let same = if f.0 == PANIC { o.0 == PANIC } else { o == *f };
        if !same {
            return viol(
                &format!("diverge-op{}", e.op),
                format!(
                    "log[{pos}] = {} on input {}: replica {j} ({}) got status {} {} {}, replica {i} ({}) got status {} {} {}",
                    opname(e.op), hx(&e.inp), BUILDS[reps[*j].build], f.0, hx(&f.1), hx(&f.3), BUILDS[reps[i].build], o.0, hx(&o.1), hx(&o.3)
                ),
            );
        }
    }
    if first[pos].1 .0 == PANIC {
        // every replica so far panicked alike; let the others apply it too, then give up on this history
        for j in 0..reps.len() {
            while reps[j].up && reps[j].next <= pos {
                let p = reps[j].next;
                let o = apply(w, &mut reps[j], &log[p]);
                reps[j].next += 1;
                if p == pos && o.0 != PANIC {
                    return viol(&format!("diverge-op{}", e.op), format!("log[{pos}] = {} panics on replica {i} only; input {}", opname(e.op), hx(&e.inp)));
                }
                if p == pos {
                    continue;
                }
                if o != first[p].1 {
                    return viol(&format!("diverge-op{}", log[p].op), format!("log[{p}] = {} differs on replica {j}", opname(log[p].op)));
                }
            }
        }
        return viol(FOREIGN, "an operation panics on every build".into());
    }
    Ok(())
}
