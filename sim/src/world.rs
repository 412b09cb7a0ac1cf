//! One simulated run: nodes executing the real library, a network, disks, clocks, faults, and the
//! lockstep comparison of everything a node computes with the reference model.
use crate::ch::{mix, Ch};
use crate::model::*;
use crate::node::*;
use crate::num::*;
use std::collections::{BTreeMap, BinaryHeap};

pub struct Viol {
    pub class: String,
    pub msg: String,
}
pub type R<T> = Result<T, Viol>;
pub fn viol<T>(class: &str, msg: String) -> R<T> {
    Err(Viol { class: class.to_string(), msg })
}
/// A library misbehaviour outside the property under check: the run ends without a verdict.
pub const FOREIGN: &str = "foreign";

pub fn hx(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

#[derive(Clone, Copy)]
pub struct Sc {
    pub i: u32,
    pub v: U,
}
#[derive(Clone, Copy)]
pub struct Ed {
    pub i: u32,
    pub p: Pt,
}
#[derive(Clone, Copy)]
pub struct Mo {
    pub i: u32,
    pub v: [u8; 56],
}
#[derive(Clone, Copy)]
pub struct De {
    pub i: u32,
    pub p: Pt,
}

#[derive(Clone, Default)]
pub struct Slot {
    durable: Option<Vec<u8>>,
    pending: Option<Vec<u8>>,
}
pub struct Node {
    pub build: usize,
    pub vm: Vm,
    pub up: bool,
    pub epoch: u32,
    next: [u32; 7],
    disk: BTreeMap<String, [Slot; 2]>,
    outbox: BTreeMap<(usize, u32), Vec<u8>>,
    pub sc: Vec<Sc>,
    pub ed: Vec<Ed>,
    pub mo: Vec<Mo>,
    pub de: Vec<De>,
    skew: u64,
    stalled_until: u64,
    pub crash_in: u64, // library calls until a crash strikes, 0 = none pending
}

#[derive(Clone)]
enum Ev {
    Deliver { from: usize, to: usize, id: u32, body: Vec<u8>, sum: u64 },
    Ack { from: usize, to: usize, id: u32 },
    Retx { n: usize, epoch: u32 },
    Crash { n: usize },
    Arm { n: usize, calls: u64 },
    Boot { n: usize },
    Cut { mask: u64 },
    Mend,
    Work { n: usize },
    Attack { n: usize },
    Rot { n: usize },
    Stall { n: usize, us: u64 },
}
struct Timed {
    t: u64,
    seq: u64,
    ev: Ev,
}
impl PartialEq for Timed {
    fn eq(&self, o: &Timed) -> bool {
        (self.t, self.seq) == (o.t, o.seq)
    }
}
impl Eq for Timed {}
impl PartialOrd for Timed {
    fn partial_cmp(&self, o: &Timed) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Timed {
    fn cmp(&self, o: &Timed) -> std::cmp::Ordering {
        (o.t, o.seq).cmp(&(self.t, self.seq))
    }
}

pub const FAULTS: [&str; 22] = [
    "message lost", "message duplicated", "message delayed out of order", "message bits damaged", "message replayed late",
    "partition", "crash between events", "crash inside a computation", "restart", "unsynced write lost", "torn write",
    "stored bit rotted", "node stalled", "clock skew", "forged value", "generator failed", "generator stuck or periodic",
    "iterator ended early", "iterator unwound", "thread preempted inside an operation",
    "caller unwound while holding values", "core dump taken",
];
pub const F_LOST: usize = 0;
pub const F_DUP: usize = 1;
pub const F_DELAY: usize = 2;
pub const F_DAMAGE: usize = 3;
pub const F_REPLAY: usize = 4;
pub const F_CUT: usize = 5;
pub const F_CRASH: usize = 6;
pub const F_CRASH_IN: usize = 7;
pub const F_RESTART: usize = 8;
pub const F_LOSTW: usize = 9;
pub const F_TORN: usize = 10;
pub const F_ROT: usize = 11;
pub const F_STALL: usize = 12;
pub const F_SKEW: usize = 13;
pub const F_FORGED: usize = 14;
pub const F_RNGFAIL: usize = 15;
pub const F_RNGSTUCK: usize = 16;
pub const F_ITEREND: usize = 17;
pub const F_ITERFAIL: usize = 18;
pub const F_PREEMPT: usize = 19;
pub const F_UNWIND: usize = 20;
pub const F_DUMP: usize = 21;

#[derive(Default)]
struct Net {
    lose: u64,
    dup: u64,
    delay: u64,
    damage: u64,
    replay: u64,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub lib_ops: u64,
    pub checks: u64,
    pub events: u64,
    pub sim_us: u64,
    pub switches: u64,
    pub faults: [u64; 22],
    pub hash: u64,
    pub foreign: u64,
    pub value_classes: u64, // bit set of reached value/verdict classes
}

pub struct W {
    pub ch: Ch,
    pub now: u64,
    seq: u64,
    q: BinaryHeap<Timed>,
    pub libs: [Lib; 4],
    pub nodes: Vec<Node>,
    net: Net,
    pub heal: u64,
    cut: u64,
    pub st: Stats,
    pub trace: Option<Vec<String>>,
    sent: Vec<(usize, usize, u32, Vec<u8>)>,
    pub crashed_now: bool,
    faultless: bool,
}

pub trait Proto {
    /// Start of a process: `first` on the first start, later the disk is all there is.
    fn boot(&mut self, w: &mut W, n: usize, first: bool) -> R<()>;
    /// A message arrives; `intact`: the protocol's checksum matches. Returns whether to acknowledge.
    fn recv(&mut self, w: &mut W, n: usize, from: usize, id: u32, body: &[u8], intact: bool) -> R<bool>;
    fn work(&mut self, w: &mut W, n: usize) -> R<()>;
    fn attack(&mut self, w: &mut W, n: usize) -> R<()> {
        self.work(w, n)
    }
    fn done(&self, w: &W) -> bool;
    fn finish(&mut self, w: &mut W) -> R<()>;
}

macro_rules! ev {
    ($w:expr, $($a:tt)*) => { if $w.trace.is_some() { let s = format!($($a)*); let t = $w.now; $w.trace.as_mut().unwrap().push(format!("{:>8} us  {}", t, s)); } };
}
pub(crate) use ev;

impl W {
    pub fn new(libs: [Lib; 4], mut ch: Ch, nodes: usize, trace: bool) -> W {
        // swarm: each run enables its own subset of fault kinds and its own mix of builds
        let faultless = ch.chance(1, 8);
        let r = |ch: &mut Ch, on: u64, max: u64| if !faultless && ch.chance(on, 4) { ch.range(1, max) } else { 0 };
        let net = Net {
            lose: r(&mut ch, 2, 30),
            dup: r(&mut ch, 2, 30),
            delay: r(&mut ch, 2, 40),
            damage: r(&mut ch, 2, 25),
            replay: r(&mut ch, 1, 20),
        };
        let uniform = ch.chance(1, 4);
        let b0 = ch.idx(4);
        let mut w = W {
            ch, now: 0, seq: 0, q: BinaryHeap::new(), libs, nodes: Vec::new(), net, heal: 0, cut: 0,
            st: Stats::default(), trace: if trace { Some(Vec::new()) } else { None }, sent: Vec::new(), crashed_now: false, faultless,
        };
        for _ in 0..nodes {
            let build = if uniform { b0 } else { w.ch.idx(4) };
            let skew = if !faultless && w.ch.chance(1, 4) {
                w.st.faults[F_SKEW] += 1;
                w.ch.range(25, 400)
            } else {
                100
            };
            w.nodes.push(Node {
                build, vm: w.libs[build].vm(), up: true, epoch: 0, next: [0; 7], disk: BTreeMap::new(), outbox: BTreeMap::new(),
                sc: vec![], ed: vec![], mo: vec![], de: vec![], skew, stalled_until: 0, crash_in: 0,
            });
        }
        for n in 0..nodes {
            ev!(w, "node {} runs build {}", n, BUILDS[w.nodes[n].build]);
        }
        w
    }
    fn at(&mut self, dt: u64, ev: Ev) {
        self.seq += 1;
        self.q.push(Timed { t: self.now + dt, seq: self.seq, ev });
    }
    pub fn n(&self) -> usize {
        self.nodes.len()
    }
    pub fn note(&mut self, x: u64) {
        self.st.hash = mix(self.st.hash ^ x);
    }
    pub fn fault(&mut self, f: usize) {
        self.st.faults[f] += 1;
        self.note(0xfa00 + f as u64);
    }
    pub fn class(&mut self, c: u32) {
        self.st.value_classes |= 1 << (c % 64);
    }

    /// Runs the scenario: workload and faults until `heal`, then faults stop and the protocol has
    /// `bound` simulated microseconds to finish.
    pub fn run(&mut self, p: &mut dyn Proto, works: u64, attacks: u64, bound: u64) -> R<()> {
        self.heal = self.ch.range(100, 400) * 1000;
        for n in 0..self.n() {
            self.boot(p, n, true)?;
        }
        for _ in 0..works {
            let (n, t) = (self.ch.idx(self.n()), self.ch.below(self.heal));
            self.at(t, Ev::Work { n });
        }
        for _ in 0..attacks {
            let (n, t) = (self.ch.idx(self.n()), self.ch.below(self.heal));
            self.at(t, Ev::Attack { n });
        }
        if !self.faultless {
            for kind in 0..5 {
                if !self.ch.chance(1, 2) {
                    continue;
                }
                for _ in 0..self.ch.range(1, 4) {
                    let (n, t) = (self.ch.idx(self.n()), self.ch.below(self.heal));
                    match kind {
                        0 => self.at(t, Ev::Crash { n }),
                        1 => {
                            let calls = self.ch.range(1, 40);
                            self.at(t, Ev::Arm { n, calls })
                        }
                        2 => {
                            let mask = self.ch.below(1 << self.n());
                            self.at(t, Ev::Cut { mask });
                            let d = self.ch.range(5, 100) * 1000;
                            self.at(t + d, Ev::Mend)
                        }
                        3 => self.at(t, Ev::Rot { n }),
                        _ => {
                            let us = self.ch.range(1, 60) * 1000;
                            self.at(t, Ev::Stall { n, us })
                        }
                    }
                }
            }
        }
        let healed_at = self.heal;
        let mut healed = false;
        while let Some(Timed { t, ev, .. }) = self.q.pop() {
            self.now = t;
            if !healed && self.now >= healed_at {
                healed = true;
                self.net = Net::default();
                self.cut = 0;
                for n in 0..self.n() {
                    self.nodes[n].crash_in = 0;
                    self.nodes[n].skew = 100;
                }
                ev!(self, "faults stop");
            }
            if healed && (p.done(self) || self.now > healed_at + bound) {
                break;
            }
            self.st.events += 1;
            self.step(p, ev)?;
        }
        self.st.sim_us = self.now;
        if !p.done(self) {
            return viol("no-progress", format!("the protocol did not finish within {} us after the last fault", bound));
        }
        self.crashed_now = false;
        p.finish(self)
    }
    fn boot(&mut self, p: &mut dyn Proto, n: usize, first: bool) -> R<()> {
        let e = self.nodes[n].epoch;
        let per = 20_000 * self.nodes[n].skew / 100;
        self.at(per, Ev::Retx { n, epoch: e });
        let r = p.boot(self, n, first);
        self.outcome(p, n, r)
    }
    /// A crash inside a computation surfaces as an error of class "crash".
    fn outcome(&mut self, _p: &mut dyn Proto, n: usize, r: R<()>) -> R<()> {
        match r {
            Err(v) if v.class == "crash" => {
                self.fault(F_CRASH_IN);
                self.crash(n);
                Ok(())
            }
            r => r,
        }
    }
    fn step(&mut self, p: &mut dyn Proto, e: Ev) -> R<()> {
        match e {
            Ev::Deliver { from, to, id, body, sum } => {
                if self.nodes[to].stalled_until > self.now {
                    let d = self.nodes[to].stalled_until - self.now + 1;
                    self.at(d, Ev::Deliver { from, to, id, body, sum });
                    return Ok(());
                }
                if !self.nodes[to].up {
                    return Ok(());
                }
                self.note(1 + ((from as u64) << 8) + ((to as u64) << 16) + ((id as u64) << 24));
                let intact = fnv(&body) == sum;
                ev!(self, "node {} receives message {:#x} from node {}{}", to, id, from, if intact { "" } else { " (damaged)" });
                let r = p.recv(self, to, from, id, &body, intact);
                match r {
                    Ok(true) if intact => {
                        if !self.lose() {
                            let d = self.latency();
                            self.at(d, Ev::Ack { from: to, to: from, id })
                        }
                        Ok(())
                    }
                    Ok(_) => Ok(()),
                    Err(v) => self.outcome(p, to, Err(v)),
                }
            }
            Ev::Ack { from, to, id } => {
                if self.nodes[to].up && !self.severed(from, to) {
                    self.nodes[to].outbox.remove(&(from, id));
                }
                Ok(())
            }
            Ev::Retx { n, epoch } => {
                if self.nodes[n].up && self.nodes[n].epoch == epoch {
                    let ms: Vec<_> = self.nodes[n].outbox.iter().map(|(k, v)| (*k, v.clone())).collect();
                    for ((to, id), body) in ms {
                        self.transmit(n, to, id, body);
                    }
                    let per = 20_000 * self.nodes[n].skew / 100;
                    self.at(per, Ev::Retx { n, epoch });
                }
                Ok(())
            }
            Ev::Crash { n } => {
                if self.nodes[n].up {
                    self.fault(F_CRASH);
                    self.crash(n)
                }
                Ok(())
            }
            Ev::Arm { n, calls } => {
                self.nodes[n].crash_in = calls;
                Ok(())
            }
            Ev::Boot { n } => {
                if self.nodes[n].up {
                    return Ok(());
                }
                self.fault(F_RESTART);
                ev!(self, "node {} restarts", n);
                let b = self.nodes[n].build;
                let vm = self.libs[b].vm();
                let nd = &mut self.nodes[n];
                nd.vm = vm;
                nd.up = true;
                nd.epoch += 1;
                nd.next = [0; 7];
                self.boot(p, n, false)
            }
            Ev::Cut { mask } => {
                self.fault(F_CUT);
                ev!(self, "partition: group {:#b} separated", mask);
                self.cut = mask;
                Ok(())
            }
            Ev::Mend => {
                self.cut = 0;
                Ok(())
            }
            Ev::Rot { n } => {
                let keys: Vec<String> = self.nodes[n].disk.keys().cloned().collect();
                if !keys.is_empty() {
                    let k = &keys[self.ch.idx(keys.len())];
                    let s = self.ch.idx(2);
                    let r = self.ch.raw();
                    let other_ok = self.nodes[n].disk[k][1 - s].durable.as_deref().is_some_and(sealed_ok);
                    if let (Some(d), true) = (self.nodes[n].disk.get_mut(k).unwrap()[s].durable.as_mut(), other_ok) {
                        let i = r as usize % (8 * d.len());
                        d[i / 8] ^= 1 << (i % 8);
                        self.fault(F_ROT);
                        ev!(self, "node {} disk: bit {} of copy {} of {:?} rots", n, i, s, k);
                    }
                }
                Ok(())
            }
            Ev::Stall { n, us } => {
                self.fault(F_STALL);
                self.nodes[n].stalled_until = self.now + us;
                ev!(self, "node {} stalls for {} us", n, us);
                Ok(())
            }
            Ev::Work { n } => {
                if self.nodes[n].up {
                    self.note(2 + ((n as u64) << 8));
                    let r = p.work(self, n);
                    return self.outcome(p, n, r);
                }
                Ok(())
            }
            Ev::Attack { n } => {
                if self.nodes[n].up {
                    self.fault(F_FORGED);
                    self.note(3 + ((n as u64) << 8));
                    ev!(self, "an attacker's value reaches node {}", n);
                    let r = p.attack(self, n);
                    return self.outcome(p, n, r);
                }
                Ok(())
            }
        }
    }
    fn crash(&mut self, n: usize) {
        ev!(self, "node {} crashes", n);
        let lib = self.libs[self.nodes[n].build];
        lib.free(self.nodes[n].vm);
        // unsynced writes: kept, lost or torn
        let keys: Vec<String> = self.nodes[n].disk.keys().cloned().collect();
        for k in keys {
            for s in 0..2 {
                let Some(new) = self.nodes[n].disk.get_mut(&k).unwrap()[s].pending.take() else { continue };
                match self.ch.below(3) {
                    0 => self.nodes[n].disk.get_mut(&k).unwrap()[s].durable = Some(new),
                    1 => {
                        self.fault(F_LOSTW);
                        ev!(self, "node {} disk: unsynced write of {:?} lost", n, k);
                    }
                    _ => {
                        self.fault(F_TORN);
                        let at = self.ch.idx(new.len());
                        let d = &mut self.nodes[n].disk.get_mut(&k).unwrap()[s].durable;
                        let mut old = d.take().unwrap_or_default();
                        old.resize(new.len(), 0);
                        old[..at].copy_from_slice(&new[..at]);
                        *d = Some(old);
                        ev!(self, "node {} disk: write of {:?} torn after {} bytes", n, k, at);
                    }
                }
            }
        }
        let nd = &mut self.nodes[n];
        nd.up = false;
        nd.crash_in = 0;
        nd.outbox.clear();
        nd.sc.clear();
        nd.ed.clear();
        nd.mo.clear();
        nd.de.clear();
        let d = self.ch.range(1, 30) * 1000;
        self.at(d, Ev::Boot { n });
    }
    fn severed(&self, a: usize, b: usize) -> bool {
        (self.cut >> a ^ self.cut >> b) & 1 == 1
    }
    fn lose(&mut self) -> bool {
        let l = self.net.lose;
        if l > 0 && self.ch.chance(l, 100) {
            self.fault(F_LOST);
            return true;
        }
        false
    }
    fn latency(&mut self) -> u64 {
        let mut d = self.ch.range(200, 3000);
        if self.net.delay > 0 && self.ch.chance(self.net.delay, 100) {
            self.fault(F_DELAY);
            d += self.ch.range(1, 80) * 1000;
        }
        d
    }
    fn transmit(&mut self, from: usize, to: usize, id: u32, body: Vec<u8>) {
        if self.severed(from, to) || self.lose() {
            return;
        }
        let sum = fnv(&body);
        let mut copies = 1;
        if self.net.dup > 0 && self.ch.chance(self.net.dup, 100) {
            self.fault(F_DUP);
            copies = 2;
        }
        for _ in 0..copies {
            let mut b = body.clone();
            if self.net.damage > 0 && !b.is_empty() && self.ch.chance(self.net.damage, 100) {
                self.fault(F_DAMAGE);
                let other: Vec<u8> = if self.sent.is_empty() { vec![] } else { self.sent[self.ch.idx(self.sent.len())].3.clone() };
                let how = crate::gens::damage(&mut self.ch, &mut b, &other);
                ev!(self, "link {}->{}: message {:#x} damaged ({})", from, to, id, how);
            }
            let d = self.latency();
            self.at(d, Ev::Deliver { from, to, id, body: b, sum });
        }
        if self.net.replay > 0 && !self.sent.is_empty() && self.ch.chance(self.net.replay, 100) {
            self.fault(F_REPLAY);
            let (f, t, i, b) = self.sent[self.ch.idx(self.sent.len())].clone();
            let sum = fnv(&b);
            let d = self.ch.range(1, 100) * 1000;
            self.at(d, Ev::Deliver { from: f, to: t, id: i, body: b, sum });
        }
        if self.sent.len() < 64 {
            self.sent.push((from, to, id, body));
        }
    }
    /// Reliable send: retransmitted until acknowledged or the sender crashes.
    pub fn send(&mut self, from: usize, to: usize, id: u32, body: Vec<u8>) {
        self.nodes[from].outbox.insert((to, id), body.clone());
        self.transmit(from, to, id, body);
    }
    pub fn broadcast(&mut self, from: usize, id: u32, body: &[u8]) {
        for to in 0..self.n() {
            if to != from {
                self.send(from, to, id, body.to_vec());
            }
        }
    }
    // ---- disk: two sealed copies of each record, written and synced one after the other
    pub fn store(&mut self, n: usize, key: &str, data: &[u8]) -> R<()> {
        let mut rec = data.to_vec();
        rec.extend_from_slice(&fnv(data).to_le_bytes());
        for s in 0..2 {
            self.nodes[n].disk.entry(key.to_string()).or_default()[s].pending = Some(rec.clone());
            self.maybe_crash(n)?;
            let sl = &mut self.nodes[n].disk.get_mut(key).unwrap()[s];
            sl.durable = sl.pending.take();
        }
        Ok(())
    }
    /// What is on disk under a key: (data, seal intact) per copy.
    pub fn peek(&self, n: usize, key: &str) -> Vec<(Vec<u8>, bool)> {
        let mut r = vec![];
        if let Some(ss) = self.nodes[n].disk.get(key) {
            for s in ss {
                if let Some(d) = &s.durable {
                    r.push((d[..d.len().saturating_sub(8)].to_vec(), sealed_ok(d)));
                }
            }
        }
        r
    }
    /// Reads a record, preferring an intact copy, and repairs the other copy.
    pub fn fetch(&mut self, n: usize, key: &str) -> Option<Vec<u8>> {
        let good = self.peek(n, key).into_iter().find(|x| x.1).map(|x| x.0)?;
        let mut rec = good.clone();
        rec.extend_from_slice(&fnv(&good).to_le_bytes());
        let ss = self.nodes[n].disk.get_mut(key).unwrap();
        for s in ss.iter_mut() {
            s.durable = Some(rec.clone());
        }
        Some(good)
    }
    fn maybe_crash(&mut self, n: usize) -> R<()> {
        if self.nodes[n].crash_in > 0 {
            self.nodes[n].crash_in -= 1;
            if self.nodes[n].crash_in == 0 {
                return viol("crash", String::new());
            }
        }
        Ok(())
    }

    // ---- library calls
    pub fn slot(&mut self, n: usize, kind: usize) -> u32 {
        self.nodes[n].next[kind] += 1;
        self.nodes[n].next[kind] - 1
    }
    pub fn ex(&mut self, n: usize, op: u32, dst: u32, a: u32, b: u32, var: u32, inp: &[u8]) -> R<(i32, Vec<u8>)> {
        self.maybe_crash(n)?;
        self.st.lib_ops += 1;
        let nd = &self.nodes[n];
        let (st, out) = self.libs[nd.build].exec(nd.vm, op, dst, a, b, var, inp);
        if st == MISUSE {
            panic!("misuse of op {op} on node {n}");
        }
        if st == PANIC {
            let m = String::from_utf8_lossy(&out).to_string();
            return viol(&format!("panic-op{op}"), format!("operation {} panicked on node {} ({}): {}; input {}", opname(op), n, BUILDS[self.nodes[n].build], m, hx(inp)));
        }
        Ok((st, out))
    }
    fn who(&self, n: usize) -> String {
        format!("node {} ({})", n, BUILDS[self.nodes[n].build])
    }
    pub fn expect(&mut self, n: usize, op: u32, what: &str, got: &[u8], want: &[u8], ctx: &dyn Fn() -> String) -> R<()> {
        self.st.checks += 1;
        ev!(self, "{} {} = {} [{}]", self.who(n), what, hx(got), ctx());
        if got != want {
            return viol(&format!("wrong-op{op}"), format!("{}: {} gave {} but must be {} [{}]", self.who(n), what, hx(got), hx(want), ctx()));
        }
        Ok(())
    }

    // ---- scalars in lockstep
    pub fn s_bytes(&mut self, n: usize, s: &Sc) -> R<[u8; 56]> {
        let (_, o) = self.ex(n, 14, 0, s.i, 0, 0, &[])?;
        self.expect(n, 14, "scalar to_bytes", &o, &s.v.to_le(), &|| String::new())?;
        Ok(o.try_into().unwrap())
    }
    fn s_new(&mut self, n: usize, op: u32, a: u32, b: u32, var: u32, inp: &[u8], v: U, ctx: &dyn Fn() -> String) -> R<Sc> {
        let i = self.slot(n, 0);
        let (st, _) = self.ex(n, op, i, a, b, var, inp)?;
        if st != OK {
            return viol(&format!("reject-op{op}"), format!("{}: {} refused [{}]", self.who(n), opname(op), ctx()));
        }
        let (_, o) = self.ex(n, 14, 0, i, 0, 0, &[])?;
        self.expect(n, op, opname(op), &o, &v.to_le(), ctx)?;
        Ok(Sc { i, v })
    }
    pub fn s_raw(&mut self, n: usize, v: U) -> R<Sc> {
        self.s_new(n, 5, 0, 0, 0, &v.to_le(), v, &|| format!("{v:?}"))
    }
    /// An honest canonical scalar, through one of the importers.
    pub fn s_load(&mut self, n: usize, v: U) -> R<Sc> {
        debug_assert!(v < L);
        match self.ch.below(3) {
            0 => self.s_raw(n, v),
            1 => {
                let mut b = v.to_le().to_vec();
                b.push(0);
                self.s_new(n, 6, 0, 0, 0, &b, v, &|| format!("{v:?}"))
            }
            _ => {
                let mut b = v.to_le().to_vec();
                b.resize(114, 0);
                self.s_new(n, 7, 0, 0, 0, &b, v, &|| format!("{v:?}"))
            }
        }
    }
    pub fn s_u32(&mut self, n: usize, x: u32) -> R<Sc> {
        let v = U::from_u64(x as u64);
        self.s_new(n, 4, 0, 0, 0, &x.to_le_bytes(), v, &|| format!("{x}"))
    }
    pub fn s_const(&mut self, n: usize, which: u64) -> R<Sc> {
        // zero is the constant or the default value
        let (op, v) = match which {
            0 => (if self.ch.chance(1, 2) { 3 } else { 1 }, ZERO),
            _ => (2, ONE),
        };
        self.s_new(n, op, 0, 0, 0, &[], v, &|| String::new())
    }
    pub fn s_bin(&mut self, n: usize, op: u32, a: &Sc, b: &Sc) -> R<Sc> {
        let v = match op {
            9 => sadd(a.v, b.v),
            10 => ssub(a.v, b.v),
            _ => smul(a.v, b.v),
        };
        let (x, y) = (a.v, b.v);
        self.s_new(n, op, a.i, b.i, 0, &[], v, &|| format!("a={x:?} b={y:?}"))
    }
    pub fn s_add(&mut self, n: usize, a: &Sc, b: &Sc) -> R<Sc> {
        self.s_bin(n, 9, a, b)
    }
    pub fn s_sub(&mut self, n: usize, a: &Sc, b: &Sc) -> R<Sc> {
        self.s_bin(n, 10, a, b)
    }
    pub fn s_mul(&mut self, n: usize, a: &Sc, b: &Sc) -> R<Sc> {
        self.s_bin(n, 11, a, b)
    }
    pub fn s_inv(&mut self, n: usize, a: &Sc) -> R<Sc> {
        let x = a.v;
        self.s_new(n, 12, a.i, 0, 0, &[], sinv(a.v), &|| format!("a={x:?}"))
    }
    /// Half: any representative of a/2 modulo l is right; the value actually held is tracked.
    pub fn s_halve(&mut self, n: usize, a: &Sc) -> R<Sc> {
        let i = self.slot(n, 0);
        self.ex(n, 13, i, a.i, 0, 0, &[])?;
        let (_, o) = self.ex(n, 14, 0, i, 0, 0, &[])?;
        let got = U::from_le(&o);
        let x = a.v;
        let want = sred(smul(a.v, sinv(U::from_u64(2))));
        self.expect(n, 13, "scalar halve (mod l)", &sred(got).to_le(), &want.to_le(), &|| format!("a={x:?}"))?;
        Ok(Sc { i, v: got })
    }
    pub fn s_eq(&mut self, n: usize, a: &Sc, b: &Sc) -> R<bool> {
        let var = self.ch.below(3) as u32;
        let (_, o) = self.ex(n, 17, 0, a.i, b.i, var, &[])?;
        let (x, y) = (a.v, b.v);
        self.expect(n, 17, "scalar equality", &o, &[(x == y) as u8], &|| format!("a={x:?} b={y:?} form {var}"))?;
        Ok(o[0] == 1)
    }

    // ---- Edwards points in lockstep
    pub fn e_enc(&mut self, n: usize, p: &Ed) -> R<[u8; 57]> {
        let (_, o) = self.ex(n, 43, 0, p.i, 0, 0, &[])?;
        self.expect(n, 43, "point compress", &o, &p.p.enc(), &|| String::new())?;
        Ok(o.try_into().unwrap())
    }
    pub fn e_new(&mut self, n: usize, op: u32, a: u32, b: u32, var: u32, inp: &[u8], p: Pt, ctx: &dyn Fn() -> String) -> R<Ed> {
        let i = self.slot(n, 1);
        let (st, _) = self.ex(n, op, i, a, b, var, inp)?;
        if st != OK {
            return viol(&format!("reject-op{op}"), format!("{}: {} refused [{}]", self.who(n), opname(op), ctx()));
        }
        let (_, o) = self.ex(n, 43, 0, i, 0, 0, &[])?;
        let p = p.norm();
        self.expect(n, op, opname(op), &o, &p.enc(), &|| format!("{} form {}", ctx(), var))?;
        Ok(Ed { i, p })
    }
    /// An honest point, through its encoding.
    pub fn e_load(&mut self, n: usize, p: &Pt) -> R<Ed> {
        let e = p.enc();
        self.e_new(n, 42, 0, 0, 0, &e, *p, &|| hx(&e))
    }
    pub fn e_bin(&mut self, n: usize, op: u32, a: &Ed, b: &Ed, var: u32) -> R<Ed> {
        let r = if op == 44 { a.p.add(&b.p) } else { a.p.sub(&b.p) };
        let (x, y) = (a.p, b.p);
        self.e_new(n, op, a.i, b.i, var, &[], r, &|| format!("a={} b={}", hx(&x.enc()), hx(&y.enc())))
    }
    pub fn e_add(&mut self, n: usize, a: &Ed, b: &Ed) -> R<Ed> {
        let var = self.ch.below(7) as u32;
        self.e_bin(n, 44, a, b, var)
    }
    pub fn e_sub(&mut self, n: usize, a: &Ed, b: &Ed) -> R<Ed> {
        let var = self.ch.below(7) as u32;
        self.e_bin(n, 45, a, b, var)
    }
    pub fn e_un(&mut self, n: usize, op: u32, a: &Ed, var: u32, r: Pt) -> R<Ed> {
        let x = a.p;
        self.e_new(n, op, a.i, 0, var, &[], r, &|| format!("a={}", hx(&x.enc())))
    }
    pub fn e_mul(&mut self, n: usize, a: &Ed, s: &Sc) -> R<Ed> {
        let var = self.ch.below(11) as u32;
        let (x, k) = (a.p, s.v);
        self.e_new(n, 49, a.i, s.i, var, &[], a.p.mul(s.v), &|| format!("P={} k={k:?}", hx(&x.enc())))
    }
    pub fn e_eq(&mut self, n: usize, a: &Ed, b: &Ed) -> R<bool> {
        let var = self.ch.below(3) as u32;
        let (_, o) = self.ex(n, 53, 0, a.i, b.i, var, &[])?;
        let (x, y) = (a.p, b.p);
        self.expect(n, 53, "point equality", &o, &[(x == y) as u8], &|| format!("a={} b={} form {var}", hx(&x.enc()), hx(&y.enc())))?;
        Ok(o[0] == 1)
    }

    // ---- Curve448 in lockstep
    pub fn m_load(&mut self, n: usize, v: [u8; 56]) -> R<Mo> {
        let i = self.slot(n, 2);
        self.ex(n, 61, i, 0, 0, 0, &v)?;
        Ok(Mo { i, v })
    }
    pub fn m_bytes(&mut self, n: usize, m: &Mo) -> R<[u8; 56]> {
        let var = self.ch.below(2) as u32;
        let (_, o) = self.ex(n, 62, 0, m.i, 0, var, &[])?;
        self.expect(n, 62, "u bytes", &o, &m.v, &|| String::new())?;
        Ok(o.try_into().unwrap())
    }
    pub fn m_new(&mut self, n: usize, op: u32, a: u32, b: u32, var: u32, inp: &[u8], v: [u8; 56], ctx: &dyn Fn() -> String) -> R<Mo> {
        let i = self.slot(n, 2);
        self.ex(n, op, i, a, b, var, inp)?;
        let (_, o) = self.ex(n, 62, 0, i, 0, 0, &[])?;
        self.expect(n, op, opname(op), &o, &v, &|| format!("{} form {}", ctx(), var))?;
        Ok(Mo { i, v })
    }
    pub fn m_mul(&mut self, n: usize, m: &Mo, s: &Sc) -> R<Mo> {
        let var = self.ch.below(2) as u32;
        let (u, k) = (m.v, s.v);
        self.m_new(n, 63, m.i, s.i, var, &[], x448(s.v, &m.v), &|| format!("u={} k={k:?}", hx(&u)))
    }

    // ---- Decaf in lockstep
    pub fn d_enc(&mut self, n: usize, d: &De) -> R<[u8; 56]> {
        let var = self.ch.below(2) as u32;
        let (_, o) = self.ex(n, 83, 0, d.i, 0, var, &[])?;
        self.expect(n, 83, "decaf compress", &o, &d.p.decaf_enc(), &|| String::new())?;
        Ok(o.try_into().unwrap())
    }
    pub fn d_new(&mut self, n: usize, op: u32, a: u32, b: u32, var: u32, inp: &[u8], p: Pt, ctx: &dyn Fn() -> String) -> R<De> {
        let i = self.slot(n, 3);
        let (st, _) = self.ex(n, op, i, a, b, var, inp)?;
        if st != OK {
            return viol(&format!("reject-op{op}"), format!("{}: {} refused [{}]", self.who(n), opname(op), ctx()));
        }
        let (_, o) = self.ex(n, 83, 0, i, 0, 0, &[])?;
        let p = p.norm();
        self.expect(n, op, opname(op), &o, &p.decaf_enc(), &|| format!("{} form {}", ctx(), var))?;
        Ok(De { i, p })
    }
    pub fn d_load(&mut self, n: usize, p: &Pt) -> R<De> {
        let e = p.decaf_enc();
        self.d_new(n, 82, 0, 0, 0, &e, *p, &|| hx(&e))
    }
    pub fn d_bin(&mut self, n: usize, op: u32, a: &De, b: &De, var: u32) -> R<De> {
        let r = if op == 84 { a.p.add(&b.p) } else { a.p.sub(&b.p) };
        let (x, y) = (a.p, b.p);
        self.d_new(n, op, a.i, b.i, var, &[], r, &|| format!("a={} b={}", hx(&x.decaf_enc()), hx(&y.decaf_enc())))
    }
    pub fn d_mul(&mut self, n: usize, a: &De, s: &Sc, var: u32) -> R<De> {
        let (x, k) = (a.p, s.v);
        self.d_new(n, 87, a.i, s.i, var, &[], a.p.mul(s.v), &|| format!("P={} k={k:?}", hx(&x.decaf_enc())))
    }
    pub fn d_eq(&mut self, n: usize, a: &De, b: &De) -> R<bool> {
        let (_, o) = self.ex(n, 88, 0, a.i, b.i, 0, &[])?;
        let (x, y) = (a.p, b.p);
        self.expect(n, 88, "decaf equality", &o, &[x.decaf_eq(&y) as u8], &|| format!("a={} b={}", hx(&x.decaf_enc()), hx(&y.decaf_enc())))?;
        Ok(o[0] == 1)
    }
}

fn sealed_ok(d: &[u8]) -> bool {
    d.len() >= 8 && fnv(&d[..d.len() - 8]).to_le_bytes() == d[d.len() - 8..]
}

pub fn opname(op: u32) -> &'static str {
    match op {
        1 => "Scalar::zero",
        2 => "Scalar::one",
        3 => "Scalar::default",
        4 => "Scalar::from(u32)",
        5 => "Scalar::from_bytes",
        6 => "Scalar::from_canonical_bytes",
        7 => "Scalar::from_bytes_mod_order_wide",
        8 => "Scalar::random",
        9 => "scalar +",
        10 => "scalar -",
        11 => "scalar *",
        12 => "Scalar::invert",
        13 => "Scalar::halve",
        14 => "Scalar::to_bytes",
        15 => "Scalar::to_bytes_rfc_8032",
        16 => "Scalar::bits",
        17 => "scalar ==",
        18 => "scalar IndexMut",
        19 => "scalar Index",
        20 => "scalar copy",
        40 => "ExtendedPoint::identity",
        41 => "ExtendedPoint::generator",
        42 => "CompressedEdwardsY::decompress",
        43 => "ExtendedPoint::compress",
        44 => "point +",
        45 => "point -",
        46 => "point negation",
        47 => "ExtendedPoint::torque",
        48 => "ExtendedPoint::double",
        49 => "point * scalar",
        50 => "ExtendedPoint::scalar_mod_four",
        51 => "point Sum",
        52 => "point conditional selection",
        53 => "point ==",
        54 => "ExtendedPoint::is_torsion_free",
        55 => "ExtendedPoint::to_montgomery",
        56 => "to_affine/to_extended",
        57 => "to_twisted/to_untwisted",
        58 => "point copy",
        60 => "MontgomeryPoint::generator",
        61 => "MontgomeryPoint(bytes)",
        62 => "MontgomeryPoint bytes",
        63 => "Curve448 u * scalar",
        64 => "MontgomeryPoint::is_low_order",
        65 => "MontgomeryPoint ==",
        66 => "MontgomeryPoint to_projective/to_affine",
        67 => "projective Curve448 selection",
        80 => "DecafPoint::identity",
        81 => "DecafPoint::generator",
        82 => "CompressedDecaf::decompress",
        83 => "DecafPoint::compress",
        84 => "decaf +",
        85 => "decaf -",
        86 => "decaf negation",
        87 => "decaf * scalar",
        88 => "DecafPoint::equals",
        89 => "CompressedDecaf::identity",
        90 => "CompressedDecaf ==",
        100 => "ExtendedPoint::to_twisted",
        101 => "twisted to_untwisted",
        102 => "twisted negate",
        103 => "twisted torque",
        104 => "twisted to_extensible",
        105 => "extensible double",
        106 => "extensible add_extended",
        107 => "extensible sub_extended",
        108 => "extensible add_extensible",
        109 => "extensible to_extended",
        110 => "extensible to_projective_niels",
        111 => "niels to_extended",
        112 => "extensible add_projective_niels",
        113 => "twisted conditional selection",
        114 => "niels conditional selection",
        115 => "niels conditional_negate",
        116 => "twisted ==",
        117 => "extensible ==",
        118 => "niels ==",
        119 => "twisted and niels default",
        _ => "?",
    }
}
