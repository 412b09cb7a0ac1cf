//! Search over seeds: workers fork one process per run, so every run starts from the pristine
//! state of freshly loaded libraries and a run that aborts or hangs is just another outcome.
use crate::ch::{mix, Ch};
use crate::node::*;
use crate::world::*;
use crate::{c10, c12, c13, c20, c22, protos, rngsim, sys};
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub struct Libs {
    a: [Lib; 4],
    b: [Lib; 4],
    t: [Lib; 2],
    o: Option<[Observed; 2]>,
    w: Option<[c22::Wipe; 4]>,
}
fn bin_dir() -> String {
    std::env::current_exe().unwrap().parent().unwrap().to_str().unwrap().to_string()
}
fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn load(prop: &str) -> Libs {
    let second = prop == "C12";
    let ext = if prop == "C15" { ".tw.so" } else { ".so" };
    let d = bin_dir();
    let l = |p: String| Lib::load(&p, rngsim::fill, c12::yield_point);
    let a = [0, 1, 2, 3].map(|i| l(format!("{d}/node-{}{ext}", BUILDS[i])));
    let b = if second { [0, 1, 2, 3].map(|i| l(format!("{d}/node-{}.2.so", BUILDS[i]))) } else { a };
    let t = if second { [0, 1].map(|i| Lib::load_traced(&format!("{d}/node-{}-traced.so", &BUILDS[i][..3]), rngsim::fill, c12::yield_point, c12::access_point)) } else { [a[0], a[1]] };
    let o = if prop == "C20" { Some(["u64", "u32"].map(|b| Observed::load(&format!("{d}/node-{b}-observed.so"), rngsim::fill, c12::yield_point))) } else { None };
    let w = if prop == "C22" { Some(BUILDS.map(|b| c22::Wipe::load(&format!("{d}/wipe-{b}.so")))) } else { None };
    Libs { a, b, t, o, w }
}

pub const PROPS: [&str; 17] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C20", "C22"];

/// (quick runs, thorough runs)
fn budget(prop: &str) -> (u64, u64) {
    match prop {
        "C01" => (12000, 90000),
        "C02" => (10000, 75000),
        "C03" => (24000, 180000),
        "C04" => (16000, 135000),
        "C05" => (60000, 450000),
        "C06" => (20000, 150000),
        "C07" => (16000, 120000),
        "C08" => (8000, 60000),
        "C09" => (8000, 60000),
        "C10" => (8000, 60000),
        "C11" => (9000, 75000),
        "C12" => (6000, 75000),
        "C13" => (50000, 600000),
        "C14" => (10000, 75000),
        "C15" => (6000, 60000),
        "C20" => (20000, 180000),
        "C22" => (80000, 600000),
        _ => panic!("unknown property"),
    }
}

struct RunOut {
    verdict: Option<Viol>,
    st: Stats,
    tape: Vec<u64>,
    trace: Vec<String>,
}

/// One simulated run, in this process.
fn execute(prop: &str, libs: &Libs, ch: Ch, trace: bool) -> RunOut {
    let mut ch = ch;
    let nodes = match prop {
        "C06" => ch.range(3, 5),
        "C08" => ch.range(2, 3),
        // threads and worlds of their own
        "C12" | "C20" | "C22" => 0,
        _ => ch.range(2, 4),
    } as usize;
    let mut w = W::new(libs.a, ch, nodes, trace);
    let s = 1_000_000; // a second of simulated time to finish once faults stop
    let r = match prop {
        "C01" => {
            let mut p = protos::Dh::new(&mut w, false);
            w.run(&mut p, 14, 0, s)
        }
        "C02" => {
            let mut p = protos::Dh::new(&mut w, true);
            w.run(&mut p, 0, 40, s)
        }
        "C03" => {
            let mut p = protos::Relay::new(&mut w, protos::Kind::Ed);
            w.run(&mut p, 14, 50, s)
        }
        "C04" => {
            let mut p = protos::Relay::new(&mut w, protos::Kind::De);
            w.run(&mut p, 14, 50, s)
        }
        "C05" => {
            let mut p = protos::Relay::new(&mut w, protos::Kind::Sc);
            w.run(&mut p, 40, 150, s)
        }
        "C06" => {
            let mut p = protos::Share::new(&mut w);
            w.run(&mut p, 30, 0, s)
        }
        "C07" => {
            let mut p = protos::Agg::new(&mut w);
            w.run(&mut p, 16, 0, s)
        }
        "C08" => {
            let mut p = protos::Vss::new(&mut w);
            w.run(&mut p, 16, 0, s)
        }
        "C09" => {
            let mut p = protos::Elgamal::new(&mut w);
            w.run(&mut p, 10, 0, s)
        }
        "C10" => c10::run(&mut w),
        "C11" => {
            let mut p = protos::Admit::new(&mut w);
            w.run(&mut p, 10, 6, s)
        }
        "C12" => c12::run(&mut w, &libs.b, &libs.t),
        "C22" => c22::run(&mut w, libs.w.as_ref().unwrap()),
        "C20" => c20::run(&mut w, libs.o.as_ref().unwrap()),
        "C13" => {
            let mut p = c13::Rand::new(&mut w);
            w.run(&mut p, 20, 0, s)
        }
        "C14" => {
            let mut p = protos::Bridge::new(&mut w);
            w.run(&mut p, 12, 0, s)
        }
        "C15" => {
            let mut p = protos::Twist::new(&mut w);
            w.run(&mut p, 12, 0, s)
        }
        _ => panic!("unknown property {prop}"),
    };
    let mut verdict = r.err();
    if verdict.as_ref().is_some_and(|v| v.class == FOREIGN) {
        w.st.foreign += 1;
        if trace {
            eprintln!("run ended without a verdict: {}", verdict.as_ref().unwrap().msg);
        }
        verdict = None;
    }
    let used = w.ch.used();
    let mut tape = std::mem::take(&mut w.ch.tape);
    tape.truncate(used);
    RunOut { verdict, st: w.st.clone(), tape, trace: w.trace.take().unwrap_or_default() }
}

fn seed_of(prop: &str, seed: u64, run: u64) -> u64 {
    mix(mix(seed) ^ mix(fnv(prop.as_bytes())) ^ mix(run.wrapping_mul(0x1000193)))
}

// ---- one run in a forked process
enum Outcome {
    Done(RunOut),
    Broken(String), // harness error
}
fn put_u64(b: &mut Vec<u8>, x: u64) {
    b.extend_from_slice(&x.to_le_bytes())
}
fn put_str(b: &mut Vec<u8>, s: &str) {
    put_u64(b, s.len() as u64);
    b.extend_from_slice(s.as_bytes())
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u64(&mut self) -> Option<u64> {
        if self.0.len() < 8 {
            return None;
        }
        let v = u64::from_le_bytes(self.0[..8].try_into().unwrap());
        self.0 = &self.0[8..];
        Some(v)
    }
    fn str(&mut self) -> Option<String> {
        let n = self.u64()? as usize;
        if self.0.len() < n {
            return None;
        }
        let s = String::from_utf8_lossy(&self.0[..n]).to_string();
        self.0 = &self.0[n..];
        Some(s)
    }
}
fn encode(o: &RunOut) -> Vec<u8> {
    let mut b = vec![1u8];
    match &o.verdict {
        None => put_u64(&mut b, 0),
        Some(v) => {
            put_u64(&mut b, 1);
            put_str(&mut b, &v.class);
            put_str(&mut b, &v.msg);
        }
    }
    let s = &o.st;
    for x in [s.lib_ops, s.checks, s.events, s.sim_us, s.switches, s.hash, s.foreign, s.value_classes] {
        put_u64(&mut b, x);
    }
    for x in s.faults {
        put_u64(&mut b, x);
    }
    let keep_tape = o.verdict.is_some() || !o.trace.is_empty();
    put_u64(&mut b, if keep_tape { o.tape.len() as u64 } else { 0 });
    if keep_tape {
        for x in &o.tape {
            put_u64(&mut b, *x);
        }
    }
    put_u64(&mut b, o.trace.len() as u64);
    for t in &o.trace {
        put_str(&mut b, t);
    }
    b.push(0x55);
    b
}
fn decode(b: &[u8]) -> Option<RunOut> {
    if b.len() < 2 || b[0] != 1 || b[b.len() - 1] != 0x55 {
        return None;
    }
    let mut r = Rd(&b[1..]);
    let verdict = if r.u64()? == 1 { Some(Viol { class: r.str()?, msg: r.str()? }) } else { None };
    let mut st = Stats::default();
    st.lib_ops = r.u64()?;
    st.checks = r.u64()?;
    st.events = r.u64()?;
    st.sim_us = r.u64()?;
    st.switches = r.u64()?;
    st.hash = r.u64()?;
    st.foreign = r.u64()?;
    st.value_classes = r.u64()?;
    for i in 0..st.faults.len() {
        st.faults[i] = r.u64()?;
    }
    let n = r.u64()?;
    let mut tape = Vec::new();
    for _ in 0..n {
        tape.push(r.u64()?);
    }
    let n = r.u64()?;
    let mut trace = Vec::new();
    for _ in 0..n {
        trace.push(r.str()?);
    }
    Some(RunOut { verdict, st, tape, trace })
}
const RUN_LIMIT: u64 = 90; // seconds of wall clock; the longest runs (a long past in C12) take a few
static SLOWEST: AtomicU64 = AtomicU64::new(0); // milliseconds

fn forked(prop: &str, libs: &Libs, mk: &dyn Fn() -> Ch, trace: bool) -> Outcome {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(sys::pipe(fds.as_mut_ptr()) == 0);
        let pid = sys::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            sys::close(fds[0]);
            sys::prctl(1, 9, 0, 0, 0); // die with the parent
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| execute(prop, libs, mk(), trace)));
            match r {
                Ok(o) => sys::write_all(fds[1], &encode(&o)),
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    let mut b = vec![2u8];
                    b.extend_from_slice(m.as_bytes());
                    sys::write_all(fds[1], &b);
                }
            }
            sys::_exit(0);
        }
        sys::close(fds[1]);
        let t0 = Instant::now();
        let mut b = vec![];
        let mut buf = vec![0u8; 65536];
        let mut hang = false;
        loop {
            let left = RUN_LIMIT * 1000 - (t0.elapsed().as_millis() as u64).min(RUN_LIMIT * 1000);
            let mut pf = sys::PollFd { fd: fds[0], events: 1, revents: 0 };
            let n = sys::poll(&mut pf, 1, left as i32);
            if n == 0 {
                hang = true;
                sys::kill(pid, 9);
                break;
            }
            if n < 0 {
                continue;
            }
            let n = sys::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            b.extend_from_slice(&buf[..n as usize]);
        }
        sys::close(fds[0]);
        let mut st = 0;
        sys::waitpid(pid, &mut st, 0);
        if b.first() == Some(&2) {
            return Outcome::Broken(String::from_utf8_lossy(&b[1..]).to_string());
        }
        match decode(&b) {
            Some(o) => Outcome::Done(o),
            None => {
                let (class, msg) = if hang {
                    ("hang", format!("the run did not end within {RUN_LIMIT} s of wall-clock time"))
                } else {
                    ("abort", format!("the process died (wait status {st:#x})"))
                };
                let st = Stats { hash: 1, ..Default::default() };
                Outcome::Done(RunOut { verdict: Some(Viol { class: class.into(), msg }), st, tape: vec![], trace: vec![] })
            }
        }
    }
}

#[derive(Default)]
struct Totals {
    runs: u64,
    st: Stats,
    hashes: HashSet<u64>,
    faulty: u64,
}

/// Runs all indexes; returns totals, the lowest violating run, harness errors.
fn search(prop: &str, libs: &Libs, seed: u64, start: u64, runs: u64, wall: Duration, tot: &mut Totals) -> Result<Option<(u64, RunOut)>, String> {
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(1, 16));
    let page = sys::shared_page();
    let best: &AtomicU64 = &page[0];
    let cursor: &AtomicU64 = &page[1];
    best.store(u64::MAX, SeqCst);
    cursor.store(start, SeqCst);
    let t0 = Instant::now();
    let mut pipes = vec![];
    for _ in 0..workers {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(sys::pipe(fds.as_mut_ptr()) == 0);
            let pid = sys::fork();
            assert!(pid >= 0);
            if pid == 0 {
                sys::close(fds[0]);
                sys::prctl(1, 9, 0, 0, 0);
                let mut buf = vec![];
                loop {
                    let i = cursor.fetch_add(1, SeqCst);
                    if i >= runs || t0.elapsed() > wall {
                        break;
                    }
                    if i > best.load(SeqCst) {
                        break; // indexes only grow
                    }
                    let began = Instant::now();
                    let o = match forked(prop, libs, &|| Ch::seeded(seed_of(prop, seed, i)), false) {
                        Outcome::Broken(m) => {
                            let mut b = vec![b'B'];
                            put_str(&mut b, &format!("run {i}: {m}"));
                            sys::write_all(fds[1], &b);
                            sys::_exit(3);
                        }
                        Outcome::Done(o) => o,
                    };
                    page[2].fetch_max(began.elapsed().as_millis() as u64, SeqCst);
                    buf.push(b'R');
                    let s = &o.st;
                    for x in [s.lib_ops, s.checks, s.events, s.sim_us, s.switches, s.hash, s.foreign, s.value_classes] {
                        put_u64(&mut buf, x);
                    }
                    for x in s.faults {
                        put_u64(&mut buf, x);
                    }
                    if let Some(v) = &o.verdict {
                        best.fetch_min(i, SeqCst);
                        buf.push(b'V');
                        put_u64(&mut buf, i);
                        put_str(&mut buf, &v.class);
                        put_str(&mut buf, &v.msg);
                        put_u64(&mut buf, o.tape.len() as u64);
                        for x in &o.tape {
                            put_u64(&mut buf, *x);
                        }
                    }
                    if buf.len() > 60000 {
                        sys::write_all(fds[1], &buf);
                        buf.clear();
                    }
                }
                sys::write_all(fds[1], &buf);
                sys::_exit(0);
            }
            sys::close(fds[1]);
            pipes.push((fds[0], pid));
        }
    }
    let mut err = None;
    let mut seen: Vec<(u64, Viol, Vec<u64>)> = vec![];
    // drain all pipes
    let mut bufs: Vec<Vec<u8>> = vec![vec![]; pipes.len()];
    let mut open = vec![true; pipes.len()];
    while open.iter().any(|x| *x) {
        let mut pf: Vec<sys::PollFd> = pipes.iter().enumerate().map(|(i, p)| sys::PollFd { fd: if open[i] { p.0 } else { -1 }, events: 1, revents: 0 }).collect();
        unsafe { sys::poll(pf.as_mut_ptr(), pf.len() as u64, 1000) };
        for i in 0..pipes.len() {
            if open[i] && pf[i].revents != 0 {
                let mut b = vec![0u8; 65536];
                let n = unsafe { sys::read(pipes[i].0, b.as_mut_ptr() as *mut _, b.len()) };
                if n <= 0 {
                    open[i] = false;
                } else {
                    bufs[i].extend_from_slice(&b[..n as usize]);
                }
            }
        }
    }
    for (i, b) in bufs.iter().enumerate() {
        let mut st = 0;
        unsafe { sys::waitpid(pipes[i].1, &mut st, 0) };
        let mut r = Rd(b);
        while !r.0.is_empty() {
            let k = r.0[0];
            r.0 = &r.0[1..];
            if k == b'B' {
                err = Some(r.str().unwrap_or_default());
                break;
            }
            if k == b'V' {
                let i = r.u64().ok_or("short record")?;
                let class = r.str().ok_or("short record")?;
                let msg = r.str().ok_or("short record")?;
                let n = r.u64().ok_or("short record")?;
                let mut tape = vec![];
                for _ in 0..n {
                    tape.push(r.u64().ok_or("short record")?);
                }
                seen.push((i, Viol { class, msg }, tape));
                continue;
            }
            let mut v = [0u64; 8 + FAULTS.len()];
            for x in v.iter_mut() {
                *x = r.u64().ok_or("short record")?;
            }
            tot.runs += 1;
            let s = &mut tot.st;
            s.lib_ops += v[0];
            s.checks += v[1];
            s.events += v[2];
            s.sim_us += v[3];
            s.switches += v[4];
            s.foreign += v[6];
            s.value_classes |= v[7];
            let mut f = 0;
            for k in 0..FAULTS.len() {
                s.faults[k] += v[8 + k];
                f += v[8 + k];
            }
            if f > 0 {
                tot.faulty += 1;
                tot.hashes.insert(v[5]);
            }
        }
        if st != 0 && err.is_none() {
            err = Some(format!("worker ended with status {st:#x}"));
        }
    }
    SLOWEST.fetch_max(page[2].load(SeqCst), SeqCst);
    let b = best.load(SeqCst);
    if b == u64::MAX {
        return match err {
            Some(e) => Err(e),
            None => Ok(None),
        };
    }
    // re-execute the lowest violating run to get its tape and trace
    for _ in 0..4 {
        match forked(prop, libs, &|| Ch::seeded(seed_of(prop, seed, b)), true) {
            Outcome::Done(o) if o.verdict.is_some() => return Ok(Some((b, o))),
            Outcome::Done(_) => (),
            Outcome::Broken(m) => return Err(m),
        }
    }
    // The simulator decides everything, so a run that does not repeat means that the library
    // itself depends on something else. Report what was seen.
    let (_, v, tape) = seen.into_iter().find(|x| x.0 == b).ok_or("lost record")?;
    let v = Viol { class: v.class, msg: format!("{} (the same run repeated did not show it: the result is not a function of the inputs)", v.msg) };
    Ok(Some((b, RunOut { verdict: Some(v), st: Stats::default(), tape, trace: vec![] })))
}

// ---- minimisation
fn try_tape(prop: &str, libs: &Libs, tape: &[u64], class: &str) -> Option<RunOut> {
    match forked(prop, libs, &|| Ch::replay(tape.to_vec()), false) {
        Outcome::Done(o) if o.verdict.as_ref().is_some_and(|v| v.class == class) => Some(o),
        _ => None,
    }
}
fn minimise(prop: &str, libs: &Libs, tape: Vec<u64>, class: &str, limit: Duration) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut tries = 0;
    let mut step = |cand: Vec<u64>, best: &mut Vec<u64>| -> bool {
        if t0.elapsed() > limit {
            return false;
        }
        tries += 1;
        if let Some(o) = try_tape(prop, libs, &cand, class) {
            // keep what the run consumed
            let mut c = cand;
            c.truncate(o.tape.len().max(0));
            while c.last() == Some(&0) {
                c.pop();
            }
            if c.len() < best.len() || (c.len() == best.len() && c < *best) {
                *best = c;
                return true;
            }
        }
        false
    };
    // cut the tail
    let (mut lo, mut hi) = (0usize, best.len());
    while lo < hi {
        let mid = (lo + hi) / 2;
        let c = best[..mid.min(best.len())].to_vec();
        if step(c, &mut best) {
            hi = mid.min(best.len());
        } else {
            lo = mid + 1;
        }
    }
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if step(c, &mut best) {
                    continue;
                }
                if best[i.min(best.len() - 1)..end.min(best.len())].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in c[i..end].iter_mut() {
                        *x = 0
                    }
                    step(c, &mut best);
                }
                i += size;
                if t0.elapsed() > limit {
                    return (best, tries);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            for v in [1, best[i] / 2, best[i] - 1] {
                if i < best.len() && v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    step(c, &mut best);
                }
            }
            if t0.elapsed() > limit {
                return (best, tries);
            }
        }
        if best == before {
            return (best, tries);
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let libs = load(prop);
    let (q, t) = budget(prop);
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let runs = ((if thorough { t } else { q }) as f64 * scale) as u64;
    let wall = Duration::from_secs(if thorough { 3000 } else { 420 });
    let t0 = Instant::now();
    let mut tot = Totals::default();
    let mut start = 0;
    let mut late = 0;
    let found = loop {
        match search(prop, &libs, seed, start, runs, wall.saturating_sub(t0.elapsed()), &mut tot) {
            // a run that took too long once and not again: a machine that stalled, not a verdict
            Ok(Some((b, o))) if o.trace.is_empty() && o.verdict.as_ref().is_some_and(|v| v.class == "hang" && v.msg.contains("repeated")) && late < 3 => {
                eprintln!("run {b} was too slow once");
                start = b + 1;
                late += 1;
            }
            Ok(x) => break x,
            Err(e) => {
                eprintln!("harness error: {e}");
                return 2;
            }
        }
    };
    let search_s = t0.elapsed().as_secs_f64();
    let known = known(prop);
    let mut rc = 0;
    let mut vline = String::new();
    let mut finding = String::new();
    if let Some((run, o)) = found {
        let Some(v) = &o.verdict else {
            eprintln!("harness error: run {run} violated once and not again: {:?}", o.st.hash);
            return 2;
        };
        let class = v.class.clone();
        eprintln!("run {run} (seed {seed}): {}: {}", class, v.msg);
        let mut tape = o.tape.clone();
        let mut tries = 0;
        if class != "hang" && class != "abort" {
            (tape, tries) = minimise(prop, &libs, o.tape.clone(), &class, Duration::from_secs(std::env::var("SIM_MINIMISE").ok().and_then(|x| x.parse().ok()).unwrap_or(30)));
        }
        let last = if tape.is_empty() && (class == "hang" || class == "abort") { None } else {
            match forked(prop, &libs, &|| Ch::replay(tape.clone()), true) {
                Outcome::Done(o) => Some(o),
                _ => None,
            }
        };
        let dir = format!("{}/replays", root());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{tier}-seed{seed}-run{run}.json");
        let (msg, trace) = match &last {
            Some(l) if l.verdict.is_some() => (l.verdict.as_ref().unwrap().msg.clone(), l.trace.clone()),
            _ => (v.msg.clone(), o.trace.clone()),
        };
        finding = format!("{class}: {msg}");
        let mut f = String::new();
        f.push_str("{\n");
        f.push_str(&format!(" \"property\": {},\n \"seed\": {seed},\n \"run\": {run},\n \"class\": {},\n \"violation\": {},\n", js(prop), js(&class), js(&msg)));
        f.push_str(&format!(" \"choices_before_minimisation\": {},\n \"minimiser_executions\": {tries},\n", o.tape.len()));
        f.push_str(&format!(" \"by_seed\": {},\n", class == "hang" || class == "abort"));
        f.push_str(&format!(" \"tape\": {:?},\n \"trace\": [\n", tape));
        for (i, t) in trace.iter().enumerate() {
            f.push_str(&format!("  {}{}\n", js(t), if i + 1 < trace.len() { "," } else { "" }));
        }
        f.push_str(" ]\n}\n");
        if std::fs::write(&path, f).is_err() {
            eprintln!("cannot write {path}");
            return 2;
        }
        eprintln!("minimised from {} to {} choices: {}", o.tape.len(), tape.len(), msg);
        if let Some(k) = known.iter().find(|k| finding.contains(k.as_str())) {
            println!("KNOWN-FINDING: property={prop} {k}");
        } else {
            vline = format!("VIOLATION property={prop} replay={path}");
            rc = 1;
        }
    }
    if let Err(e) = evidence(prop, tier, seed, &libs, &tot, runs, search_s, t0.elapsed().as_secs_f64(), rc, &finding) {
        eprintln!("harness error: {e}");
        return 2;
    }
    println!("{prop}: {} runs, {} distinct faulty histories, {} library calls, {} comparisons, {:.1} s simulated, {} foreign, {:.1} s, slowest run {:.1} s", tot.runs, tot.hashes.len(), tot.st.lib_ops, tot.st.checks, tot.st.sim_us as f64 / 1e6, tot.st.foreign, search_s, SLOWEST.load(SeqCst) as f64 / 1e3);
    if rc == 1 {
        println!("{vline}");
    }
    rc
}

fn known(prop: &str) -> Vec<String> {
    // lines "finding: property=<id> <text contained in the violation>"
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", root())).unwrap_or_default();
    s.lines().filter_map(|l| l.strip_prefix(&format!("finding: property={prop} "))).map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect()
}

fn evidence(prop: &str, tier: &str, seed: u64, libs: &Libs, tot: &Totals, planned: u64, search_s: f64, wall: f64, viols: i32, finding: &str) -> Result<(), String> {
    let mut samples = vec![];
    for i in 0..2 {
        if let Outcome::Done(o) = forked(prop, libs, &|| Ch::seeded(seed_of(prop, seed, i)), true) {
            let t: Vec<String> = o.trace.iter().take(40).map(|x| js(&x.chars().take(300).collect::<String>())).collect();
            samples.push(format!("{{\"run\": {i}, \"choices\": {}, \"history_hash\": \"{:016x}\", \"trace_head\": [{}]}}", o.tape.len(), o.st.hash, t.join(", ")));
        }
    }
    let faults: Vec<String> = FAULTS.iter().zip(tot.st.faults).filter(|x| x.1 > 0).map(|(n, c)| format!("{}: {}", js(n), c)).collect();
    let real = js(match prop {
        "C12" => "real: the library (one of four builds per run, two loaded copies and fresh processes), its threads, its panics and unwinding; simulated: thread scheduling, random generators, iterators",
        "C22" => "real: the library with its zeroize feature, in four builds, the zeroize crate, unwinding; simulated: core dumps, crashes, callers that unwind, the allocator's view of freed blocks; stub: the parties around the library",
        "C20" => "real: the library and its dependencies (both backends, release profile, every basic block, load and store reported by sanitizer coverage, memcpy and memcmp reported by stand-ins), its panics and unwinding; simulated: crashes with reload, random generators, iterators, the observer; stub: the party around the library",
        _ => "real: the library itself in four builds (64-bit and 32-bit backend, release and overflow-checked), every arithmetic and codec path, panics and unwinding; simulated: network, disks, clocks, process crashes, random generators, iterators; stub: the protocol logic around the library and the peers' message checksums",
    });
    let rule = js(&format!(
        "A case is one simulated run, a function of (VERIF_SEED, property, run index): {} {} A run is non-trivial if at least one fault was injected into it; distinct counts different hashes over the sequence of (event kind, parties, message ids, faults{}).",
        if prop == "C20" { "one seeded history of 10-22 operations with crashes, reloads and failing callbacks, executed in 2-4 worlds that differ only in the secrets (simulated time: 1 us per 1000 observed events)." } else { if prop == "C22" { "1-3 parties with seeded builds and 10-40 interleaved steps of storing, computing, copying, wiping, unwinding and crashing, with core dumps between and inside them." } else { "2-5 parties with seeded builds, workload, message delays and faults until faults stop, then completion within 1 s of simulated time." } },
        match prop { "C22" => "Oracle: memory of wiped values, in slots, dumps and freed blocks, is zero; all other values are as they were.", "C20" => "Oracle: the observer's history of each operation (blocks entered, addresses touched, in order) is the same in all worlds.", "C10" => "Oracle: byte equality of every log entry's result across replicas.", "C12" => "Oracle: the same operations sequentially in another order in a second copy of the library, and in fresh processes.", _ => "Oracle: independent reference model in lockstep with every library call, plus agreement between parties." },
        if prop == "C12" { ", preemption points" } else { "" }
    ));
    let f = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {rule},\n  \"samples\": [{}],\n  \"runs_planned\": {planned}, \"runs_with_faults\": {}, \"runs_per_hour\": {:.0}, \"simulated_seconds\": {:.3},\n  \"library_calls\": {}, \"comparisons_with_oracle\": {}, \"events\": {}, \"thread_switches\": {},\n  \"runs_ended_without_verdict\": {},\n  \"faults_injected\": {{{}}},\n  \"components\": {real},\n  \"result\": {}\n }},\n \"assumptions\": [\"the reference model (sim/src/num.rs, model.rs) is right; it is compared with Python integers by tools/model_test.py\", \"the search samples: a clean batch is evidence, not proof\"],\n \"wall_s\": {:.1}, \"violations\": {viols}\n}}\n",
        js(prop), js(if tier == "thorough" { "thorough" } else { "quick" }), tot.runs, tot.hashes.len(), samples.join(",\n   "), tot.faulty,
        tot.runs as f64 / search_s.max(0.001) * 3600.0, tot.st.sim_us as f64 / 1e6, tot.st.lib_ops, tot.st.checks, tot.st.events, tot.st.switches, tot.st.foreign, faults.join(", "),
        js(if finding.is_empty() { "no violation" } else { finding }), wall
    );
    let d = format!("{}/evidence", root());
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    std::fs::write(format!("{d}/{prop}.json"), f).map_err(|e| e.to_string())
}

fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    let p = s.find(&format!("\"{k}\":"))? + k.len() + 3;
    Some(s[p..].trim_start())
}
pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let get = |k: &str| field(&s, k).map(|x| x.trim_start_matches('"').split(|c| c == '"' || c == ',' || c == '\n').next().unwrap().to_string());
    let prop = get("property").unwrap();
    let class = get("class").unwrap();
    let by_seed = get("by_seed").unwrap() == "true";
    let seed: u64 = get("seed").unwrap().parse().unwrap();
    let run: u64 = get("run").unwrap().parse().unwrap();
    let t = field(&s, "tape").unwrap();
    let t = &t[1..t.find(']').unwrap()];
    let tape: Vec<u64> = t.split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let libs = load(&prop);
    let mk = || if by_seed { Ch::seeded(seed_of(&prop, seed, run)) } else { Ch::replay(tape.clone()) };
    match forked(&prop, &libs, &mk, true) {
        Outcome::Done(o) => {
            for t in &o.trace {
                println!("{t}");
            }
            match o.verdict {
                Some(v) => {
                    println!("{}: {}", v.class, v.msg);
                    if v.class == class {
                        println!("VIOLATION property={prop} replay={path}");
                        1
                    } else {
                        println!("another violation than the recorded {class}");
                        1
                    }
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        Outcome::Broken(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}
pub fn one(prop: &str, run: u64, seed: u64) -> i32 {
    let libs = load(prop);
    let o = execute(prop, &libs, Ch::seeded(seed_of(prop, seed, run)), true);
    for t in &o.trace {
        println!("{t}");
    }
    println!("choices {} hash {:016x} verdict {:?}", o.tape.len(), o.st.hash, o.verdict.map(|v| (v.class, v.msg)));
    0
}
/// Every run twice from its seed and once from its tape: histories must be identical.
pub fn determinism(prop: &str, runs: u64, seed: u64) -> i32 {
    let libs = load(prop);
    let mut bad = 0;
    for i in 0..runs {
        let go = |ch: &dyn Fn() -> Ch| match forked(prop, &libs, ch, true) {
            Outcome::Done(o) => o,
            Outcome::Broken(m) => panic!("{m}"),
        };
        let a = go(&|| Ch::seeded(seed_of(prop, seed, i)));
        let b = go(&|| Ch::seeded(seed_of(prop, seed, i)));
        let c = go(&|| Ch::replay(a.tape.clone()));
        if a.st.hash != b.st.hash || a.trace != b.trace || a.tape != b.tape || c.st.hash != a.st.hash || c.trace != a.trace {
            println!("{prop} run {i} is not deterministic");
            bad += 1;
        }
    }
    println!("{prop}: {runs} runs, {bad} not deterministic");
    (bad > 0) as i32
}
