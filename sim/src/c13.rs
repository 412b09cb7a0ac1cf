//! C13: random scalars under failing, stuck and healthy generators.
use crate::gens;
use crate::node::*;
use crate::num::*;
use crate::rngsim::{self, Kind, Stream};
use crate::world::*;

pub struct Rand {
    nn: usize,
    seen: Vec<(u64, [u8; 56])>,
    ctx: u64,
}
impl Rand {
    pub fn new(w: &mut W) -> Rand {
        Rand { nn: w.n(), seen: vec![], ctx: 0 }
    }
    /// One draw. None: the generator's failure reached the caller.
    fn draw(&mut self, w: &mut W, n: usize, s: Stream) -> R<Option<[u8; 56]>> {
        self.ctx += 1;
        let ctx = self.ctx;
        let what = format!("{:?} seed {:#x} fail_at {}", s.kind, s.seed, s.fail_at);
        rngsim::set(ctx, s);
        let i = w.slot(n, 0);
        // now and then a generator that uses the library itself
        let nested = (ctx < 200 && crate::ch::mix(ctx) % 8 == 0) as u32;
        w.st.lib_ops += 1;
        let nd = &w.nodes[n];
        let (st, out) = w.libs[nd.build].exec(nd.vm, 8, i, 0, 0, nested, &ctx.to_le_bytes());
        let fired = rngsim::get(ctx).fired;
        w.st.checks += 1;
        ev!(w, "node {} ({}) draws from {} -> status {}", n, BUILDS[w.nodes[n].build], what, st);
        if fired {
            w.fault(F_RNGFAIL);
            if st == OK {
                return viol("failure-swallowed", format!("the generator failed ({what}) but a scalar was produced"));
            }
            return Ok(None);
        }
        if st != OK {
            return viol("draw-failed", format!("a working generator ({what}) gave status {st}: {}", String::from_utf8_lossy(&out)));
        }
        let (_, o) = w.ex(n, 14, 0, i, 0, 0, &[])?;
        let b: [u8; 56] = o.try_into().unwrap();
        if U::from_le(&b) >= L {
            return viol("not-canonical", format!("random scalar {} is not below the order ({what})", hx(&b)));
        }
        // and the strict importer agrees, so it is usable
        Ok(Some(b))
    }
    fn fault_stream(&mut self, w: &mut W) -> Stream {
        let ch = &mut w.ch;
        let seed = ch.raw();
        let kind = match ch.below(6) {
            0 => Kind::Const(ch.pick(&[0u8, 0xff, 0x80, 0x7f, 1, 0xaa])),
            1 => {
                let k = ch.range(1, 9) as usize;
                Kind::Period(ch.bytes(k))
            }
            2 => {
                // multiples of the order and other edge values, repeated
                let mut b = vec![];
                for _ in 0..ch.range(1, 3) {
                    b.extend_from_slice(&gens::scalar_raw(ch, &[]).to_le());
                }
                let pad = ch.below(4) as usize;
                b.extend(std::iter::repeat(if ch.chance(1, 2) { 0xff } else { 0 }).take(pad));
                Kind::Period(b)
            }
            _ => Kind::Good,
        };
        if !matches!(kind, Kind::Good) {
            w.fault(F_RNGSTUCK);
        }
        let mut s = Stream::new(kind, seed);
        if w.ch.chance(1, 2) {
            s.fail_at = w.ch.pick(&[0u32, 0, 0, 1, 2, 3, 7, 13, 27, 28, 56, 113]);
            s.partial = w.ch.chance(1, 2);
        }
        s
    }
}
#[allow(non_snake_case)]
impl Proto for Rand {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        // announce a healthy stream: every peer must derive the same scalar from it
        let seed = w.ch.raw();
        let b = self.draw(w, n, Stream::new(Kind::Good, seed))?.expect("healthy stream");
        let mut m = seed.to_le_bytes().to_vec();
        m.extend_from_slice(&b);
        let e = w.nodes[n].epoch;
        w.broadcast(n, (n as u32) + (e << 8), &m);
        Ok(())
    }
    fn recv(&mut self, w: &mut W, n: usize, from: usize, _id: u32, body: &[u8], intact: bool) -> R<bool> {
        if !intact {
            return Ok(false);
        }
        let seed = u64::from_le_bytes(body[..8].try_into().unwrap());
        let b = self.draw(w, n, Stream::new(Kind::Good, seed))?.expect("healthy stream");
        w.st.checks += 1;
        if b[..] != body[8..] {
            return viol("stream-diverges", format!("nodes {from} and {n} draw {} and {} from one stream {seed:#x}", hx(&body[8..]), hx(&b)));
        }
        self.seen.push((seed, b));
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        for _ in 0..w.ch.range(1, 6) {
            let s = self.fault_stream(w);
            let r = self.draw(w, n, s.clone())?;
            // the same stream again, here or elsewhere, with any history in between
            let m = w.ch.idx(self.nn);
            if w.nodes[m].up {
                let mut t = s.clone();
                t.fail_at = u32::MAX;
                let a = self.draw(w, m, t.clone())?;
                let b = self.draw(w, n, t)?;
                w.st.checks += 1;
                if a != b || (r.is_some() && r != a) {
                    return viol("stream-diverges", format!("one stream gives different scalars: {s:?}"));
                }
            }
        }
        Ok(())
    }
    fn done(&self, _w: &W) -> bool {
        self.seen.len() >= self.nn * (self.nn - 1)
    }
    fn finish(&mut self, w: &mut W) -> R<()> {
        // spread, over independent healthy streams
        let n = w.ch.idx(self.nn);
        if !w.nodes[n].up {
            return Ok(());
        }
        // now and then many, which shows a smaller bias
        let N: usize = if w.ch.chance(1, 64) { 24_000 } else { 560 };
        let base = w.ch.raw();
        let mut draws: Vec<U> = vec![];
        for k in 0..N as u64 {
            let b = self.draw(w, n, Stream::new(Kind::Good, crate::ch::mix(base ^ crate::ch::mix(k))))?.expect("healthy stream");
            draws.push(U::from_le(&b));
        }
        // the first ones again, after all the others
        for k in 0..3 {
            let m = w.ch.idx(self.nn);
            if w.nodes[m].up {
                let b = self.draw(w, m, Stream::new(Kind::Good, crate::ch::mix(base ^ crate::ch::mix(k))))?.expect("healthy stream");
                w.st.checks += 1;
                if U::from_le(&b) != draws[k as usize] {
                    return viol("stream-diverges", format!("one stream gives different scalars before and after {N} other draws"));
                }
            }
        }
        // a scalar spread over 446 bits must depend on as many bits of the stream: a function with fibres of
        // 2^(n-446) of the 2^n streams changes, on average, for at least 446 of the n one-bit changes
        if w.ch.chance(1, 4) {
            let seed = w.ch.raw();
            let ref_ = self.draw(w, n, Stream::new(Kind::Good, seed))?.expect("healthy stream");
            let bits = 8 * rngsim::get(self.ctx).pos.min(1024);
            let mut live = 0;
            for i in 0..bits {
                let mut s = Stream::new(Kind::Good, seed);
                s.flip = i;
                if self.draw(w, n, s)?.expect("healthy stream") != ref_ {
                    live += 1;
                }
            }
            w.st.checks += 1;
            if live < 430 {
                return viol("no-entropy", format!("the scalar drawn from stream {seed:#x} depends on {live} of the {bits} bits read"));
            }
        }
        // consecutive draws from one generator as well: new bytes, new scalars
        let seed = w.ch.raw();
        let mut s = Stream::new(Kind::Good, seed);
        for _ in 0..24 {
            let b = self.draw(w, n, s.clone())?.expect("healthy stream");
            let t = rngsim::get(self.ctx);
            if t.pos == s.pos {
                return viol("no-entropy", "a scalar was produced without reading the generator".into());
            }
            s = t;
            draws.push(U::from_le(&b));
        }
        let N = N + 24;
        w.st.checks += 3;
        let mut sorted = draws.clone();
        sorted.sort();
        sorted.dedup();
        if sorted.len() != N {
            return viol("not-spread", format!("{} distinct scalars from {N} independent streams", sorted.len()));
        }
        let lim = 7.0 * (N as f64).sqrt() / 2.0;
        for bit in 0..446 {
            let c = draws.iter().filter(|d| d.bit(bit)).count() as f64;
            if (c - N as f64 / 2.0).abs() > lim {
                return viol("not-spread", format!("bit {bit} is set in {c} of {N} random scalars"));
            }
        }
        for m in [3u64, 5, 7, 11, 13, 17] {
            let mut cnt = vec![0f64; m as usize];
            for d in &draws {
                let mut r = 0u128;
                for l in d.0.iter().rev() {
                    r = ((r << 64) | *l as u128) % m as u128;
                }
                cnt[r as usize] += 1.0;
            }
            let e = N as f64 / m as f64;
            for (r, c) in cnt.iter().enumerate() {
                if (c - e).abs() > 8.0 * e.sqrt() + 4.0 {
                    return viol("not-spread", format!("{c} of {N} random scalars are {r} modulo {m}"));
                }
            }
        }
        // linear dependences between bits
        let mut rows: Vec<[u64; 7]> = draws.iter().map(|d| d.0).collect();
        let mut rank = 0;
        for bit in 0..446 {
            let Some(p) = (rank..rows.len()).find(|i| rows[*i][bit / 64] >> (bit % 64) & 1 == 1) else { continue };
            rows.swap(rank, p);
            let piv = rows[rank];
            for (i, r) in rows.iter_mut().enumerate() {
                if i != rank && r[bit / 64] >> (bit % 64) & 1 == 1 {
                    for k in 0..7 {
                        r[k] ^= piv[k]
                    }
                }
            }
            rank += 1;
        }
        if rank < 446 {
            return viol("not-spread", format!("{N} random scalars have bit rank {rank} of 446"));
        }
        Ok(())
    }
}
