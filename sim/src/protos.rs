//! The protocols whose parties run the library: one per property, each with its messages, its
//! durable state, its background workload and (where the property speaks of attackers) forgeries.
use crate::ch::Ch;
use crate::gens;
use crate::model::*;
use crate::node::*;
use crate::num::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

fn a56(b: &[u8]) -> [u8; 56] {
    b.try_into().unwrap()
}
fn a57(b: &[u8]) -> [u8; 57] {
    b.try_into().unwrap()
}
fn keep<T>(ch: &mut Ch, v: &mut Vec<T>, x: T) {
    if v.len() < 10 {
        v.push(x)
    } else {
        let i = ch.idx(v.len());
        v[i] = x
    }
}
macro_rules! keep {
    ($w:expr, $n:expr, $pool:ident, $x:expr) => {{
        let x = $x;
        let mut v = std::mem::take(&mut $w.nodes[$n].$pool);
        keep(&mut $w.ch, &mut v, x);
        $w.nodes[$n].$pool = v;
    }};
}
fn sc_like(w: &W, n: usize) -> Vec<U> {
    w.nodes[n].sc.iter().map(|s| s.v).collect()
}
fn ed_like(w: &W, n: usize) -> Vec<Pt> {
    w.nodes[n].ed.iter().map(|s| s.p).collect()
}
fn de_like(w: &W, n: usize) -> Vec<Pt> {
    w.nodes[n].de.iter().map(|s| s.p).collect()
}
/// Some scalar of node n: an earlier one, or a fresh import of any 448-bit value.
fn some_sc(w: &mut W, n: usize) -> R<Sc> {
    if !w.nodes[n].sc.is_empty() && w.ch.chance(1, 2) {
        let i = w.ch.idx(w.nodes[n].sc.len());
        return Ok(w.nodes[n].sc[i]);
    }
    let like = sc_like(w, n);
    let v = gens::scalar_raw(&mut w.ch, &like);
    let s = if v < L && w.ch.chance(1, 2) { w.s_load(n, v)? } else { w.s_raw(n, v)? };
    keep!(w, n, sc, s);
    Ok(s)
}
/// A second operand for a: some scalar, or one with which a gives a special result.
fn partner_sc(w: &mut W, n: usize, a: &Sc) -> R<Sc> {
    if w.ch.chance(2, 3) {
        return some_sc(w, n);
    }
    let v = gens::partner(&mut w.ch, a.v);
    let s = if v < L && w.ch.chance(1, 2) { w.s_load(n, v)? } else { w.s_raw(n, v)? };
    keep!(w, n, sc, s);
    Ok(s)
}
fn some_ed(w: &mut W, n: usize) -> R<Ed> {
    if !w.nodes[n].ed.is_empty() && w.ch.chance(2, 3) {
        let i = w.ch.idx(w.nodes[n].ed.len());
        return Ok(w.nodes[n].ed[i]);
    }
    let e = match w.ch.below(8) {
        0 => {
            let var = w.ch.below(2) as u32;
            w.e_new(n, 40, 0, 0, var, &[], ID, &|| String::new())?
        }
        1 => w.e_new(n, 41, 0, 0, 0, &[], gen(), &|| String::new())?,
        _ => {
            let like = ed_like(w, n);
            let p = gens::point(&mut w.ch, &like);
            w.e_load(n, &p)?
        }
    };
    keep!(w, n, ed, e);
    Ok(e)
}
fn some_de(w: &mut W, n: usize) -> R<De> {
    if !w.nodes[n].de.is_empty() && w.ch.chance(2, 3) {
        let i = w.ch.idx(w.nodes[n].de.len());
        return Ok(w.nodes[n].de[i]);
    }
    let d = match w.ch.below(8) {
        0 => w.d_new(n, 80, 0, 0, 0, &[], ID, &|| String::new())?,
        1 => w.d_new(n, 81, 0, 0, 0, &[], decaf_gen(), &|| String::new())?,
        _ => {
            let like = de_like(w, n);
            let p = gens::decaf(&mut w.ch, &like);
            w.d_load(n, &p)?
        }
    };
    keep!(w, n, de, d);
    Ok(d)
}
/// A step that changes a point's projective representation or its value, in lockstep.
fn ed_step(w: &mut W, n: usize) -> R<Ed> {
    let a = some_ed(w, n)?;
    let r = match w.ch.below(12) {
        0 | 1 => {
            let b = some_ed(w, n)?;
            w.e_add(n, &a, &b)?
        }
        2 | 3 => {
            let b = some_ed(w, n)?;
            w.e_sub(n, &a, &b)?
        }
        4 => {
            let var = w.ch.below(5) as u32;
            w.e_un(n, 46, &a, var, a.p.neg())?
        }
        5 => w.e_un(n, 48, &a, 0, a.p.dbl())?,
        6 => {
            let b = some_ed(w, n)?;
            let (c, var) = (w.ch.below(2) as u8, w.ch.below(4) as u32);
            let p = if c == 1 { b.p } else { a.p };
            w.e_new(n, 52, a.i, b.i, var, &[c], p, &|| format!("choice {c}"))?
        }
        7 => w.e_add(n, &a, &a)?,
        8 => w.e_sub(n, &a, &a)?,
        9 => {
            // P + (-P), and P - (-P)
            let b = w.e_un(n, 46, &a, 0, a.p.neg())?;
            if w.ch.chance(1, 2) {
                w.e_add(n, &a, &b)?
            } else {
                w.e_sub(n, &a, &b)?
            }
        }
        10 => w.e_un(n, 56, &a, 0, a.p)?,
        _ => return sum_step(w, n),
    };
    keep!(w, n, ed, r);
    Ok(r)
}
/// A point and a scalar to multiply it with; sometimes such that the product is special.
fn ed_and_sc(w: &mut W, n: usize) -> R<(Ed, Sc)> {
    let s = some_sc(w, n)?;
    let p = match w.ch.below(8) {
        0..=2 => ed_step(w, n)?,
        3 => {
            let p = gens::aimed_point(&mut w.ch, s.v);
            let e = w.e_load(n, &p)?;
            keep!(w, n, ed, e);
            e
        }
        _ => some_ed(w, n)?,
    };
    Ok((p, s))
}
/// Iterator sums, with iterators that end early or unwind.
fn sum_step(w: &mut W, n: usize) -> R<Ed> {
    let k = w.ch.idx(7);
    let mut xs = vec![];
    for _ in 0..k {
        xs.push(some_ed(w, n)?);
    }
    if k > 0 && w.ch.chance(1, 12) {
        // a long sum, over points already there
        for _ in 0..w.ch.below(90) {
            let x = xs[w.ch.idx(k)];
            xs.push(x);
        }
    }
    let k = xs.len();
    let mut end = u32::MAX;
    let mut fail = u32::MAX;
    if w.ch.chance(1, 6) {
        end = w.ch.idx(k + 1) as u32;
        w.fault(F_ITEREND);
    }
    // by reference or by value; what the iterator tells about its length; whether it calls the
    // library itself
    let var = w.ch.below(24) as u32;
    if w.ch.chance(1, 6) {
        fail = w.ch.idx(k + 1) as u32;
        if var & 6 != 0 && fail as usize >= xs.len().min(end as usize) {
            // whoever was told the length need not ask for one more element
            fail = u32::MAX;
        }
    }
    let mut inp = fail.to_le_bytes().to_vec();
    inp.extend_from_slice(&end.to_le_bytes());
    for x in &xs {
        inp.extend_from_slice(&x.i.to_le_bytes());
    }
    let upto = xs.len().min(end as usize);
    let mut p = ID;
    for x in &xs[..upto] {
        p = p.add(&x.p);
    }
    if (fail as usize) <= upto {
        // the caller's iterator unwinds at a position the sum must reach
        let i = w.slot(n, 1);
        let (st, _) = w.ex(n, 51, i, 0, 0, var, &inp)?;
        w.fault(F_ITERFAIL);
        w.st.checks += 1;
        if st != INJECTED {
            return viol("swallowed-unwind", format!("a failing iterator at position {fail} of {upto} was not propagated"));
        }
        return some_ed(w, n);
    }
    let r = w.e_new(n, 51, 0, 0, var, &inp, p, &|| format!("{upto} terms"))?;
    keep!(w, n, ed, r);
    Ok(r)
}

// ------------------------------------------------------------------ C01, C02: key agreement
pub struct Dh {
    hostile: bool,
    nn: usize,
    shared: BTreeMap<(usize, usize), [u8; 56]>,
    routes: Vec<Vec<usize>>,
    fin: BTreeMap<usize, [u8; 56]>,
}
impl Dh {
    pub fn new(w: &mut W, hostile: bool) -> Dh {
        let nn = w.n();
        let mut routes = vec![];
        if !hostile {
            for _ in 0..w.ch.range(2, 3) {
                let mut r: Vec<usize> = (0..nn).collect();
                for i in (1..nn).rev() {
                    let j = w.ch.idx(i + 1);
                    r.swap(i, j);
                }
                routes.push(r);
            }
        }
        Dh { hostile, nn, shared: BTreeMap::new(), routes, fin: BTreeMap::new() }
    }
    fn sk(&self, w: &mut W, n: usize) -> R<Sc> {
        let v = w.fetch(n, "sk").expect("secret on disk");
        w.s_raw(n, U::from_le(&v))
    }
    fn base(&self, w: &mut W, n: usize) -> R<Mo> {
        w.m_new(n, 60, 0, 0, 0, &[], U::from_u64(5).to_le(), &|| String::new())
    }
    fn hop(&mut self, w: &mut W, n: usize, r: usize, h: usize, v: Mo, sk: &Sc) -> R<()> {
        let out = w.m_mul(n, &v, sk)?;
        let b = w.m_bytes(n, &out)?;
        if h + 1 == self.nn {
            self.fin.insert(r, b);
        } else {
            w.store(n, &format!("r{r}-{h}"), &b)?;
            let to = self.routes[r][h + 1];
            w.send(n, to, 0x20000 + ((r as u32) << 8) + h as u32 + 1, b.to_vec());
        }
        Ok(())
    }
    fn hostile_u(&mut self, w: &mut W, n: usize, u: [u8; 56]) -> R<()> {
        let sk = some_sc(w, n)?;
        // now and then, a value chosen by somebody who knows the secret
        let u = if w.ch.chance(1, 6) { gens::aimed_u(&mut w.ch, sk.v).to_le() } else { u };
        let m = w.m_load(n, u)?;
        let (_, o) = w.ex(n, 64, 0, m.i, 0, 0, &[])?;
        let low = low_order(&u);
        w.class(low as u32);
        w.expect(n, 64, "low-order test", &o, &[low as u8], &|| hx(&u))?;
        let r = w.m_mul(n, &m, &sk)?;
        keep!(w, n, mo, r);
        if w.ch.chance(1, 4) {
            w.m_new(n, 66, m.i, 0, 0, &[], fred(U::from_le(&u)).to_le(), &|| hx(&u))?;
        }
        if w.ch.chance(1, 8) {
            // a second, independent computation on a fresh copy
            let m2 = w.m_load(n, u)?;
            let r2 = w.m_mul(n, &m2, &sk)?;
            let var = w.ch.below(3) as u32;
            let (_, o) = w.ex(n, 65, 0, r.i, r2.i, var, &[])?;
            w.expect(n, 65, "u equality", &o, &[1], &|| String::new())?;
        }
        Ok(())
    }
}
/// Public values as an attacker chooses them.
pub fn hostile_u(ch: &mut Ch, like: &[U]) -> [u8; 56] {
    match ch.below(6) {
        0 => {
            // every encoding of a low-order value
            let v = [ZERO, ONE, P.sub(ONE).0, P, P.add(ONE).0][ch.idx(5)];
            v.to_le()
        }
        1 => {
            // neighbours of low-order encodings
            let v = [ZERO, ONE, P.sub(ONE).0, P, P.add(ONE).0][ch.idx(5)];
            let i = ch.idx(448);
            let mut r = v;
            r.0[i / 64] ^= 1 << (i % 64);
            r.to_le()
        }
        2 => {
            // non-canonical encodings: p <= value < 2^448, 2^224 + 1 of them
            let off = fred_low(ch);
            P.add(off).0.to_le()
        }
        3 => {
            // a point's u, damaged
            let mut b = special_u(ch).to_le().to_vec();
            gens::damage(ch, &mut b, &[]);
            a56(&b)
        }
        _ => gens::field_raw(ch, like).to_le(),
    }
}
fn fred_low(ch: &mut Ch) -> U {
    // an offset below 2^224 + 1
    let mut v = gens::field_raw(ch, &[]);
    for i in 4..7 {
        v.0[i] = 0
    }
    v.0[3] &= 0xffff_ffff;
    v
}
fn special_u(ch: &mut Ch) -> U {
    gens::special_point(ch).to_u()
}
impl Proto for Dh {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        if w.fetch(n, "sk").is_none() {
            let v = gens::scalar_raw(&mut w.ch, &[]);
            w.store(n, "sk", &v.to_le())?;
        }
        let sk = self.sk(w, n)?;
        let g = self.base(w, n)?;
        let p = w.m_mul(n, &g, &sk)?;
        let b = w.m_bytes(n, &p)?;
        w.broadcast(n, 0x10000 + n as u32, &b);
        for r in 0..self.routes.len() {
            for h in 0..self.nn {
                if self.routes[r][h] != n {
                    continue;
                }
                if let Some(b) = w.fetch(n, &format!("r{r}-{h}")) {
                    let to = self.routes[r][h + 1];
                    w.send(n, to, 0x20000 + ((r as u32) << 8) + h as u32 + 1, b);
                } else if h == 0 {
                    let g = self.base(w, n)?;
                    self.hop(w, n, r, 0, g, &sk)?;
                }
            }
        }
        Ok(())
    }
    fn recv(&mut self, w: &mut W, n: usize, from: usize, id: u32, body: &[u8], intact: bool) -> R<bool> {
        if body.len() != 56 || (!intact && !self.hostile) {
            return Ok(false);
        }
        let u = a56(body);
        if !intact {
            self.hostile_u(w, n, u)?;
            return Ok(false);
        }
        let sk = self.sk(w, n)?;
        let m = w.m_load(n, u)?;
        if id >= 0x20000 {
            let (r, h) = ((id >> 8 & 0xff) as usize, (id & 0xff) as usize);
            if self.fin.contains_key(&r) || w.fetch(n, &format!("r{r}-{h}")).is_some() {
                return Ok(true); // duplicate
            }
            self.hop(w, n, r, h, m, &sk)?;
        } else {
            let s = w.m_mul(n, &m, &sk)?;
            let b = w.m_bytes(n, &s)?;
            if let Some(old) = self.shared.insert((n, from), b) {
                w.st.checks += 1;
                if old != b {
                    return viol("shared-changed", format!("node {n} derived two different values for one peer"));
                }
            }
        }
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        if self.hostile {
            return self.attack(w, n);
        }
        let s = some_sc(w, n)?;
        let m = match w.ch.below(5) {
            4 => {
                let u = gens::aimed_u(&mut w.ch, s.v);
                w.m_load(n, u.to_le())?
            }
            0 => self.base(w, n)?,
            1 => {
                let p = gens::point(&mut w.ch, &[]);
                w.m_load(n, p.to_u().to_le())?
            }
            2 => {
                let u = gens::field(&mut w.ch, &[]);
                w.m_load(n, u.to_le())?
            }
            _ => match w.nodes[n].mo.len() {
                0 => self.base(w, n)?,
                k => {
                    let i = w.ch.idx(k);
                    w.nodes[n].mo[i]
                }
            },
        };
        let r = w.m_mul(n, &m, &s)?;
        if w.ch.chance(1, 4) {
            // projective form: round trip and selection
            w.m_new(n, 66, m.i, 0, 0, &[], m.v, &|| String::new())?;
            let c = w.ch.below(2) as u8;
            let want = if c == 1 { r.v } else { m.v };
            w.m_new(n, 67, m.i, r.i, 0, &[c], want, &|| format!("choice {c}"))?;
        }
        if w.ch.chance(1, 4) {
            // two more parties: order of exponents does not matter
            let t = some_sc(w, n)?;
            let x = w.m_mul(n, &r, &t)?;
            let y = w.m_mul(n, &m, &t)?;
            let y = w.m_mul(n, &y, &s)?;
            let var = w.ch.below(3) as u32;
            let (_, o) = w.ex(n, 65, 0, x.i, y.i, var, &[])?;
            w.expect(n, 65, "u equality", &o, &[1], &|| String::new())?;
            let (_, o) = w.ex(n, 65, 0, x.i, m.i, var, &[])?;
            w.expect(n, 65, "u equality", &o, &[(x.v == m.v) as u8], &|| String::new())?;
        }
        keep!(w, n, mo, r);
        Ok(())
    }
    fn attack(&mut self, w: &mut W, n: usize) -> R<()> {
        if !self.hostile {
            return self.work(w, n);
        }
        let like: Vec<U> = w.nodes[n].mo.iter().map(|m| U::from_le(&m.v)).collect();
        let u = hostile_u(&mut w.ch, &like);
        self.hostile_u(w, n, u)
    }
    fn done(&self, _w: &W) -> bool {
        self.shared.len() == self.nn * (self.nn - 1) && self.fin.len() == self.routes.len()
    }
    fn finish(&mut self, w: &mut W) -> R<()> {
        for ((a, b), v) in &self.shared {
            w.st.checks += 1;
            if self.shared[&(*b, *a)] != *v {
                return viol("no-agreement", format!("nodes {a} and {b} derived different shared values {} and {}", hx(v), hx(&self.shared[&(*b, *a)])));
            }
        }
        for v in self.fin.values() {
            w.st.checks += 1;
            if *v != self.fin[&0] {
                return viol("no-agreement", "group value depends on the route".into());
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C03, C04, C05: encodings
#[derive(Clone, Copy, PartialEq)]
pub enum Kind {
    Ed,
    De,
    Sc,
}
pub struct Relay {
    k: Kind,
    items: Vec<(Pt, U, Vec<usize>)>,
    fin: BTreeSet<usize>,
}
impl Relay {
    pub fn new(w: &mut W, k: Kind) -> Relay {
        let mut items = vec![];
        for _ in 0..w.ch.range(1, 4) {
            let like: Vec<Pt> = items.iter().map(|x: &(Pt, U, Vec<usize>)| x.0).collect();
            let slike: Vec<U> = items.iter().map(|x: &(Pt, U, Vec<usize>)| x.1).collect();
            let p = match k {
                Kind::Ed => gens::point(&mut w.ch, &like),
                Kind::De => gens::decaf(&mut w.ch, &like),
                Kind::Sc => ID,
            };
            let v = if k == Kind::Sc { gens::scalar_canon(&mut w.ch, &slike) } else { ZERO };
            let mut path = vec![w.ch.idx(w.n())];
            for _ in 0..w.ch.range(1, 5) {
                let mut x = w.ch.idx(w.n());
                if x == *path.last().unwrap() {
                    x = (x + 1) % w.n();
                }
                path.push(x);
            }
            items.push((p, v, path));
        }
        Relay { k, items, fin: BTreeSet::new() }
    }
    fn enc(&self, j: usize) -> Vec<u8> {
        match self.k {
            Kind::Ed => self.items[j].0.enc().to_vec(),
            Kind::De => self.items[j].0.decaf_enc().to_vec(),
            Kind::Sc => {
                let mut b = self.items[j].1.to_le().to_vec();
                b.push(0);
                b
            }
        }
    }
    /// The receiving end of any byte string: the verdict must be the specification's, and what is
    /// accepted must re-encode to the same bytes.
    fn take(&mut self, w: &mut W, n: usize, b: &[u8]) -> R<bool> {
        match self.k {
            Kind::Ed => {
                if b.len() != 57 {
                    return Ok(false);
                }
                let want = Pt::dec(&a57(b));
                let i = w.slot(n, 1);
                let (st, _) = w.ex(n, 42, i, 0, 0, 0, b)?;
                w.class(2 + want.is_some() as u32);
                w.expect(n, 42, "decompress verdict", &[(st == OK) as u8], &[want.is_some() as u8], &|| hx(b))?;
                let Some(p) = want else { return Ok(false) };
                let e = Ed { i, p };
                let back = w.e_enc(n, &e)?;
                w.expect(n, 43, "re-encoding", &back, b, &|| String::new())?;
                keep!(w, n, ed, e);
            }
            Kind::De => {
                if b.len() != 56 {
                    return Ok(false);
                }
                let want = Pt::decaf_dec(&a56(b));
                let i = w.slot(n, 3);
                let (st, _) = w.ex(n, 82, i, 0, 0, 0, b)?;
                w.class(2 + want.is_some() as u32);
                w.expect(n, 82, "decompress verdict", &[(st == OK) as u8], &[want.is_some() as u8], &|| hx(b))?;
                let Some(p) = want else { return Ok(false) };
                let e = De { i, p };
                let back = w.d_enc(n, &e)?;
                w.expect(n, 83, "re-encoding", &back, b, &|| String::new())?;
                keep!(w, n, de, e);
            }
            Kind::Sc => {
                if b.len() == 57 {
                    let v = U::from_le(&b[..56]);
                    let ok = b[56] == 0 && v < L;
                    let i = w.slot(n, 0);
                    let (st, _) = w.ex(n, 6, i, 0, 0, 0, b)?;
                    w.class(2 + ok as u32);
                    w.expect(n, 6, "strict import verdict", &[(st == OK) as u8], &[ok as u8], &|| hx(b))?;
                    if !ok {
                        // the same bytes are still a legal raw 56-byte value
                        self.sc_views(w, n, v)?;
                        return Ok(false);
                    }
                    let s = Sc { i, v };
                    w.s_bytes(n, &s)?;
                    let (_, o) = w.ex(n, 15, 0, i, 0, 0, &[])?;
                    w.expect(n, 15, "rfc 8032 bytes", &o, b, &|| String::new())?;
                    keep!(w, n, sc, s);
                } else if b.len() == 114 {
                    let v = swide(b);
                    let i = w.slot(n, 0);
                    w.ex(n, 7, i, 0, 0, 0, b)?;
                    let (_, o) = w.ex(n, 14, 0, i, 0, 0, &[])?;
                    w.expect(n, 7, "wide import", &o, &v.to_le(), &|| hx(b))?;
                    keep!(w, n, sc, Sc { i, v });
                }
            }
        }
        Ok(true)
    }
    /// All exports of a scalar holding exactly the integer v.
    fn sc_views(&mut self, w: &mut W, n: usize, v: U) -> R<Sc> {
        let s = w.s_raw(n, v)?;
        let (_, o) = w.ex(n, 15, 0, s.i, 0, 0, &[])?;
        let mut b = v.to_le().to_vec();
        b.push(0);
        w.expect(n, 15, "rfc 8032 bytes", &o, &b, &|| format!("{v:?}"))?;
        let (_, o) = w.ex(n, 16, 0, s.i, 0, 0, &[])?;
        let bits: Vec<u8> = (0..o.len().min(448)).map(|i| v.bit(i) as u8).collect();
        w.expect(n, 16, "bit list", &o, &bits, &|| format!("{v:?}"))?;
        for i in o.len()..448 {
            if v.bit(i) {
                return viol("wrong-op16", format!("bit list of {v:?} ends before bit {i}"));
            }
        }
        if w.ch.chance(1, 3) {
            let l = w.ch.idx(14) as u32;
            let (_, o) = w.ex(n, 19, 0, s.i, l, 0, &[])?;
            w.expect(n, 19, "limb", &o, &v.to_le()[4 * l as usize..4 * l as usize + 4], &|| format!("{v:?} limb {l}"))?;
            let x = w.ch.raw() as u32;
            let mut nb = v.to_le();
            nb[4 * l as usize..4 * l as usize + 4].copy_from_slice(&x.to_le_bytes());
            let i = w.slot(n, 0);
            w.ex(n, 18, i, s.i, l, 0, &x.to_le_bytes())?;
            let (_, o) = w.ex(n, 14, 0, i, 0, 0, &[])?;
            w.expect(n, 18, "limb write", &o, &nb, &|| format!("{v:?} limb {l} := {x:#x}"))?;
        }
        Ok(s)
    }
    fn forward(&mut self, w: &mut W, n: usize, j: usize, h: usize, b: &[u8]) -> R<()> {
        // what is forwarded is a fresh export of the imported value
        let out: Vec<u8> = match self.k {
            Kind::Ed => {
                let e = w.e_load(n, &Pt::dec(&a57(b)).unwrap())?;
                let mine = w.e_load(n, &self.items[j].0)?;
                w.e_eq(n, &e, &mine)?;
                w.e_enc(n, &e)?.to_vec()
            }
            Kind::De => {
                let e = w.d_load(n, &Pt::decaf_dec(&a56(b)).unwrap())?;
                let mine = w.d_load(n, &self.items[j].0)?;
                w.d_eq(n, &e, &mine)?;
                w.d_enc(n, &e)?.to_vec()
            }
            Kind::Sc => {
                let s = w.s_load(n, U::from_le(&b[..56]))?;
                let (_, o) = w.ex(n, 15, 0, s.i, 0, 0, &[])?;
                o
            }
        };
        w.expect(n, 43, "relayed encoding", &out, &self.enc(j), &|| format!("item {j} hop {h}"))?;
        if h + 1 == self.items[j].2.len() {
            self.fin.insert(j);
        } else {
            w.store(n, &format!("i{j}-{h}"), &out)?;
            let to = self.items[j].2[h + 1];
            w.send(n, to, ((j as u32) << 8) + h as u32 + 1, out);
        }
        Ok(())
    }
    fn forged(&self, w: &mut W, n: usize) -> Vec<u8> {
        let ch = &mut w.ch;
        let valid: Vec<u8> = {
            let j = ch.idx(self.items.len());
            self.enc(j)
        };
        match self.k {
            Kind::Ed => {
                let mut b = match ch.below(7) {
                    0 => {
                        // y + p for a curve point with small y
                        let mut y = fred_low(ch);
                        while Pt::from_y(y).is_none() || P.add(y).1 != 0 {
                            y = U::from_u64(ch.below(64));
                        }
                        let mut b = P.add(y).0.to_le().to_vec();
                        b.push(0);
                        b
                    }
                    1 => {
                        // x = 0 and friends
                        let y = [ONE, P.sub(ONE).0, ZERO, P, P.add(ONE).0][ch.idx(5)];
                        let mut b = y.to_le().to_vec();
                        b.push(0);
                        b
                    }
                    2 => gens::special_point(ch).enc().to_vec(),
                    3 => {
                        let mut b = gens::field_raw(ch, &[]).to_le().to_vec();
                        b.push(0);
                        b
                    }
                    4 => {
                        let mut b = gens::special_point(ch).enc().to_vec();
                        gens::damage(ch, &mut b, &valid);
                        b
                    }
                    5 => gens::torsion(ch).enc().to_vec(),
                    _ => {
                        let mut b = valid;
                        gens::damage(ch, &mut b, &[]);
                        b
                    }
                };
                match ch.below(4) {
                    0 => b[56] ^= 0x80,
                    1 => b[56] ^= 1 << ch.below(8),
                    _ => (),
                }
                b
            }
            Kind::De => {
                let s = match ch.below(8) {
                    0 => fneg(U::from_le(&valid)), // the negative root
                    1 => P.add(fred_low(ch)).0,
                    2 => {
                        // non-canonical form of an acceptable small s: s + p for odd and even s
                        let mut s = U::from_u64(2 * ch.below(64));
                        while Pt::decaf_dec(&s.to_le()).is_none() {
                            s = U::from_u64(2 * ch.below(64));
                        }
                        P.add(s).0
                    }
                    3 => U::from_u64(ch.below(64)),
                    4 => P.sub(U::from_u64(ch.below(64))).0,
                    5 => gens::field_raw(ch, &[]),
                    6 => {
                        let f = gens::field(ch, &[]);
                        if f.odd() {
                            fneg(f)
                        } else {
                            f
                        }
                    }
                    _ => U::from_le(&valid),
                };
                let mut b = s.to_le().to_vec();
                if ch.chance(1, 3) {
                    gens::damage(ch, &mut b, &valid);
                }
                b
            }
            Kind::Sc => {
                let like = sc_like(w, n);
                let ch = &mut w.ch;
                if ch.chance(1, 3) {
                    // 114 bytes
                    let mut b = gens::scalar_raw(ch, &like).to_le().to_vec();
                    b.extend_from_slice(&gens::scalar_raw(ch, &like).to_le());
                    match ch.below(4) {
                        0 => b.extend_from_slice(&[0, 0]),
                        1 => b.extend_from_slice(&[255, 255]),
                        2 => {
                            b = vec![if ch.chance(1, 2) { 0xff } else { 0 }; 114];
                            let i = ch.idx(912);
                            b[i / 8] ^= 1 << (i % 8);
                        }
                        _ => b.extend_from_slice(&ch.bytes(2)),
                    }
                    b.truncate(114);
                    if ch.chance(1, 4) {
                        gens::damage(ch, &mut b, &[]);
                    }
                    if ch.chance(1, 5) {
                        // multiples of the order, shifted: l * 2^k +- 1
                        let k = ch.idx(456);
                        let mut wide = [0u8; 114];
                        for i in 0..446 {
                            if L.bit(i) && i + k < 912 {
                                wide[(i + k) / 8] |= 1 << ((i + k) % 8);
                            }
                        }
                        match ch.below(3) {
                            0 => (),
                            1 => wide[0] ^= 1,
                            _ => {
                                for x in wide.iter_mut() {
                                    let (y, borrow) = x.overflowing_sub(1);
                                    *x = y;
                                    if !borrow {
                                        break;
                                    }
                                }
                            }
                        }
                        b = wide.to_vec();
                    }
                    return b;
                }
                let mut b = gens::scalar_raw(ch, &like).to_le().to_vec();
                b.push(0);
                match ch.below(8) {
                    0 => b[56] = 1 << ch.below(8),
                    1 => b[56] = ch.raw() as u8,
                    2 => {
                        // the order with one byte changed
                        b[..56].copy_from_slice(&L.to_le());
                        let i = ch.idx(56);
                        b[i] = b[i].wrapping_add(if ch.chance(1, 2) { 1 } else { 255 });
                    }
                    3 => {
                        gens::damage(ch, &mut b, &valid);
                    }
                    4 => {
                        // agrees with the order above some byte, random below
                        let k = ch.idx(56);
                        let r = ch.bytes(56);
                        b[..56].copy_from_slice(&L.to_le());
                        b[..k].copy_from_slice(&r[..k]);
                    }
                    _ => (),
                }
                b
            }
        }
    }
}
impl Proto for Relay {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        for j in 0..self.items.len() {
            for h in 0..self.items[j].2.len() {
                if self.items[j].2[h] != n {
                    continue;
                }
                let key = format!("i{j}-{h}");
                // the library sees whatever the disk holds, damaged copies included
                for (b, ok) in w.peek(n, &key) {
                    let acc = self.take(w, n, &b)?;
                    if ok && !acc {
                        return viol("stored-lost", format!("a stored encoding of item {j} is refused after restart"));
                    }
                }
                if let Some(b) = w.fetch(n, &key) {
                    let to = self.items[j].2[h + 1];
                    w.send(n, to, ((j as u32) << 8) + h as u32 + 1, b);
                } else if h == 0 {
                    let b = self.enc(j);
                    self.forward(w, n, j, 0, &b)?;
                }
            }
        }
        Ok(())
    }
    fn recv(&mut self, w: &mut W, n: usize, _from: usize, id: u32, body: &[u8], intact: bool) -> R<bool> {
        let acc = self.take(w, n, body)?;
        if !intact {
            return Ok(false);
        }
        let (j, h) = ((id >> 8) as usize, (id & 255) as usize);
        if !acc {
            return viol("honest-refused", format!("an intact encoding of item {j} is refused"));
        }
        if self.fin.contains(&j) || w.fetch(n, &format!("i{j}-{h}")).is_some() {
            return Ok(true);
        }
        self.forward(w, n, j, h, body)?;
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        match self.k {
            Kind::Ed => {
                // computed points in any representation encode canonically and decode to equal points
                let p = ed_step(w, n)?;
                let b = w.e_enc(n, &p)?;
                let q = w.e_load(n, &Pt::dec(&b).unwrap())?;
                w.e_eq(n, &p, &q)?;
                let o = some_ed(w, n)?;
                w.e_eq(n, &p, &o)?;
            }
            Kind::De => {
                let p = de_step(w, n)?;
                let b = w.d_enc(n, &p)?;
                let q = w.d_load(n, &Pt::decaf_dec(&b).unwrap())?;
                w.d_eq(n, &p, &q)?;
                let o = some_de(w, n)?;
                let same = w.d_eq(n, &p, &o)?;
                let ob = w.d_enc(n, &o)?;
                let mut two = b.to_vec();
                two.extend_from_slice(&ob);
                let var = w.ch.below(3) as u32;
                let (_, e) = w.ex(n, 90, 0, 0, 0, var, &two)?;
                w.expect(n, 90, "encoding equality", &e, &[same as u8], &|| hx(&two))?;
                if w.ch.chance(1, 8) {
                    let (_, o) = w.ex(n, 89, 0, 0, 0, 0, &[])?;
                    w.expect(n, 89, "identity encoding", &o, &[0; 56], &|| String::new())?;
                }
            }
            Kind::Sc => {
                let like = sc_like(w, n);
                let v = gens::scalar_raw(&mut w.ch, &like);
                let s = self.sc_views(w, n, v)?;
                keep!(w, n, sc, s);
                if w.ch.chance(1, 3) {
                    let x = w.ch.pick(&[0u32, 1, 2, u32::MAX, 1 << 31, 0xffff, 200]);
                    w.s_u32(n, x)?;
                }
                // computed values re-import exactly
                let a = some_sc(w, n)?;
                let b = some_sc(w, n)?;
                if a.v < L && b.v < L {
                    let op = 9 + w.ch.below(3) as u32;
                    let i = w.slot(n, 0);
                    w.ex(n, op, i, a.i, b.i, 0, &[])?;
                    let (_, o) = w.ex(n, 14, 0, i, 0, 0, &[])?;
                    let mut c = o.clone();
                    c.push(0);
                    let ok = U::from_le(&o) < L;
                    let j = w.slot(n, 0);
                    let (st, _) = w.ex(n, 6, j, 0, 0, 0, &c)?;
                    w.expect(n, 6, "strict import verdict", &[(st == OK) as u8], &[ok as u8], &|| hx(&c))?;
                }
            }
        }
        Ok(())
    }
    fn attack(&mut self, w: &mut W, n: usize) -> R<()> {
        let b = self.forged(w, n);
        self.take(w, n, &b)?;
        Ok(())
    }
    fn done(&self, _w: &W) -> bool {
        self.fin.len() == self.items.len()
    }
    fn finish(&mut self, _w: &mut W) -> R<()> {
        Ok(())
    }
}
/// A step of Decaf computation in lockstep.
fn de_step(w: &mut W, n: usize) -> R<De> {
    let a = some_de(w, n)?;
    let r = match w.ch.below(9) {
        0 | 1 => {
            let b = some_de(w, n)?;
            w.d_bin(n, 84, &a, &b, 0)?
        }
        2 | 3 => {
            let b = some_de(w, n)?;
            let var = w.ch.below(2) as u32;
            w.d_bin(n, 85, &a, &b, var)?
        }
        4 => {
            let x = a.p;
            w.d_new(n, 86, a.i, 0, 0, &[], a.p.neg(), &|| hx(&x.decaf_enc()))?
        }
        5 => w.d_bin(n, 84, &a, &a, 0)?,
        6 => w.d_bin(n, 85, &a, &a, 1)?,
        7 => {
            // by-value forms consume their operands: use private copies
            let b = some_de(w, n)?;
            let (x, y) = (w.d_load(n, &a.p)?, w.d_load(n, &b.p)?);
            match w.ch.below(3) {
                0 => w.d_bin(n, 84, &x, &y, 1)?,
                1 => w.d_bin(n, 85, &x, &y, 2)?,
                _ => w.d_new(n, 86, x.i, 0, 1, &[], a.p.neg(), &|| String::new())?,
            }
        }
        _ => {
            // opposite elements
            let b = w.d_new(n, 86, a.i, 0, 0, &[], a.p.neg(), &|| String::new())?;
            if w.ch.chance(1, 2) {
                w.d_bin(n, 84, &a, &b, 0)?
            } else {
                w.d_bin(n, 85, &a, &b, 0)?
            }
        }
    };
    keep!(w, n, de, r);
    Ok(r)
}

// ------------------------------------------------------------------ C06: secret sharing
pub struct Share {
    nn: usize,
    t: usize,
    secret: U,
    opened: BTreeMap<usize, Vec<(usize, U)>>,
    got: BTreeMap<usize, U>,
}
impl Share {
    pub fn new(w: &mut W) -> Share {
        let nn = w.n();
        let t = w.ch.range(2, nn as u64) as usize;
        Share { nn, t, secret: ZERO, opened: BTreeMap::new(), got: BTreeMap::new() }
    }
    fn poly(&self, w: &mut W, n: usize, key: &str, zero: bool) -> R<Vec<Sc>> {
        let b = match w.fetch(n, key) {
            Some(b) => b,
            None => {
                let mut b = vec![];
                for j in 0..self.t {
                    let v = if zero && j == 0 { ZERO } else { gens::scalar_raw(&mut w.ch, &[]) };
                    b.extend_from_slice(&v.to_le());
                }
                w.store(n, key, &b)?;
                b
            }
        };
        let mut r = vec![];
        for c in b.chunks(56) {
            r.push(w.s_raw(n, U::from_le(c))?);
        }
        Ok(r)
    }
    fn eval(&self, w: &mut W, n: usize, p: &[Sc], x: u32) -> R<Sc> {
        let xs = w.s_u32(n, x)?;
        if w.ch.chance(1, 2) {
            let mut acc = p[p.len() - 1];
            for c in p.iter().rev().skip(1) {
                let m = w.s_mul(n, &acc, &xs)?;
                acc = w.s_add(n, &m, c)?;
            }
            // a constant polynomial part still has to be reduced
            let z = w.s_const(n, 0)?;
            w.s_add(n, &acc, &z)
        } else {
            let mut pw = w.s_const(n, 1)?;
            let mut acc = w.s_const(n, 0)?;
            for c in p {
                let m = w.s_mul(n, c, &pw)?;
                acc = w.s_add(n, &m, &acc)?;
                pw = w.s_mul(n, &pw, &xs)?;
            }
            Ok(acc)
        }
    }
    fn refreshed(&mut self, w: &mut W, n: usize) -> R<()> {
        // share plus all sub-shares, in whatever order they came to be stored
        let Some(b) = w.fetch(n, "share") else { return Ok(()) };
        let mut subs = vec![];
        for i in 0..self.nn {
            match w.fetch(n, &format!("z{i}")) {
                Some(b) => subs.push(U::from_le(&b)),
                None => return Ok(()),
            }
        }
        let mut acc = w.s_load(n, U::from_le(&b))?;
        let off = w.ch.idx(self.nn);
        for i in 0..self.nn {
            let s = w.s_load(n, subs[(i + off) % self.nn])?;
            acc = if w.ch.chance(1, 4) {
                // a + s = a - (0 - s)
                let z = w.s_const(n, 0)?;
                let m = w.s_sub(n, &z, &s)?;
                w.s_sub(n, &acc, &m)?
            } else {
                w.s_add(n, &acc, &s)?
            };
        }
        let b = w.s_bytes(n, &acc)?;
        w.store(n, "new", &b)?;
        w.broadcast(n, 0x30000 + n as u32, &b);
        self.open(w, n, n, &b)
    }
    fn open(&mut self, w: &mut W, n: usize, from: usize, b: &[u8]) -> R<()> {
        let v = U::from_le(b);
        let o = self.opened.entry(n).or_default();
        match o.iter().find(|x| x.0 == from) {
            Some(x) => {
                w.st.checks += 1;
                if x.1 != v {
                    return viol("share-changed", format!("node {from} opened two different shares"));
                }
                // a crash may have cut the reconstruction short: redo it
                if self.got.contains_key(&n) {
                    return Ok(());
                }
            }
            None => o.push((from, v)),
        }
        if o.len() < self.t {
            return Ok(());
        }
        // any t of them: the most recent arrivals, in arrival order
        let pts: Vec<(usize, U)> = o[o.len() - self.t..].to_vec();
        let mut acc = w.s_const(n, 0)?;
        for (i, yi) in &pts {
            let xi = w.s_u32(n, *i as u32 + 1)?;
            let mut num = w.s_const(n, 1)?;
            let mut den = w.s_const(n, 1)?;
            for (j, _) in &pts {
                if j == i {
                    continue;
                }
                let xj = w.s_u32(n, *j as u32 + 1)?;
                num = w.s_mul(n, &num, &xj)?;
                let d = w.s_sub(n, &xj, &xi)?;
                den = w.s_mul(n, &d, &den)?;
            }
            let inv = w.s_inv(n, &den)?;
            let l = w.s_mul(n, &num, &inv)?;
            let y = w.s_load(n, *yi)?;
            let t = w.s_mul(n, &y, &l)?;
            acc = w.s_add(n, &acc, &t)?;
        }
        let b = w.s_bytes(n, &acc)?;
        let want = sred(self.secret);
        w.expect(n, 9, "reconstructed secret", &b, &want.to_le(), &|| format!("from shares {:?}", pts.iter().map(|x| x.0).collect::<Vec<_>>()))?;
        self.got.insert(n, acc.v);
        Ok(())
    }
}
impl Proto for Share {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        if n == 0 {
            let p = self.poly(w, 0, "poly", false)?;
            self.secret = p[0].v;
            for i in 0..self.nn {
                let s = self.eval(w, 0, &p, i as u32 + 1)?;
                let b = w.s_bytes(0, &s)?;
                if i == 0 {
                    if w.fetch(0, "share").is_none() {
                        w.store(0, "share", &b)?;
                    }
                } else {
                    w.send(0, i, 0x10000 + i as u32, b.to_vec());
                }
            }
        }
        let z = self.poly(w, n, "zpoly", true)?;
        for i in 0..self.nn {
            let s = self.eval(w, n, &z, i as u32 + 1)?;
            let b = w.s_bytes(n, &s)?;
            if i == n {
                if w.fetch(n, &format!("z{n}")).is_none() {
                    w.store(n, &format!("z{n}"), &b)?;
                }
            } else {
                w.send(n, i, 0x20000 + n as u32, b.to_vec());
            }
        }
        self.refreshed(w, n)
    }
    fn recv(&mut self, w: &mut W, n: usize, from: usize, id: u32, body: &[u8], intact: bool) -> R<bool> {
        if !intact || body.len() != 56 {
            return Ok(false);
        }
        match id >> 16 {
            1 | 2 => {
                let key = if id >> 16 == 1 { "share".to_string() } else { format!("z{}", id & 0xffff) };
                match w.fetch(n, &key) {
                    Some(old) => {
                        w.st.checks += 1;
                        if old != body {
                            return viol("share-changed", format!("a recomputed share {id:#x} from node {from} differs"));
                        }
                    }
                    None => {
                        w.store(n, &key, body)?;
                        self.refreshed(w, n)?;
                    }
                }
            }
            _ => self.open(w, n, from, body)?,
        }
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        for _ in 0..w.ch.range(3, 12) {
            let a = some_sc(w, n)?;
            let b = partner_sc(w, n, &a)?;
            let (a, b) = if w.ch.chance(1, 2) { (a, b) } else { (b, a) };
            let r = match w.ch.below(10) {
                0 | 1 => w.s_add(n, &a, &b)?,
                2 | 3 => w.s_sub(n, &a, &b)?,
                4 | 5 => w.s_mul(n, &a, &b)?,
                6 => w.s_inv(n, &a)?,
                7 => w.s_halve(n, &a)?,
                8 => {
                    w.s_eq(n, &a, &b)?;
                    let k = w.s_const(n, 0)?;
                    w.s_eq(n, &a, &k)?;
                    continue;
                }
                _ => match w.ch.below(4) {
                    0 => w.s_sub(n, &a, &a)?,
                    1 => w.s_add(n, &a, &a)?,
                    2 => {
                        // a + (l - a): the sum that lands exactly on the modulus
                        let m = L.sub(sred(a.v)).0;
                        let m = if m == L { w.s_raw(n, m)? } else { w.s_load(n, m)? };
                        w.s_add(n, &a, &m)?
                    }
                    _ => w.s_mul(n, &a, &a)?,
                },
            };
            keep!(w, n, sc, r);
        }
        Ok(())
    }
    fn done(&self, _w: &W) -> bool {
        self.got.len() == self.nn && (0..self.nn).all(|n| self.opened.get(&n).is_some_and(|o| o.len() == self.nn))
    }
    fn finish(&mut self, w: &mut W) -> R<()> {
        for v in self.got.values() {
            w.st.checks += 1;
            if *v != sred(self.secret) {
                return viol("secret-lost", "a node reconstructed another secret".into());
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C07: aggregation
pub struct Agg {
    nn: usize,
    m: usize,
    contrib: BTreeMap<(usize, usize), Pt>,
    partial: Vec<bool>,
}
impl Agg {
    pub fn new(w: &mut W) -> Agg {
        let nn = w.n();
        let m = w.ch.range(1, 3) as usize;
        let mut contrib = BTreeMap::new();
        for i in 0..nn {
            for k in 0..m {
                let like: Vec<Pt> = contrib.values().copied().collect();
                contrib.insert((i, k), gens::point(&mut w.ch, &like));
            }
        }
        let partial = (0..nn).map(|_| w.ch.chance(1, 2)).collect();
        Agg { nn, m, contrib, partial }
    }
    fn full(&self) -> usize {
        self.partial.iter().map(|p| if *p { 1 } else { self.m }).sum()
    }
    fn load(&self, w: &mut W, n: usize) -> R<(Ed, Vec<u32>)> {
        match w.fetch(n, "acc") {
            Some(b) => {
                let ids = b[57..].chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect();
                let p = Pt::dec(&a57(&b[..57])).expect("stored aggregate");
                Ok((w.e_load(n, &p)?, ids))
            }
            None => Ok((w.e_new(n, 40, 0, 0, 0, &[], ID, &|| String::new())?, vec![])),
        }
    }
    fn count(&mut self, w: &mut W, n: usize, id: u32, p: Pt) -> R<()> {
        let (acc, mut ids) = self.load(w, n)?;
        if ids.contains(&id) {
            return Ok(());
        }
        let x = w.e_load(n, &p)?;
        let r = match w.ch.below(5) {
            0 => w.e_add(n, &x, &acc)?,
            1 => {
                let m = w.e_un(n, 46, &x, 1, x.p.neg())?;
                w.e_sub(n, &acc, &m)?
            }
            2 => {
                // counted, retracted and counted again
                let t = w.e_add(n, &acc, &x)?;
                let t = w.e_sub(n, &t, &x)?;
                w.e_add(n, &t, &x)?
            }
            _ => w.e_add(n, &acc, &x)?,
        };
        ids.push(id);
        let mut b = w.e_enc(n, &r)?.to_vec();
        for i in &ids {
            b.extend_from_slice(&i.to_le_bytes());
        }
        keep!(w, n, ed, r);
        w.store(n, "acc", &b)
    }
}
impl Proto for Agg {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        if self.partial[n] {
            let mut acc = ID;
            let mut e: Option<Ed> = None;
            for k in 0..self.m {
                let p = self.contrib[&(n, k)];
                let x = w.e_load(n, &p)?;
                e = Some(match e {
                    None => x,
                    Some(a) => w.e_add(n, &a, &x)?,
                });
                acc = acc.add(&p);
            }
            let b = w.e_enc(n, &e.unwrap())?;
            let id = 0x20000 + ((n as u32) << 8);
            w.broadcast(n, id, &b);
            self.count(w, n, id, acc.norm())?;
        } else {
            for k in 0..self.m {
                let p = self.contrib[&(n, k)];
                let id = 0x10000 + ((n as u32) << 8) + k as u32;
                let x = w.e_load(n, &p)?;
                let b = w.e_enc(n, &x)?;
                w.broadcast(n, id, &b);
                self.count(w, n, id, p)?;
            }
        }
        Ok(())
    }
    fn recv(&mut self, w: &mut W, n: usize, _from: usize, id: u32, body: &[u8], intact: bool) -> R<bool> {
        if !intact {
            return Ok(false);
        }
        let p = Pt::dec(&a57(body)).expect("honest encoding");
        self.count(w, n, id, p)?;
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        for _ in 0..w.ch.range(2, 8) {
            let r = ed_step(w, n)?;
            if w.ch.chance(1, 3) {
                let o = some_ed(w, n)?;
                w.e_eq(n, &r, &o)?;
            }
        }
        // associativity and commutativity as the caller sees them
        let (a, b, c) = (some_ed(w, n)?, some_ed(w, n)?, some_ed(w, n)?);
        let l = w.e_add(n, &a, &b)?;
        let l = w.e_add(n, &l, &c)?;
        let r = w.e_add(n, &c, &b)?;
        let r = w.e_add(n, &r, &a)?;
        w.e_eq(n, &l, &r)?;
        Ok(())
    }
    fn done(&self, w: &W) -> bool {
        (0..self.nn).all(|n| {
            w.peek(n, "acc").iter().any(|(b, ok)| *ok && (b.len() - 57) / 4 == self.full())
        })
    }
    fn finish(&mut self, w: &mut W) -> R<()> {
        let mut total = ID;
        for p in self.contrib.values() {
            total = total.add(p);
        }
        for n in 0..self.nn {
            let b = w.fetch(n, "acc").unwrap();
            w.st.checks += 1;
            if b[..57] != total.enc() {
                return viol("aggregate-differs", format!("node {n} ends with {} instead of {}", hx(&b[..57]), hx(&total.enc())));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C08: verifiable sharing on Edwards points
pub struct Vss {
    nn: usize,
    t: usize,
    bad: BTreeSet<usize>,
    verdict: BTreeMap<usize, bool>,
    proofs: BTreeMap<(usize, usize), bool>,
    badproof: BTreeSet<usize>,
}
impl Vss {
    pub fn new(w: &mut W) -> Vss {
        let nn = w.n();
        let t = w.ch.range(2, 3) as usize;
        let bad = (1..nn).filter(|_| w.ch.chance(1, 4)).collect();
        let badproof = (0..nn).filter(|_| w.ch.chance(1, 4)).collect();
        Vss { nn, t, bad, verdict: BTreeMap::new(), proofs: BTreeMap::new(), badproof }
    }
    fn verify(&mut self, w: &mut W, n: usize) -> R<()> {
        let (Some(c), Some(s)) = (w.fetch(n, "com"), w.fetch(n, "share")) else { return Ok(()) };
        let g = w.e_new(n, 41, 0, 0, 0, &[], gen(), &|| String::new())?;
        let share = w.s_load(n, U::from_le(&s))?;
        let lhs = w.e_mul(n, &g, &share)?;
        let mut cs = vec![];
        for b in c.chunks(57) {
            cs.push(w.e_load(n, &Pt::dec(&a57(b)).unwrap())?);
        }
        let x = w.s_u32(n, n as u32 + 1)?;
        let mut rhs = cs[cs.len() - 1];
        for c in cs.iter().rev().skip(1) {
            let m = w.e_mul(n, &rhs, &x)?;
            rhs = w.e_add(n, &m, c)?;
        }
        let ok = w.e_eq(n, &lhs, &rhs)?;
        w.st.checks += 1;
        if ok == self.bad.contains(&n) {
            return viol("wrong-verdict", format!("node {n} judged its share {ok}"));
        }
        if let Some(old) = self.verdict.insert(n, ok) {
            if old != ok {
                return viol("wrong-verdict", format!("node {n} changed its verdict"));
            }
        }
        Ok(())
    }
}
impl Proto for Vss {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        if n == 0 {
            let b = match w.fetch(0, "poly") {
                Some(b) => b,
                None => {
                    let mut b = vec![];
                    for _ in 0..self.t {
                        let v = gens::scalar_raw(&mut w.ch, &[]);
                        b.extend_from_slice(&v.to_le());
                    }
                    w.store(0, "poly", &b)?;
                    b
                }
            };
            let cs: Vec<U> = b.chunks(56).map(U::from_le).collect();
            let g = w.e_new(0, 41, 0, 0, 0, &[], gen(), &|| String::new())?;
            let mut com = vec![];
            for c in &cs {
                let s = w.s_raw(0, *c)?;
                let p = w.e_mul(0, &g, &s)?;
                com.extend_from_slice(&w.e_enc(0, &p)?);
            }
            if w.fetch(0, "com").is_none() {
                w.store(0, "com", &com)?;
            }
            w.broadcast(0, 0x10000, &com);
            for i in 0..self.nn {
                let x = U::from_u64(i as u64 + 1);
                let mut f = ZERO;
                for c in cs.iter().rev() {
                    f = sadd(smul(f, x), *c);
                }
                if self.bad.contains(&i) {
                    f = sadd(f, ONE);
                }
                if i == 0 {
                    if w.fetch(0, "share").is_none() {
                        w.store(0, "share", &f.to_le())?;
                    }
                } else {
                    w.send(0, i, 0x20000 + i as u32, f.to_le().to_vec());
                }
            }
        }
        // a proof of knowledge (R, s) with s = r + c x, for public key x G
        let b = match w.fetch(n, "key") {
            Some(b) => b,
            None => {
                let mut b = vec![];
                for _ in 0..2 {
                    let v = gens::scalar_canon(&mut w.ch, &[]);
                    b.extend_from_slice(&v.to_le());
                }
                b.extend_from_slice(&(w.ch.raw() as u32).to_le_bytes());
                w.store(n, "key", &b)?;
                b
            }
        };
        let (x, r) = (U::from_le(&b[..56]), U::from_le(&b[56..112]));
        let c = u32::from_le_bytes(b[112..].try_into().unwrap());
        let g = w.e_new(n, 41, 0, 0, 0, &[], gen(), &|| String::new())?;
        let (xs, rs) = (w.s_load(n, x)?, w.s_load(n, r)?);
        let pk = w.e_mul(n, &g, &xs)?;
        let rp = w.e_mul(n, &g, &rs)?;
        let mut s = sadd(r, smul(U::from_u64(c as u64), x));
        if self.badproof.contains(&n) {
            s = sadd(s, ONE);
        }
        let mut m = w.e_enc(n, &pk)?.to_vec();
        m.extend_from_slice(&w.e_enc(n, &rp)?);
        m.extend_from_slice(&s.to_le());
        m.extend_from_slice(&c.to_le_bytes());
        w.broadcast(n, 0x30000 + n as u32, &m);
        self.verify(w, n)
    }
    fn recv(&mut self, w: &mut W, n: usize, from: usize, id: u32, body: &[u8], intact: bool) -> R<bool> {
        if !intact {
            return Ok(false);
        }
        match id >> 16 {
            1 => {
                if w.fetch(n, "com").is_none() {
                    w.store(n, "com", body)?;
                    self.verify(w, n)?;
                }
            }
            2 => {
                if w.fetch(n, "share").is_none() {
                    w.store(n, "share", body)?;
                    self.verify(w, n)?;
                }
            }
            _ => {
                let pk = w.e_load(n, &Pt::dec(&a57(&body[..57])).unwrap())?;
                let rp = w.e_load(n, &Pt::dec(&a57(&body[57..114])).unwrap())?;
                let s = w.s_load(n, U::from_le(&body[114..170]))?;
                let c = w.s_u32(n, u32::from_le_bytes(body[170..174].try_into().unwrap()))?;
                let g = w.e_new(n, 41, 0, 0, 0, &[], gen(), &|| String::new())?;
                let l = w.e_mul(n, &g, &s)?;
                let t = w.e_mul(n, &pk, &c)?;
                let rr = w.e_add(n, &rp, &t)?;
                let ok = w.e_eq(n, &l, &rr)?;
                w.st.checks += 1;
                if ok == self.badproof.contains(&from) {
                    return viol("wrong-verdict", format!("node {n} judged the proof of node {from} {ok}"));
                }
                self.proofs.insert((n, from), ok);
            }
        }
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        let (p, s) = ed_and_sc(w, n)?;
        let r = w.e_mul(n, &p, &s)?;
        keep!(w, n, ed, r);
        if w.ch.chance(1, 3) {
            let k = U::from_u64(s.v.0[0] & 3);
            let var = 0;
            let x = p.p;
            let v = s.v;
            w.e_new(n, 50, p.i, s.i, var, &[], p.p.mul(k), &|| format!("P={} k={v:?}", hx(&x.enc())))?;
        }
        if w.ch.chance(1, 3) {
            // the result is usable: its hidden coordinates are right too
            let q = some_ed(w, n)?;
            w.e_add(n, &r, &q)?;
        }
        if w.ch.chance(1, 4) {
            // a(bP) = b(aP)
            let t = some_sc(w, n)?;
            let x = w.e_mul(n, &r, &t)?;
            let y = w.e_mul(n, &p, &t)?;
            let y = w.e_mul(n, &y, &s)?;
            w.e_eq(n, &x, &y)?;
        }
        if w.ch.chance(1, 6) {
            w.e_un(n, 57, &p, 0, p.p.dbl().dbl())?;
        }
        Ok(())
    }
    fn done(&self, _w: &W) -> bool {
        self.verdict.len() == self.nn && self.proofs.len() == self.nn * (self.nn - 1)
    }
    fn finish(&mut self, _w: &mut W) -> R<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------ C09: threshold encryption over Decaf
pub struct Elgamal {
    nn: usize,
    msg: Pt,
    r: U,
    got: BTreeSet<usize>,
}
impl Elgamal {
    pub fn new(w: &mut W) -> Elgamal {
        let msg = gens::decaf(&mut w.ch, &[]);
        let r = gens::scalar_raw(&mut w.ch, &[]);
        Elgamal { nn: w.n(), msg, r, got: BTreeSet::new() }
    }
    fn sk(&self, w: &mut W, n: usize) -> R<Sc> {
        let b = w.fetch(n, "sk").unwrap();
        w.s_raw(n, U::from_le(&b))
    }
    fn base(&self, w: &mut W, n: usize) -> R<De> {
        w.d_new(n, 81, 0, 0, 0, &[], decaf_gen(), &|| String::new())
    }
    fn dload(&self, w: &mut W, n: usize, b: &[u8]) -> R<De> {
        let p = Pt::decaf_dec(&a56(b)).expect("honest encoding");
        w.d_load(n, &p)
    }
    fn progress(&mut self, w: &mut W, n: usize, boot: bool) -> R<()> {
        let mut pks = vec![];
        for i in 0..self.nn {
            match w.fetch(n, &format!("pk{i}")) {
                Some(b) => pks.push(b),
                None => return Ok(()),
            }
        }
        let mut news = boot;
        if n == 0 && w.fetch(0, "ct").is_none() {
            news = true;
            let mut acc = w.d_new(0, 80, 0, 0, 0, &[], ID, &|| String::new())?;
            let off = w.ch.idx(self.nn);
            for i in 0..self.nn {
                let p = self.dload(w, 0, &pks[(i + off) % self.nn])?;
                acc = w.d_bin(0, 84, &acc, &p, 0)?;
            }
            let r = w.s_raw(0, self.r)?;
            let g = self.base(w, 0)?;
            let var = w.ch.below(2) as u32;
            let c1 = w.d_mul(0, &g, &r, var)?;
            let k = w.d_mul(0, &acc, &r, var)?;
            let m = w.d_load(0, &self.msg)?;
            let c2 = w.d_bin(0, 84, &m, &k, 0)?;
            let mut b = w.d_enc(0, &c1)?.to_vec();
            b.extend_from_slice(&w.d_enc(0, &c2)?);
            w.store(0, "ct", &b)?;
        }
        let Some(ct) = w.fetch(n, "ct") else { return Ok(()) };
        if n == 0 && news {
            w.broadcast(0, 0x20000, &ct);
        }
        if w.fetch(n, &format!("d{n}")).is_none() {
            news = true;
            let sk = self.sk(w, n)?;
            let c1 = self.dload(w, n, &ct[..56])?;
            let var = w.ch.below(2) as u32;
            let d = w.d_mul(n, &c1, &sk, var)?;
            let b = w.d_enc(n, &d)?;
            w.store(n, &format!("d{n}"), &b)?;
        }
        let b = w.fetch(n, &format!("d{n}")).unwrap();
        if news {
            w.broadcast(n, 0x30000 + n as u32, &b);
        }
        let mut ds = vec![];
        for i in 0..self.nn {
            match w.fetch(n, &format!("d{i}")) {
                Some(b) => ds.push(b),
                None => return Ok(()),
            }
        }
        let mut m = self.dload(w, n, &ct[56..])?;
        let off = w.ch.idx(self.nn);
        for i in 0..self.nn {
            let d = self.dload(w, n, &ds[(i + off) % self.nn])?;
            let var = w.ch.below(2) as u32;
            m = w.d_bin(n, 85, &m, &d, var)?;
        }
        let orig = w.d_load(n, &self.msg)?;
        let same = w.d_eq(n, &m, &orig)?;
        let b = w.d_enc(n, &m)?;
        w.st.checks += 1;
        if !same || b != self.msg.decaf_enc() {
            return viol("decryption-differs", format!("node {n} decrypted another element"));
        }
        self.got.insert(n);
        Ok(())
    }
}
impl Proto for Elgamal {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        if w.fetch(n, "sk").is_none() {
            let v = gens::scalar_raw(&mut w.ch, &[]);
            w.store(n, "sk", &v.to_le())?;
        }
        let sk = self.sk(w, n)?;
        let g = self.base(w, n)?;
        let var = w.ch.below(2) as u32;
        let pk = w.d_mul(n, &g, &sk, var)?;
        let b = w.d_enc(n, &pk)?;
        if w.fetch(n, &format!("pk{n}")).is_none() {
            w.store(n, &format!("pk{n}"), &b)?;
        }
        w.broadcast(n, 0x10000 + n as u32, &b);
        self.progress(w, n, true)
    }
    fn recv(&mut self, w: &mut W, n: usize, _from: usize, id: u32, body: &[u8], intact: bool) -> R<bool> {
        if !intact {
            return Ok(false);
        }
        let key = match id >> 16 {
            1 => format!("pk{}", id & 0xffff),
            2 => "ct".to_string(),
            _ => format!("d{}", id & 0xffff),
        };
        if w.fetch(n, &key).is_none() {
            w.store(n, &key, body)?;
            self.progress(w, n, false)?;
        }
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        for _ in 0..w.ch.range(2, 6) {
            let r = de_step(w, n)?;
            if w.ch.chance(1, 2) {
                let o = some_de(w, n)?;
                w.d_eq(n, &r, &o)?;
            }
        }
        let s = some_sc(w, n)?;
        let p = if w.ch.chance(1, 6) {
            let p = gens::aimed_decaf(&mut w.ch, s.v);
            let d = w.d_load(n, &p)?;
            keep!(w, n, de, d);
            d
        } else {
            some_de(w, n)?
        };
        let var = w.ch.below(4) as u32;
        let r = if var < 2 {
            w.d_mul(n, &p, &s, var)?
        } else {
            let c = w.d_load(n, &p.p)?;
            w.d_mul(n, &c, &s, var)?
        };
        keep!(w, n, de, r);
        if w.ch.chance(1, 4) {
            // the order kills everything
            let l = w.s_raw(n, L)?;
            let z = w.d_mul(n, &r, &l, 0)?;
            let id = w.d_new(n, 80, 0, 0, 0, &[], ID, &|| String::new())?;
            w.d_eq(n, &z, &id)?;
        }
        if w.ch.chance(1, 4) {
            // (s + t)P = sP + tP
            let t = some_sc(w, n)?;
            let a = w.d_mul(n, &p, &t, 0)?;
            let sum = sadd(s.v, t.v);
            let st = w.s_load(n, sum)?;
            let b = w.d_mul(n, &p, &st, 1)?;
            let c = w.d_bin(n, 84, &r, &a, 0)?;
            w.d_eq(n, &b, &c)?;
        }
        Ok(())
    }
    fn done(&self, _w: &W) -> bool {
        self.got.len() == self.nn
    }
    fn finish(&mut self, _w: &mut W) -> R<()> {
        Ok(())
    }
}

// ------------------------------------------------------------------ C11: subgroup admission
pub struct Admit {
    nn: usize,
    pts: Vec<(usize, Pt)>,
    verdict: BTreeMap<(usize, usize), bool>,
}
impl Admit {
    pub fn new(w: &mut W) -> Admit {
        let nn = w.n();
        let mut pts: Vec<(usize, Pt)> = vec![];
        for _ in 0..w.ch.range(2, 4) {
            let like: Vec<Pt> = pts.iter().map(|x| x.1).collect();
            let p = Admit::point(&mut w.ch, &like);
            let o = w.ch.idx(nn);
            pts.push((o, p));
        }
        Admit { nn, pts, verdict: BTreeMap::new() }
    }
    fn point(ch: &mut Ch, like: &[Pt]) -> Pt {
        match ch.below(4) {
            0 => gens::prime_point(ch, like),
            1 | 2 => {
                let t = gens::torsion(ch);
                gens::prime_point(ch, like).add(&t).norm()
            }
            _ => gens::point(ch, like),
        }
    }
    fn test(&mut self, w: &mut W, n: usize, e: &Ed) -> R<bool> {
        let want = e.p.torsion_free();
        w.class(4 + want as u32);
        let (_, o) = w.ex(n, 54, 0, e.i, 0, 0, &[])?;
        let p = e.p;
        w.expect(n, 54, "torsion-freeness", &o, &[want as u8], &|| hx(&p.enc()))?;
        Ok(o[0] == 1)
    }
    /// Another representation of the same point.
    fn rerep(&mut self, w: &mut W, n: usize, e: &Ed) -> R<Ed> {
        match w.ch.below(5) {
            0 => {
                let q = some_ed(w, n)?;
                let r = w.e_add(n, e, &q)?;
                w.e_sub(n, &r, &q)
            }
            1 => {
                let r = w.e_un(n, 47, e, 0, e.p.add(&t2()))?;
                w.e_un(n, 47, &r, 0, e.p)
            }
            2 => {
                let i = w.e_new(n, 40, 0, 0, 0, &[], ID, &|| String::new())?;
                w.e_add(n, e, &i)
            }
            3 => {
                let d = w.e_un(n, 48, e, 0, e.p.dbl())?;
                w.e_sub(n, &d, e)
            }
            _ => Ok(*e),
        }
    }
    fn judge(&mut self, w: &mut W, n: usize, j: usize, p: Pt) -> R<()> {
        let e = w.e_load(n, &p)?;
        keep!(w, n, ed, e);
        let v = self.test(w, n, &e)?;
        self.verdict.insert((n, j), v);
        Ok(())
    }
}
impl Proto for Admit {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        for j in 0..self.pts.len() {
            let (o, p) = self.pts[j];
            if o == n {
                w.broadcast(n, j as u32, &p.enc());
                self.judge(w, n, j, p)?;
            }
        }
        Ok(())
    }
    fn recv(&mut self, w: &mut W, n: usize, _from: usize, id: u32, body: &[u8], intact: bool) -> R<bool> {
        if body.len() != 57 {
            return Ok(false);
        }
        let Some(p) = Pt::dec(&a57(body)) else { return Ok(false) };
        if !intact {
            // a damaged message that still decodes: judged like any other point
            let i = w.slot(n, 1);
            let (st, _) = w.ex(n, 42, i, 0, 0, 0, body)?;
            if st == OK {
                self.test(w, n, &Ed { i, p })?;
            }
            return Ok(false);
        }
        self.judge(w, n, id as usize, p)?;
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        let e = if w.ch.chance(1, 3) {
            ed_step(w, n)?
        } else {
            let like = ed_like(w, n);
            let p = Admit::point(&mut w.ch, &like);
            let e = w.e_load(n, &p)?;
            keep!(w, n, ed, e);
            e
        };
        let e = self.rerep(w, n, &e)?;
        self.test(w, n, &e)?;
        if w.ch.chance(1, 2) {
            let t = w.e_un(n, 47, &e, 0, e.p.add(&t2()))?;
            self.test(w, n, &t)?;
            keep!(w, n, ed, t);
        }
        if w.ch.chance(1, 2) {
            let f = match w.ch.below(3) {
                0 => {
                    let d = w.e_un(n, 48, &e, 0, e.p.dbl())?;
                    w.e_un(n, 48, &d, 0, d.p.dbl())?
                }
                1 => {
                    let four = w.s_u32(n, 4)?;
                    w.e_mul(n, &e, &four)?
                }
                _ => w.e_un(n, 57, &e, 0, e.p.dbl().dbl())?,
            };
            if !self.test(w, n, &f)? {
                return viol("wrong-op54", "four times a point is not admitted".into());
            }
        }
        Ok(())
    }
    fn attack(&mut self, w: &mut W, n: usize) -> R<()> {
        // torsion hidden in an otherwise honest point
        let like = ed_like(w, n);
        let ch = &mut w.ch;
        let t = gens::torsion(ch);
        let p = gens::prime_point(ch, &like).add(&t).norm();
        let e = w.e_load(n, &p)?;
        let e = self.rerep(w, n, &e)?;
        self.test(w, n, &e)?;
        Ok(())
    }
    fn done(&self, _w: &W) -> bool {
        self.verdict.len() == self.nn * self.pts.len()
    }
    fn finish(&mut self, w: &mut W) -> R<()> {
        for ((n, j), v) in &self.verdict {
            w.st.checks += 1;
            if *v != self.pts[*j].1.torsion_free() {
                return viol("wrong-op54", format!("node {n} misjudged point {j}"));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C14: Edwards and Curve448 views
pub struct Bridge {
    nn: usize,
    base: Pt,
    pairs: BTreeMap<(usize, usize), [u8; 56]>,
}
impl Bridge {
    pub fn new(w: &mut W) -> Bridge {
        let base = gens::point(&mut w.ch, &[]);
        Bridge { nn: w.n(), base, pairs: BTreeMap::new() }
    }
    fn to_u(&self, w: &mut W, n: usize, e: &Ed) -> R<Mo> {
        let p = e.p;
        w.m_new(n, 55, e.i, 0, 0, &[], e.p.to_u().to_le(), &|| hx(&p.enc()))
    }
    fn view(&self, w: &mut W, n: usize, e: &Ed, s: &Sc) -> R<Mo> {
        if w.ch.chance(1, 2) {
            let r = w.e_mul(n, e, s)?;
            self.to_u(w, n, &r)
        } else {
            let m = self.to_u(w, n, e)?;
            w.m_mul(n, &m, s)
        }
    }
}
impl Proto for Bridge {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        if w.fetch(n, "sk").is_none() {
            let v = gens::scalar_raw(&mut w.ch, &[]);
            w.store(n, "sk", &v.to_le())?;
        }
        let sk = U::from_le(&w.fetch(n, "sk").unwrap());
        let s = w.s_raw(n, sk)?;
        let e = w.e_load(n, &self.base)?;
        // each side publishes an Edwards point or its Curve448 image
        if n % 2 == 0 {
            let r = w.e_mul(n, &e, &s)?;
            let b = w.e_enc(n, &r)?;
            w.broadcast(n, n as u32, &b);
        } else {
            let m = self.view(w, n, &e, &s)?;
            let b = w.m_bytes(n, &m)?;
            w.broadcast(n, n as u32, &b);
        }
        Ok(())
    }
    fn recv(&mut self, w: &mut W, n: usize, from: usize, _id: u32, body: &[u8], intact: bool) -> R<bool> {
        if !intact {
            return Ok(false);
        }
        let sk = U::from_le(&w.fetch(n, "sk").unwrap());
        let s = w.s_raw(n, sk)?;
        let m = if body.len() == 57 {
            let e = w.e_load(n, &Pt::dec(&a57(body)).unwrap())?;
            self.view(w, n, &e, &s)?
        } else {
            let m = w.m_load(n, a56(body))?;
            w.m_mul(n, &m, &s)?
        };
        let b = w.m_bytes(n, &m)?;
        self.pairs.insert((n, from), b);
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        let (e, s) = ed_and_sc(w, n)?;
        let r = w.e_mul(n, &e, &s)?;
        let a = self.to_u(w, n, &r)?;
        let m = self.to_u(w, n, &e)?;
        let b = w.m_mul(n, &m, &s)?;
        let var = w.ch.below(3) as u32;
        let (_, o) = w.ex(n, 65, 0, a.i, b.i, var, &[])?;
        w.expect(n, 65, "u equality", &o, &[1], &|| String::new())?;
        keep!(w, n, ed, r);
        // sign and the point of order two do not show
        let x = match w.ch.below(3) {
            0 => w.e_un(n, 46, &e, 0, e.p.neg())?,
            1 => w.e_un(n, 47, &e, 0, e.p.add(&t2()))?,
            _ => {
                let i = w.e_new(n, 40, 0, 0, 0, &[], ID, &|| String::new())?;
                w.e_add(n, &e, &i)?
            }
        };
        let u = self.to_u(w, n, &x)?;
        w.st.checks += 1;
        if u.v != m.v {
            return viol("wrong-op55", "the map depends on sign, representation or 2-torsion".into());
        }
        Ok(())
    }
    fn done(&self, _w: &W) -> bool {
        self.pairs.len() == self.nn * (self.nn - 1)
    }
    fn finish(&mut self, w: &mut W) -> R<()> {
        for ((a, b), v) in &self.pairs {
            w.st.checks += 1;
            if self.pairs[&(*b, *a)] != *v {
                return viol("no-agreement", format!("nodes {a} and {b} derived different shared values"));
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ C15: the isogenous twisted curve
/// A point phi(p), plus the twisted point of order two if `t`, in one of three representations:
/// extended, extensible, projective Niels.
#[derive(Clone, Copy)]
struct Tw {
    i: u32,
    f: usize,
    p: Pt,
    t: bool,
}
pub struct Twist {
    nn: usize,
    contrib: Vec<(Pt, bool)>,
    /// which side a node computes on
    there: Vec<bool>,
    epoch: Vec<u32>,
    pool: Vec<Vec<Tw>>,
    total: BTreeMap<usize, Vec<u8>>,
}
fn four(p: &Pt) -> Pt {
    p.dbl().dbl().norm()
}
impl Twist {
    pub fn new(w: &mut W) -> Twist {
        let nn = w.n();
        let mut contrib: Vec<(Pt, bool)> = vec![];
        for _ in 0..nn {
            let like: Vec<Pt> = contrib.iter().map(|x| x.0).collect();
            let p = gens::point(&mut w.ch, &like);
            contrib.push((p, w.ch.chance(1, 2)));
        }
        let there = (0..nn).map(|n| n == 0 || w.ch.chance(1, 2)).collect();
        Twist { nn, contrib, there, epoch: vec![0; nn], pool: vec![vec![]; nn], total: BTreeMap::new() }
    }
    fn op(&self, w: &mut W, n: usize, op: u32, f: usize, a: u32, b: u32, var: u32, inp: &[u8], p: Pt, t: bool) -> R<Tw> {
        let i = w.slot(n, 4 + f);
        w.ex(n, op, i, a, b, var, inp)?;
        let r = Tw { i, f, p: p.norm(), t };
        let back = w.slot(n, 1);
        let x = self.ext(w, n, &r)?;
        w.ex(n, 101, back, x, 0, 0, &[])?;
        let (_, o) = w.ex(n, 43, 0, back, 0, 0, &[])?;
        w.expect(n, op, &format!("{} and back", opname(op)), &o, &four(&p).enc(), &|| format!("p={} torqued={t} form {var}", hx(&p.enc())))?;
        Ok(r)
    }
    /// An extended representation of the point, without checks.
    fn ext(&self, w: &mut W, n: usize, a: &Tw) -> R<u32> {
        if a.f == 0 {
            return Ok(a.i);
        }
        let j = w.slot(n, 4);
        w.ex(n, if a.f == 1 { 109 } else { 111 }, j, a.i, 0, 0, &[])?;
        Ok(j)
    }
    fn as_f(&self, w: &mut W, n: usize, a: &Tw, f: usize) -> R<Tw> {
        if a.f == f {
            return Ok(*a);
        }
        let e = if a.f == 0 { *a } else { self.op(w, n, if a.f == 1 { 109 } else { 111 }, 0, a.i, 0, 0, &[], a.p, a.t)? };
        if f == 0 {
            return Ok(e);
        }
        let x = self.op(w, n, 104, 1, e.i, 0, 0, &[], a.p, a.t)?;
        if f == 1 {
            return Ok(x);
        }
        self.op(w, n, 110, 2, x.i, 0, 0, &[], a.p, a.t)
    }
    fn load(&self, w: &mut W, n: usize, p: &Pt) -> R<Tw> {
        let e = w.e_load(n, p)?;
        self.op(w, n, 100, 0, e.i, 0, 0, &[], *p, false)
    }
    fn some(&mut self, w: &mut W, n: usize, f: usize) -> R<Tw> {
        self.fresh(w, n);
        let a = if !self.pool[n].is_empty() && w.ch.chance(2, 3) {
            let k = w.ch.idx(self.pool[n].len());
            self.pool[n][k]
        } else {
            let e = match w.ch.below(10) {
                0 => {
                    let k = w.slot(n, 6);
                    let a = self.op(w, n, 119, 0, k, 0, 0, &[], ID, false)?;
                    if w.ch.chance(1, 2) { Tw { i: k, f: 2, ..a } } else { a }
                }
                _ => {
                    let mut like = ed_like(w, n);
                    like.extend(self.pool[n].iter().map(|x| x.p));
                    let p = gens::point(&mut w.ch, &like);
                    self.load(w, n, &p)?
                }
            };
            self.pool[n].push(e);
            e
        };
        self.as_f(w, n, &a, f)
    }
    fn fresh(&mut self, w: &W, n: usize) {
        if self.epoch[n] != w.nodes[n].epoch {
            self.epoch[n] = w.nodes[n].epoch;
            self.pool[n].clear();
        }
    }
    fn plus(&self, w: &mut W, n: usize, a: &Tw, b: &Tw) -> R<Tw> {
        let a = self.as_f(w, n, a, 1)?;
        let f = w.ch.idx(3);
        let b = self.as_f(w, n, b, f)?;
        self.op(w, n, [106, 108, 112][f], 1, a.i, b.i, 0, &[], a.p.add(&b.p), a.t ^ b.t)
    }
    fn minus(&self, w: &mut W, n: usize, a: &Tw, b: &Tw) -> R<Tw> {
        let a = self.as_f(w, n, a, 1)?;
        match w.ch.below(4) {
            0 | 1 => {
                let b = self.as_f(w, n, b, 0)?;
                self.op(w, n, 107, 1, a.i, b.i, 0, &[], a.p.sub(&b.p), a.t ^ b.t)
            }
            2 => {
                let b = self.as_f(w, n, b, 0)?;
                let m = self.op(w, n, 102, 0, b.i, 0, 0, &[], b.p.neg(), b.t)?;
                self.plus(w, n, &a, &m)
            }
            _ => {
                let b = self.as_f(w, n, b, 2)?;
                let m = self.op(w, n, 115, 2, b.i, 0, 0, &[1], b.p.neg(), b.t)?;
                self.plus(w, n, &a, &m)
            }
        }
    }
    fn same(&self, w: &mut W, n: usize, a: &Tw, b: &Tw) -> R<()> {
        let f = w.ch.idx(3);
        let (a, b) = (self.as_f(w, n, a, f)?, self.as_f(w, n, b, f)?);
        let want = a.t == b.t && four(&a.p) == four(&b.p);
        let var = w.ch.below(3) as u32;
        let op = 116 + f as u32;
        let (_, o) = w.ex(n, op, 0, a.i, b.i, var, &[])?;
        w.expect(n, op, opname(op), &o, &[want as u8], &|| format!("a={} torqued={} b={} torqued={} form {var}", hx(&a.p.enc()), a.t, hx(&b.p.enc()), b.t))
    }
    fn count(&mut self, w: &mut W, n: usize) -> R<()> {
        let mut got = vec![];
        for i in 0..self.nn {
            let Some(b) = w.fetch(n, &format!("c{i}")) else { return Ok(()) };
            got.push((Pt::dec(&a57(&b)).expect("stored point"), self.contrib[i].1));
        }
        let enc = if self.there[n] {
            let mut acc: Option<Tw> = None;
            for (p, neg) in &got {
                let x = self.load(w, n, p)?;
                acc = Some(match acc {
                    None if !*neg => x,
                    None => self.op(w, n, 102, 0, x.i, 0, 0, &[], x.p.neg(), x.t)?,
                    Some(a) if *neg => self.minus(w, n, &a, &x)?,
                    Some(a) => self.plus(w, n, &a, &x)?,
                });
            }
            let a = self.as_f(w, n, &acc.unwrap(), 0)?;
            let r = w.e_new(n, 101, a.i, 0, 0, &[], four(&a.p), &|| hx(&a.p.enc()))?;
            w.e_enc(n, &r)?
        } else {
            let mut acc = w.e_new(n, 40, 0, 0, 0, &[], ID, &|| String::new())?;
            for (p, neg) in &got {
                let x = w.e_load(n, p)?;
                acc = if *neg { w.e_sub(n, &acc, &x)? } else { w.e_add(n, &acc, &x)? };
            }
            let d = w.e_un(n, 48, &acc, 0, acc.p.dbl())?;
            let d = w.e_un(n, 48, &d, 0, d.p.dbl())?;
            w.e_enc(n, &d)?
        };
        self.total.insert(n, enc.to_vec());
        Ok(())
    }
}
impl Proto for Twist {
    fn boot(&mut self, w: &mut W, n: usize, _first: bool) -> R<()> {
        self.fresh(w, n);
        let p = self.contrib[n].0;
        let x = w.e_load(n, &p)?;
        let b = w.e_enc(n, &x)?;
        w.broadcast(n, n as u32, &b);
        w.store(n, &format!("c{n}"), &b)?;
        self.count(w, n)
    }
    fn recv(&mut self, w: &mut W, n: usize, _from: usize, id: u32, body: &[u8], intact: bool) -> R<bool> {
        if !intact {
            return Ok(false);
        }
        self.fresh(w, n);
        let key = format!("c{id}");
        if w.fetch(n, &key).is_none() {
            w.store(n, &key, body)?;
            self.count(w, n)?;
        }
        Ok(true)
    }
    fn work(&mut self, w: &mut W, n: usize) -> R<()> {
        for _ in 0..w.ch.range(2, 6) {
            let f = w.ch.idx(3);
            let a = self.some(w, n, f)?;
            let r = match w.ch.below(12) {
                0 | 1 | 2 => {
                    let g = w.ch.idx(3);
                    let b = self.some(w, n, g)?;
                    self.plus(w, n, &a, &b)?
                }
                3 | 4 => {
                    let g = w.ch.idx(3);
                    let b = self.some(w, n, g)?;
                    self.minus(w, n, &a, &b)?
                }
                5 => {
                    let a = self.as_f(w, n, &a, 1)?;
                    self.op(w, n, 105, 1, a.i, 0, 0, &[], a.p.dbl(), false)?
                }
                6 => {
                    let a = self.as_f(w, n, &a, 0)?;
                    self.op(w, n, 102, 0, a.i, 0, 0, &[], a.p.neg(), a.t)?
                }
                7 => {
                    let a = self.as_f(w, n, &a, 0)?;
                    self.op(w, n, 103, 0, a.i, 0, 0, &[], a.p, !a.t)?
                }
                8 => {
                    let c = w.ch.below(2) as u8;
                    let a = self.as_f(w, n, &a, 2)?;
                    let p = if c == 1 { a.p.neg() } else { a.p };
                    self.op(w, n, 115, 2, a.i, 0, 0, &[c], p, a.t)?
                }
                9 => {
                    let f = 2 * w.ch.idx(2);
                    let (a, b) = (self.as_f(w, n, &a, f)?, self.some(w, n, f)?);
                    let (c, var) = (w.ch.below(2) as u8, w.ch.below(3) as u32);
                    let q = if c == 1 { b } else { a };
                    self.op(w, n, if f == 0 { 113 } else { 114 }, f, a.i, b.i, var, &[c], q.p, q.t)?
                }
                10 => {
                    // a + a, a - a
                    if w.ch.chance(1, 2) { self.plus(w, n, &a, &a)? } else { self.minus(w, n, &a, &a)? }
                }
                _ => {
                    let e = self.as_f(w, n, &a, 0)?;
                    let r = w.e_new(n, 101, e.i, 0, 0, &[], four(&e.p), &|| hx(&e.p.enc()))?;
                    keep!(w, n, ed, r);
                    self.op(w, n, 100, 0, r.i, 0, 0, &[], r.p, false)?
                }
            };
            let k = self.pool[n].len();
            if k < 8 {
                self.pool[n].push(r)
            } else {
                let j = w.ch.idx(k);
                self.pool[n][j] = r
            }
            // the same point, its torqued twin, a point that differs by torsion of the source, another one
            match w.ch.below(4) {
                0 => {
                    let x = self.load(w, n, &r.p)?;
                    self.same(w, n, &r, &x)?;
                    let y = self.op(w, n, 103, 0, x.i, 0, 0, &[], x.p, true)?;
                    self.same(w, n, &r, &y)?;
                }
                1 => {
                    let q = r.p.add(&gens::torsion(&mut w.ch));
                    let x = self.load(w, n, &q.norm())?;
                    self.same(w, n, &r, &x)?;
                }
                2 => {
                    let x = self.load(w, n, &r.p.neg())?;
                    self.same(w, n, &r, &x)?;
                }
                _ => {
                    let g = w.ch.idx(3);
                    let x = self.some(w, n, g)?;
                    self.same(w, n, &r, &x)?;
                }
            }
        }
        Ok(())
    }
    fn done(&self, _w: &W) -> bool {
        self.total.len() == self.nn
    }
    fn finish(&mut self, w: &mut W) -> R<()> {
        let mut sum = ID;
        for (p, neg) in &self.contrib {
            sum = if *neg { sum.sub(p) } else { sum.add(p) };
        }
        let want = four(&sum).enc();
        for (n, b) in &self.total {
            w.st.checks += 1;
            if b[..] != want {
                return viol("aggregate-differs", format!("node {n} ends with {} instead of {}", hx(b), hx(&want)));
            }
        }
        Ok(())
    }
}
