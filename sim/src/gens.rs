//! Value generators, biased towards the values on which limb arithmetic, recoding and range
//! checks have edges.
use crate::ch::Ch;
use crate::model::*;
use crate::num::*;

fn small_delta(ch: &mut Ch, v: U) -> U {
    let d = U::from_u64(match ch.below(4) {
        0 => 0,
        1 => 1,
        2 => ch.below(20),
        _ => ch.below(1 << 20),
    });
    // seen from any limb
    let d = if ch.chance(1, 3) {
        let mut r = d;
        for _ in 0..ch.idx(448) {
            r = r.add(r).0;
        }
        r
    } else {
        d
    };
    let v = if ch.chance(1, 2) { v.sub(d).0 } else { v.add(d).0 };
    if ch.chance(1, 4) {
        small_delta(ch, v)
    } else {
        v
    }
}
fn limb_pattern(ch: &mut Ch) -> U {
    let w = ch.pick(&[28usize, 32, 56, 64, 8, 16]);
    let max = if w == 64 { !0u64 } else { (1 << w) - 1 };
    let mut r = U([0; 7]);
    let style = ch.below(3);
    let common = ch.below(6);
    let mut bit = 0;
    while bit < 448 {
        let k = if style == 0 { common } else { ch.below(7) };
        let l = match k {
            0 => 0,
            1 => max,
            2 => 1,
            3 => max - 1,
            4 => max >> 1,
            5 => (max >> 1) + 1,
            _ => ch.raw() & max,
        };
        let l = if style == 2 && ch.chance(1, 3) { 0 } else { l };
        r.0[bit / 64] |= l << (bit % 64);
        if bit % 64 + w > 64 && bit / 64 + 1 < 7 {
            r.0[bit / 64 + 1] |= l >> (64 - bit % 64);
        }
        bit += w;
    }
    r
}
fn runs(ch: &mut Ch) -> U {
    // alternating runs of zeros and ones
    let mut r = U([0; 7]);
    let mut b = ch.below(2);
    let mut i = 0;
    while i < 448 {
        let n = 1 + match ch.below(3) {
            0 => ch.below(5),
            1 => ch.below(40),
            _ => ch.below(200),
        };
        for j in i..(i + n as usize).min(448) {
            r.0[j / 64] |= b << (j % 64);
        }
        i += n as usize;
        b ^= 1;
    }
    r
}
fn nibbles(ch: &mut Ch) -> U {
    let set: &[u8] = ch.pick(&[&[7u8, 8][..], &[8, 15], &[7, 8, 15, 0], &[0, 8], &[15, 7], &[8], &[7], &[9, 8, 7], &[1, 15]]);
    let noise = ch.chance(1, 3);
    let mut r = U([0; 7]);
    for i in 0..112 {
        let n = if noise && ch.chance(1, 8) { ch.below(16) as u8 } else { ch.pick(set) };
        r.0[i / 16] |= (n as u64) << (4 * (i % 16));
    }
    r
}
/// Random, with one or two windows of w bits replaced by a special value.
fn one_limb(ch: &mut Ch) -> U {
    let mut r = U::from_le(&ch.bytes(56));
    let w = ch.pick(&[4usize, 8, 16, 28, 32, 56, 64, 112, 224]);
    for _ in 0..ch.range(1, 2) {
        let at = w * ch.idx(448 / w);
        let k = ch.below(4);
        for i in 0..w {
            let b = match k {
                0 => 0,
                1 => 1,
                2 => (i == 0) as u64,
                _ => (i == w - 1) as u64,
            };
            let j = at + i;
            r.0[j / 64] = r.0[j / 64] & !(1 << (j % 64)) | b << (j % 64);
        }
    }
    r
}
fn sparse(ch: &mut Ch) -> U {
    let mut r = U([0; 7]);
    for _ in 0..ch.range(1, 6) {
        let i = ch.idx(448);
        r.0[i / 64] ^= 1 << (i % 64);
    }
    r
}
/// Any 448-bit integer, as raw material for scalars. `like`: earlier values to vary.
pub fn scalar_raw(ch: &mut Ch, like: &[U]) -> U {
    match ch.below(18) {
        0 => U::from_u64(ch.below(18)),
        1 => sred(U::from_le(&ch.bytes(56))),
        2 => U::from_le(&ch.bytes(56)),
        3 => {
            let mut v = ZERO;
            for _ in 0..ch.range(0, 4) {
                v = v.add(L).0;
            }
            small_delta(ch, v)
        }
        4 => {
            let k = ch.idx(448);
            small_delta(ch, U::pow2(k))
        }
        5 => limb_pattern(ch),
        6 => nibbles(ch),
        7 => sparse(ch),
        8 => runs(ch),
        9 => sred(limb_pattern(ch)),
        10 => {
            // values whose Montgomery form (R = 2^448) is special
            let r = sred(fadd_wide_r());
            let ri = sinv(r);
            let base = match ch.below(5) {
                0 => r,
                1 => ri,
                2 => smul(r, r),
                3 => smul(U::from_u64(ch.below(1 << 16)), ri),
                _ => {
                    let v = limb_pattern(ch);
                    smul(v, if ch.chance(1, 2) { ri } else { r })
                }
            };
            if ch.chance(1, 2) {
                base
            } else {
                L.sub(sred(base)).0
            }
        }
        11 => {
            // halves and thirds of the order and around
            let h = smul(ONE, sinv(U::from_u64(ch.range(2, 9))));
            let m = U::from_u64(ch.range(1, 9));
            small_delta(ch, smul(h, m))
        }
        12 => small_delta(ch, P),
        14 => one_limb(ch),
        15 => sred(one_limb(ch)),
        13 => {
            let v = sred(nibbles(ch));
            small_delta(ch, v)
        }
        _ => {
            if like.is_empty() {
                return sred(U::from_le(&ch.bytes(56)));
            }
            let v = like[ch.idx(like.len())];
            match ch.below(14) {
                0 => v,
                11..=13 => partner(ch, v),
                7 => ZERO.sub(v).0,
                8 => v.shr(1),
                9 => v.add(v).0,
                10 => {
                    // same low or high half
                    let mut r = v;
                    let n = ch.range(1, 6) as usize;
                    let low = ch.chance(1, 2);
                    for i in 0..7 {
                        if (i < n) == low {
                            r.0[i] = ch.raw()
                        }
                    }
                    r
                }
                1 => L.sub(sred(v)).0,
                2 => small_delta(ch, v),
                3 => {
                    let i = ch.idx(448);
                    let mut r = v;
                    r.0[i / 64] ^= 1 << (i % 64);
                    r
                }
                4 => {
                    let mut r = v;
                    let i = ch.idx(7);
                    r.0[i] = ch.raw();
                    r
                }
                5 => v.add(L).0,
                _ => sinv(v),
            }
        }
    }
}
/// An operand that, together with v, gives a special product, Montgomery product, sum or difference.
pub fn partner(ch: &mut Ch, v: U) -> U {
    let t = scalar_raw(ch, &[]);
    match ch.below(5) {
        0 => smul(t, sinv(v)),
        1 => smul(smul(t, fadd_wide_r()), sinv(v)),
        2 => ssub(t, v),
        3 => t.sub(v).0, // as 448-bit integers
        _ => ssub(v, t),
    }
}
fn fadd_wide_r() -> U {
    // 2^448 mod l, via 2 * 2^447
    sadd(U::pow2(447), U::pow2(447))
}
pub fn scalar_canon(ch: &mut Ch, like: &[U]) -> U {
    sred(scalar_raw(ch, like))
}
/// Any 448-bit integer, as raw material for field elements.
pub fn field_raw(ch: &mut Ch, like: &[U]) -> U {
    match ch.below(15) {
        0 => U::from_u64(ch.below(40)),
        1 => U::from_le(&ch.bytes(56)),
        2 => small_delta(ch, P),
        3 => {
            let k = ch.pick(&[224usize, 223, 225, 28, 56, 32, 64, 420, 392, 384, 447, 252, 256, 196, 192]);
            small_delta(ch, U::pow2(k))
        }
        4 => limb_pattern(ch),
        5 => limb_pattern(ch),
        6 => sparse(ch),
        7 => runs(ch),
        8 => ZERO.sub(U::from_u64(ch.below(1 << 16) + 1)).0,
        9 => fneg(fred(limb_pattern(ch))),
        10 => P.sub(sparse(ch)).0,
        12 => one_limb(ch),
        11 => {
            let k = ch.idx(448);
            small_delta(ch, U::pow2(k))
        }
        _ => {
            if like.is_empty() {
                return fred(U::from_le(&ch.bytes(56)));
            }
            let v = like[ch.idx(like.len())];
            match ch.below(4) {
                0 => v,
                1 => fneg(fred(v)),
                2 => small_delta(ch, v),
                _ => {
                    let i = ch.idx(448);
                    let mut r = v;
                    r.0[i / 64] ^= 1 << (i % 64);
                    r
                }
            }
        }
    }
}
pub fn field(ch: &mut Ch, like: &[U]) -> U {
    fred(field_raw(ch, like))
}
/// The next y upwards (or downwards) from a special value that belongs to a curve point.
pub fn special_point(ch: &mut Ch) -> Pt {
    let mut y = field(ch, &[]);
    let down = ch.chance(1, 2);
    // what is special: the coordinate y, the product xy, the image on Curve448, or x + y
    let kind = ch.pick(&[0u32, 0, 0, 1, 2, 3]);
    loop {
        if let Some(p) = match kind {
            0 => Pt::from_y(y),
            1 => Pt::from_xy(y),
            2 => Pt::from_u(y),
            _ => Pt::from_sum(y),
        } {
            return if ch.chance(1, 2) { p.neg() } else { p };
        }
        y = if down { fsub(y, ONE) } else { fadd(y, ONE) };
    }
}
pub fn torsion(ch: &mut Ch) -> Pt {
    match ch.below(4) {
        0 => ID,
        1 => t2(),
        2 => t4(false),
        _ => t4(true),
    }
}
/// Any curve point.
pub fn point(ch: &mut Ch, like: &[Pt]) -> Pt {
    match ch.below(10) {
        0 => gen(),
        1 => torsion(ch),
        2 => gen().mul(U::from_u64(ch.below(20))),
        3 | 4 => special_point(ch),
        5 => gen().mul(scalar_canon(ch, &[])),
        6 => {
            let t = torsion(ch);
            gen().mul(scalar_canon(ch, &[])).add(&t)
        }
        7 => {
            // equal x, shared coordinates: images under the symmetries of the curve
            let p = special_point(ch);
            p.add(&torsion(ch))
        }
        _ => {
            if like.is_empty() {
                return gen();
            }
            let p = like[ch.idx(like.len())];
            match ch.below(10) {
                0 => p,
                1 => p.neg(),
                2 => p.add(&torsion(ch)),
                3 => p.neg().add(&torsion(ch)),
                4 => p.dbl(),
                // a special sum or difference
                5 => special_point(ch).sub(&p),
                6 => p.sub(&special_point(ch)),
                _ => matching(ch, &p),
            }
        }
    }
    .norm()
}
/// A point one of whose coordinates gives a special product, sum or difference with one of p's.
fn matching(ch: &mut Ch, p: &Pt) -> Pt {
    let (x, y) = p.affine();
    let c = if ch.chance(1, 2) { x } else { y };
    let mut t = field(ch, &[]);
    let how = ch.below(4);
    let swap = ch.chance(1, 2);
    let ci = finv(c);
    loop {
        let v = match how {
            0 | 1 => fmul(t, ci),
            2 => fsub(t, c),
            _ => fadd(t, c),
        };
        if let Some(q) = Pt::from_y(v) {
            // the equation of the curve is symmetric in x and y
            let q = if swap { Pt { x: q.y, y: q.x, z: q.z } } else { q };
            return if ch.chance(1, 2) { q.neg() } else { q };
        }
        t = fadd(t, ONE);
    }
}
/// k^-1 modulo 4m, for odd k and a prime m = 1 or 3 modulo 4 that does not divide k.
pub fn inv4(k: U, m: U) -> Option<U> {
    let mut i = inv_mod(k, m)?;
    for _ in 0..4 {
        if (i.0[0] ^ k.0[0]) & 3 == 0 {
            return Some(i);
        }
        i = i.add(m).0;
    }
    None
}
/// A point whose multiple by k is special.
pub fn aimed_point(ch: &mut Ch, k: U) -> Pt {
    for _ in 0..6 {
        let t = special_point(ch);
        let inv = if k.odd() {
            inv4(k, L)
        } else if t.torsion_free() {
            inv_mod(k, L)
        } else {
            continue;
        };
        match inv {
            Some(i) => return t.mul(i).norm(),
            None => break,
        }
    }
    point(ch, &[])
}
/// The order of the twist of Curve448, divided by its cofactor 4.
pub fn twist_order() -> U {
    U::pow2(447).sub(U::pow2(223)).0.sub(L).0
}
/// A u, on Curve448 or its twist, whose multiple by k is special.
pub fn aimed_u(ch: &mut Ch, k: U) -> U {
    let q = twist_order();
    for _ in 0..12 {
        let u = field(ch, &[]);
        let uu = fsq(u);
        let v2 = fadd(fadd(fmul(uu, u), fmul(U::from_u64(156326), uu)), u);
        let m = if fsqrt_ratio(v2, ONE).is_some() { L } else { q };
        let inv = if k.odd() {
            inv4(k, m)
        } else if x448(m, &u.to_le()) == [0; 56] {
            inv_mod(k, m)
        } else {
            continue;
        };
        match inv {
            Some(i) => return U::from_le(&x448(i, &u.to_le())),
            None => break,
        }
    }
    field(ch, &[])
}
/// A Decaf element whose multiple by k is special.
pub fn aimed_decaf(ch: &mut Ch, k: U) -> Pt {
    let t = decaf(ch, &[]);
    t.mul(sinv(k)).norm()
}
/// A point of the prime-order subgroup.
pub fn prime_point(ch: &mut Ch, like: &[Pt]) -> Pt {
    match ch.below(5) {
        0 => gen(),
        1 => special_point(ch).dbl().dbl().norm(),
        2 => gen().mul(U::from_u64(ch.below(20))).norm(),
        3 if !like.is_empty() => {
            let p = like[ch.idx(like.len())].dbl().dbl();
            if ch.chance(1, 2) { p.neg() } else { p }.norm()
        }
        _ => gen().mul(scalar_canon(ch, &[])).norm(),
    }
}
/// A Decaf element, as any point of its coset (decaf448 = 2E / E[2] here: even points).
pub fn decaf(ch: &mut Ch, like: &[Pt]) -> Pt {
    let b = match ch.below(8) {
        0 => return ID,
        1 => return decaf_gen(),
        2 => return decaf_gen().mul(U::from_u64(ch.below(20))).norm(),
        3 | 4 => {
            // special s values: next valid encoding
            let mut s = field(ch, &[]);
            if s.odd() {
                s = fneg(s)
            }
            s
        }
        5 => return decaf_gen().mul(scalar_canon(ch, &[])).norm(),
        _ => {
            if like.is_empty() {
                return decaf_gen();
            }
            let p = like[ch.idx(like.len())];
            return match ch.below(5) {
                0 => p,
                1 => p.neg(),
                2 => p.dbl(),
                // a special sum or difference
                3 => decaf(ch, &[]).sub(&p),
                _ => p.sub(&decaf(ch, &[])),
            }
            .norm();
        }
    };
    let mut s = b;
    loop {
        if let Some(p) = Pt::decaf_dec(&s.to_le()) {
            return p;
        }
        s = fadd(s, U::from_u64(2));
        if s.odd() {
            s = ZERO
        }
    }
}
/// Damage as links, disks and attackers do it: flips, tears, stale tails, shifts.
pub fn damage(ch: &mut Ch, b: &mut Vec<u8>, other: &[u8]) -> &'static str {
    let n = b.len();
    match ch.below(9) {
        0 => {
            let i = ch.idx(8 * n);
            b[i / 8] ^= 1 << (i % 8);
            "bit flip"
        }
        1 => {
            for _ in 0..ch.range(2, 4) {
                let i = ch.idx(8 * n);
                b[i / 8] ^= 1 << (i % 8);
            }
            "bit flips"
        }
        2 => {
            let k = ch.idx(n);
            for (i, x) in b.iter_mut().enumerate().skip(k) {
                *x = other.get(i).copied().unwrap_or(0)
            }
            "torn, stale tail"
        }
        3 => {
            let k = ch.idx(n);
            for x in b.iter_mut().skip(k) {
                *x = 0
            }
            "torn, zero tail"
        }
        4 => {
            let k = ch.idx(n);
            b[k] = ch.raw() as u8;
            "byte replaced"
        }
        5 => {
            // last byte: where sign and unused bits live
            let v = ch.raw() as u8;
            b[n - 1] ^= v;
            "last byte"
        }
        6 => {
            b.rotate_left(1);
            "shifted"
        }
        7 => {
            b.reverse();
            "reversed"
        }
        _ => {
            let k = ch.idx(n);
            for x in b.iter_mut().skip(k) {
                *x = 0xff
            }
            "torn, ones tail"
        }
    }
}
