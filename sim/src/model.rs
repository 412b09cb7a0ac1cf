//! Reference groups: Ed448-Goldilocks (RFC 8032 formulas), Curve448 (RFC 7748 ladder) and
//! decaf448 (RFC 9496 formulas, which work on the untwisted curve, unlike the library).
use crate::num::*;

/// Point of x^2 + y^2 = 1 - 39081 x^2 y^2, projective.
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub x: U,
    pub y: U,
    pub z: U,
}
pub fn d() -> U {
    P.sub(U::from_u64(39081)).0
}
pub const ID: Pt = Pt { x: ZERO, y: ONE, z: ONE };

fn hexu(s: &str) -> U {
    let mut b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    b.reverse();
    U::from_le(&b)
}
pub fn gen() -> Pt {
    Pt {
        x: hexu("4F1970C66BED0DED221D15A622BF36DA9E146570470F1767EA6DE324A3D3A46412AE1AF72AB66511433B80E18B00938E2626A82BC70CC05E"),
        y: hexu("693F46716EB6BC248876203756C9C7624BEA73736CA3984087789C1E05A0C2D73AD3FF1CE67C39C4FDBD132C4ED7C8AD9808795BF230FA14"),
        z: ONE,
    }
}
pub fn t2() -> Pt {
    Pt { x: ZERO, y: fneg(ONE), z: ONE }
}
pub fn t4(neg: bool) -> Pt {
    Pt { x: if neg { fneg(ONE) } else { ONE }, y: ZERO, z: ONE }
}

impl PartialEq for Pt {
    fn eq(&self, o: &Pt) -> bool {
        fmul(self.x, o.z) == fmul(o.x, self.z) && fmul(self.y, o.z) == fmul(o.y, self.z)
    }
}
impl Pt {
    // RFC 8032, 5.2.4
    pub fn add(&self, o: &Pt) -> Pt {
        let a = fmul(self.z, o.z);
        let b = fsq(a);
        let c = fmul(self.x, o.x);
        let dd = fmul(self.y, o.y);
        let e = fmul(d(), fmul(c, dd));
        let f = fsub(b, e);
        let g = fadd(b, e);
        let h = fmul(fadd(self.x, self.y), fadd(o.x, o.y));
        Pt {
            x: fmul(fmul(a, f), fsub(fsub(h, c), dd)),
            y: fmul(fmul(a, g), fsub(dd, c)),
            z: fmul(f, g),
        }
    }
    pub fn dbl(&self) -> Pt {
        let b = fsq(fadd(self.x, self.y));
        let c = fsq(self.x);
        let dd = fsq(self.y);
        let e = fadd(c, dd);
        let h = fsq(self.z);
        let j = fsub(e, fadd(h, h));
        Pt { x: fmul(fsub(b, e), j), y: fmul(e, fsub(c, dd)), z: fmul(e, j) }
    }
    pub fn neg(&self) -> Pt {
        Pt { x: fneg(self.x), ..*self }
    }
    pub fn sub(&self, o: &Pt) -> Pt {
        self.add(&o.neg())
    }
    pub fn mul(&self, k: U) -> Pt {
        // fixed 4-bit windows; formulas are complete
        let mut tab = [ID; 16];
        for i in 1..16 {
            tab[i] = tab[i - 1].add(self);
        }
        let mut r = ID;
        let mut started = false;
        for i in (0..112).rev() {
            if started {
                r = r.dbl().dbl().dbl().dbl();
            }
            let n = ((k.0[i / 16] >> (4 * (i % 16))) & 15) as usize;
            if n != 0 {
                r = r.add(&tab[n]);
                started = true;
            }
        }
        r
    }
    pub fn affine(&self) -> (U, U) {
        if self.z == ONE {
            return (self.x, self.y);
        }
        let zi = finv(self.z);
        (fmul(self.x, zi), fmul(self.y, zi))
    }
    pub fn norm(&self) -> Pt {
        let (x, y) = self.affine();
        Pt { x, y, z: ONE }
    }
    pub fn enc(&self) -> [u8; 57] {
        let (x, y) = self.affine();
        let mut r = [0u8; 57];
        r[..56].copy_from_slice(&y.to_le());
        r[56] = if x.odd() { 0x80 } else { 0 };
        r
    }
    /// RFC 8032, 5.2.3, strict
    pub fn dec(b: &[u8; 57]) -> Option<Pt> {
        if b[56] & 0x7f != 0 {
            return None;
        }
        let y = U::from_le(&b[..56]);
        if y >= P {
            return None;
        }
        let p = Pt::from_y(y)?;
        let want = b[56] & 0x80 != 0;
        if p.x.is_zero() && want {
            return None;
        }
        Some(if p.x.odd() == want { p } else { p.neg() })
    }
    pub fn from_y(y: U) -> Option<Pt> {
        let yy = fsq(y);
        let x = fsqrt_ratio(fsub(ONE, yy), fsub(ONE, fmul(d(), yy)))?;
        Some(Pt { x, y, z: ONE })
    }
    /// A point with xy = t: x^2 and y^2 have the sum 1 + d t^2 and the product t^2.
    pub fn from_xy(t: U) -> Option<Pt> {
        let tt = fsq(t);
        let s = fadd(ONE, fmul(d(), tt));
        let r = fsqrt_ratio(fsub(fsq(s), fmul(U::from_u64(4), tt)), ONE)?;
        let two = U::from_u64(2);
        let x = fsqrt_ratio(fadd(s, r), two).or_else(|| fsqrt_ratio(fsub(s, r), two))?;
        if x.is_zero() {
            return None;
        }
        let p = Pt { x, y: fmul(t, finv(x)), z: ONE };
        p.on_curve().then_some(p)
    }
    /// A point with y^2/x^2 = u: d u X^2 - (1 + u) X + 1 = 0 for X = x^2.
    pub fn from_u(u: U) -> Option<Pt> {
        let q = fsqrt_ratio(u, ONE)?;
        if q.is_zero() {
            return None;
        }
        let (s, du) = (fadd(ONE, u), fmul(d(), u));
        let r = fsqrt_ratio(fsub(fsq(s), fmul(U::from_u64(4), du)), ONE)?;
        let den = fmul(U::from_u64(2), du);
        let x = fsqrt_ratio(fadd(s, r), den).or_else(|| fsqrt_ratio(fsub(s, r), den))?;
        let p = Pt { x, y: fmul(q, x), z: ONE };
        p.on_curve().then_some(p)
    }
    /// A point with x + y = s: t = xy satisfies d t^2 + 2t + 1 - s^2 = 0.
    pub fn from_sum(s: U) -> Option<Pt> {
        let ss = fsq(s);
        let r = fsqrt_ratio(fsub(ONE, fmul(d(), fsub(ONE, ss))), ONE)?;
        for r in [r, fneg(r)] {
            let t = fmul(fsub(r, ONE), finv(d()));
            if let Some(e) = fsqrt_ratio(fsub(ss, fmul(U::from_u64(4), t)), ONE) {
                let x = fmul(fadd(s, e), finv(U::from_u64(2)));
                let p = Pt { x, y: fsub(s, x), z: ONE };
                return p.on_curve().then_some(p);
            }
        }
        None
    }
    pub fn on_curve(&self) -> bool {
        let (x, y) = self.affine();
        let (xx, yy) = (fsq(x), fsq(y));
        fadd(xx, yy) == fadd(ONE, fmul(d(), fmul(xx, yy)))
    }
    pub fn torsion_free(&self) -> bool {
        self.mul(L) == ID
    }
    /// u = y^2/x^2, 0 if either coordinate is 0
    pub fn to_u(&self) -> U {
        fmul(fsq(self.y), finv(fsq(self.x)))
    }

    // ---- decaf448, RFC 9496 section 5
    pub fn decaf_enc(&self) -> [u8; 56] {
        let k = dc();
        let p = self.norm();
        let t = fmul(p.x, p.y);
        let u1 = fmul(fadd(p.x, t), fsub(p.x, t));
        let (_, inv) = inv_sqrt(fmul(fmul(u1, U::from_u64(39082)), fsq(p.x)));
        let ratio = fabs(fmul(fmul(inv, u1), k.0));
        let u2 = fsub(fmul(k.1, ratio), t);
        fabs(fmul(fmul(fmul(U::from_u64(39082), inv), p.x), u2)).to_le()
    }
    pub fn decaf_dec(b: &[u8; 56]) -> Option<Pt> {
        let k = dc();
        let s = U::from_le(b);
        if s >= P || s.odd() {
            return None;
        }
        let ss = fsq(s);
        let u1 = fadd(ONE, ss);
        let u2 = fsub(fsq(u1), fmul(fmul(U::from_u64(4), d()), ss));
        let (ok, inv) = inv_sqrt(fmul(u2, fsq(u1)));
        if !ok {
            return None;
        }
        let u3 = fabs(fmul(fmul(fmul(fadd(s, s), inv), u1), k.0));
        let x = fmul(fmul(fmul(u3, inv), u2), k.1);
        let y = fmul(fmul(fsub(ONE, ss), inv), u1);
        Some(Pt { x, y, z: ONE })
    }
    pub fn decaf_eq(&self, o: &Pt) -> bool {
        fmul(self.x, o.y) == fmul(self.y, o.x)
    }
}
fn fabs(x: U) -> U {
    if x.odd() {
        fneg(x)
    } else {
        x
    }
}
/// (SQRT_MINUS_D, INVSQRT_MINUS_D)
fn dc() -> (U, U) {
    use std::sync::OnceLock;
    static C: OnceLock<(U, U)> = OnceLock::new();
    *C.get_or_init(|| {
        let s = fabs(fsqrt_ratio(U::from_u64(39081), ONE).unwrap());
        (s, finv(s))
    })
}
/// RFC 9496 SQRT_RATIO_M1(1, v)
fn inv_sqrt(v: U) -> (bool, U) {
    let e = P.sub(U::from_u64(3)).0.shr(2);
    let r = fpow(v, e);
    (fmul(v, fsq(r)) == ONE, fabs(r))
}
pub fn decaf_gen() -> Pt {
    let mut b = [0x66u8; 56];
    for x in b.iter_mut().skip(28) {
        *x = 0x33
    }
    Pt::decaf_dec(&b).unwrap()
}

/// RFC 7748 ladder, 448 bits of k, u taken modulo p.
pub fn x448(k: U, u: &[u8; 56]) -> [u8; 56] {
    let x1 = fred(U::from_le(u));
    let (mut x2, mut z2, mut x3, mut z3) = (ONE, ZERO, x1, ONE);
    let mut swap = false;
    let a24 = U::from_u64(39081);
    for t in (0..448).rev() {
        let kt = k.bit(t);
        if swap ^ kt {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = fadd(x2, z2);
        let aa = fsq(a);
        let b = fsub(x2, z2);
        let bb = fsq(b);
        let e = fsub(aa, bb);
        let c = fadd(x3, z3);
        let dd = fsub(x3, z3);
        let da = fmul(dd, a);
        let cb = fmul(c, b);
        x3 = fsq(fadd(da, cb));
        z3 = fmul(x1, fsq(fsub(da, cb)));
        x2 = fmul(aa, bb);
        z2 = fmul(e, fadd(aa, fmul(a24, e)));
    }
    if swap {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    fmul(x2, finv(z2)).to_le()
}
pub fn low_order(u: &[u8; 56]) -> bool {
    let v = fred(U::from_le(u));
    v.is_zero() || v == ONE || v == fneg(ONE)
}
