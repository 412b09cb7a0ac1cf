//! Reference integers: plain 448-bit arithmetic, written for clarity and independent of the
//! library under test (64-bit saturated limbs, schoolbook products, folding reduction).

pub type Wide = [u64; 16];

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct U(pub [u64; 7]);

impl std::fmt::Debug for U {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", self.hex())
    }
}

impl PartialOrd for U {
    fn partial_cmp(&self, o: &U) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for U {
    fn cmp(&self, o: &U) -> std::cmp::Ordering {
        self.0.iter().rev().cmp(o.0.iter().rev())
    }
}

pub const ZERO: U = U([0; 7]);
pub const ONE: U = U([1, 0, 0, 0, 0, 0, 0]);
/// p = 2^448 - 2^224 - 1
pub const P: U = U([!0, !0, !0, 0xffff_fffe_ffff_ffff, !0, !0, !0]);
/// group order: 2^446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
pub const L: U = U([
    0x2378c292ab5844f3, 0x216cc2728dc58f55, 0xc44edb49aed63690, 0xffffffff7cca23e9, !0, !0, 0x3fffffffffffffff,
]);

impl U {
    pub fn from_u64(x: u64) -> U {
        U([x, 0, 0, 0, 0, 0, 0])
    }
    pub fn from_le(b: &[u8]) -> U {
        let mut r = [0u64; 7];
        for (i, x) in b.iter().enumerate().take(56) {
            r[i / 8] |= (*x as u64) << (8 * (i % 8));
        }
        U(r)
    }
    pub fn to_le(self) -> [u8; 56] {
        let mut r = [0u8; 56];
        for i in 0..56 {
            r[i] = (self.0[i / 8] >> (8 * (i % 8))) as u8;
        }
        r
    }
    pub fn hex(self) -> String {
        let mut s: String = self.0.iter().rev().map(|l| format!("{:016x}", l)).collect();
        while s.len() > 1 && s.starts_with('0') {
            s.remove(0);
        }
        s
    }
    pub fn bit(self, i: usize) -> bool {
        (self.0[i / 64] >> (i % 64)) & 1 == 1
    }
    pub fn is_zero(self) -> bool {
        self.0 == [0; 7]
    }
    pub fn odd(self) -> bool {
        self.0[0] & 1 == 1
    }
    /// self + o modulo 2^448, carry out
    pub fn add(self, o: U) -> (U, u64) {
        let mut r = [0u64; 7];
        let mut c = 0u128;
        for i in 0..7 {
            c += self.0[i] as u128 + o.0[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        (U(r), c as u64)
    }
    /// self - o modulo 2^448, borrow out
    pub fn sub(self, o: U) -> (U, bool) {
        let mut r = [0u64; 7];
        let mut borrow = false;
        for i in 0..7 {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (x, b2) = x.overflowing_sub(borrow as u64);
            r[i] = x;
            borrow = b1 || b2;
        }
        (U(r), borrow)
    }
    pub fn shr(self, n: usize) -> U {
        let mut r = [0u64; 7];
        for i in 0..448 {
            if i + n < 448 && self.bit(i + n) {
                r[i / 64] |= 1 << (i % 64);
            }
        }
        U(r)
    }
    pub fn pow2(k: usize) -> U {
        let mut r = [0u64; 7];
        r[k / 64] |= 1 << (k % 64);
        U(r)
    }
}

fn mul_wide(a: &[u64], b: &[u64]) -> Wide {
    let mut r = [0u64; 16];
    for i in 0..a.len() {
        let mut c = 0u128;
        for j in 0..b.len() {
            if i + j >= 16 {
                debug_assert!(a[i] == 0 || b[j] == 0);
                continue;
            }
            c += r[i + j] as u128 + (a[i] as u128) * (b[j] as u128);
            r[i + j] = c as u64;
            c >>= 64;
        }
        let mut k = i + b.len();
        while c != 0 {
            c += r[k] as u128;
            r[k] = c as u64;
            c >>= 64;
            k += 1;
        }
    }
    r
}
fn add_wide(a: &mut Wide, b: &Wide) {
    let mut c = 0u128;
    for i in 0..16 {
        c += a[i] as u128 + b[i] as u128;
        a[i] = c as u64;
        c >>= 64;
    }
    assert!(c == 0);
}
/// x >> (64*limbs + bits)
fn shr_wide(x: &Wide, n: usize) -> Wide {
    let (l, b) = (n / 64, n % 64);
    let mut r = [0u64; 16];
    for i in 0..16 - l {
        r[i] = x[i + l] >> b;
        if b > 0 && i + l + 1 < 16 {
            r[i] |= x[i + l + 1] << (64 - b);
        }
    }
    r
}
fn low_bits(x: &Wide, n: usize) -> Wide {
    let mut r = *x;
    for i in 0..16 {
        if 64 * i >= n {
            r[i] = 0
        } else if 64 * (i + 1) > n {
            r[i] &= (1u64 << (n - 64 * i)) - 1
        }
    }
    r
}
fn wide_zero(x: &Wide) -> bool {
    x.iter().all(|l| *l == 0)
}
fn top7(x: &Wide) -> U {
    U(x[..7].try_into().unwrap())
}

/// x mod p by 2^448 = 2^224 + 1
pub fn mod_p(mut x: Wide) -> U {
    loop {
        let hi = shr_wide(&x, 448);
        if wide_zero(&hi) {
            break;
        }
        let mut r = low_bits(&x, 448);
        add_wide(&mut r, &hi);
        // hi * 2^224
        let mut s = [0u64; 16];
        for i in 0..12 {
            s[i + 3] |= hi[i] << 32;
            s[i + 4] |= hi[i] >> 32;
        }
        add_wide(&mut r, &s);
        x = r;
    }
    let mut r = top7(&x);
    while r >= P {
        r = r.sub(P).0;
    }
    r
}
/// x mod l by 2^446 = c (mod l)
pub fn mod_l(mut x: Wide) -> U {
    const C: [u64; 4] = [0xdc873d6d54a7bb0d, 0xde933d8d723a70aa, 0x3bb124b65129c96f, 0x8335dc16];
    loop {
        let hi = shr_wide(&x, 446);
        if wide_zero(&hi) {
            break;
        }
        let mut r = low_bits(&x, 446);
        add_wide(&mut r, &mul_wide(&hi[..10], &C));
        x = r;
    }
    let mut r = top7(&x);
    while r >= L {
        r = r.sub(L).0;
    }
    r
}
pub fn widen(x: U) -> Wide {
    let mut w = [0u64; 16];
    w[..7].copy_from_slice(&x.0);
    w
}
pub fn wide_from_le(b: &[u8]) -> Wide {
    let mut w = [0u64; 16];
    for (i, x) in b.iter().enumerate() {
        w[i / 8] |= (*x as u64) << (8 * (i % 8));
    }
    w
}

// ---- field modulo p
pub fn fred(a: U) -> U {
    mod_p(widen(a))
}
pub fn fadd(a: U, b: U) -> U {
    // operands below p
    let (s, c) = a.add(b);
    if c == 1 || s >= P {
        s.sub(P).0
    } else {
        s
    }
}
pub fn fsub(a: U, b: U) -> U {
    let (d, borrow) = a.sub(b);
    if borrow {
        d.add(P).0
    } else {
        d
    }
}
pub fn fneg(a: U) -> U {
    fsub(ZERO, a)
}
pub fn fmul(a: U, b: U) -> U {
    // schoolbook 7x7 then two folds
    let mut r = [0u64; 14];
    for i in 0..7 {
        let mut c = 0u128;
        for j in 0..7 {
            c += r[i + j] as u128 + (a.0[i] as u128) * (b.0[j] as u128);
            r[i + j] = c as u64;
            c >>= 64;
        }
        r[i + 7] = c as u64;
    }
    fold14(&r)
}
/// 14 limbs mod p: lo + hi + (h0 + h1) * 2^224 + h1, where hi = h0 + h1 * 2^224
fn fold14(r: &[u64; 14]) -> U {
    let h = &r[7..];
    let h0 = [h[0], h[1], h[2], h[3] & 0xffff_ffff];
    let h1 = [
        h[3] >> 32 | h[4] << 32, h[4] >> 32 | h[5] << 32, h[5] >> 32 | h[6] << 32, h[6] >> 32,
    ];
    // t = h0 + h1 (225 bits), shifted left by 224 = 3 limbs + 32 bits
    let mut t = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += h0[i] as u128 + h1[i] as u128;
        t[i] = c as u64;
        c >>= 64;
    }
    let sh = [t[0] << 32, t[0] >> 32 | t[1] << 32, t[1] >> 32 | t[2] << 32, t[2] >> 32 | t[3] << 32];
    let over = t[3] >> 32; // t < 2^225, so this is t >> 224
    let mut o = [0u64; 7];
    let mut c = 0u128;
    for i in 0..7 {
        c += r[i] as u128 + h[i] as u128;
        if i < 4 {
            c += h1[i] as u128;
        }
        if i >= 3 {
            c += sh[i - 3] as u128;
        }
        o[i] = c as u64;
        c >>= 64;
    }
    let mut top = c as u64 + over;
    // top * 2^448 = top * 2^224 + top
    while top != 0 {
        let mut c = top as u128;
        for i in 0..7 {
            c += o[i] as u128;
            if i == 3 {
                c += (top as u128) << 32;
            }
            o[i] = c as u64;
            c >>= 64;
        }
        top = c as u64;
    }
    let mut v = U(o);
    while v >= P {
        v = v.sub(P).0;
    }
    v
}
pub fn fsq(a: U) -> U {
    fmul(a, a)
}
pub fn fpow(a: U, e: U) -> U {
    let mut r = ONE;
    for i in (0..448).rev() {
        r = fsq(r);
        if e.bit(i) {
            r = fmul(r, a);
        }
    }
    r
}
pub fn finv(a: U) -> U {
    fpow(a, P.sub(U::from_u64(2)).0)
}
/// square root of u/v if it is a square (any root); v != 0
pub fn fsqrt_ratio(u: U, v: U) -> Option<U> {
    // p = 3 mod 4: candidate (u/v)^((p+1)/4), spelled u^3 v (u^5 v^3)^((p-3)/4)
    let u2 = fsq(u);
    let u3v = fmul(fmul(u2, u), v);
    let u5v3 = fmul(fmul(u3v, u2), fsq(v));
    let e = P.sub(U::from_u64(3)).0.shr(2);
    let x = fmul(u3v, fpow(u5v3, e));
    if fmul(v, fsq(x)) == u {
        Some(x)
    } else {
        None
    }
}

// ---- scalars modulo l
pub fn sred(a: U) -> U {
    mod_l(widen(a))
}
pub fn sadd(a: U, b: U) -> U {
    let mut w = widen(a);
    add_wide(&mut w, &widen(b));
    mod_l(w)
}
pub fn ssub(a: U, b: U) -> U {
    sadd(a, L.sub(sred(b)).0)
}
pub fn smul(a: U, b: U) -> U {
    mod_l(mul_wide(&a.0, &b.0))
}
pub fn sinv(a: U) -> U {
    let e = L.sub(U::from_u64(2)).0;
    let a = sred(a);
    let mut r = ONE;
    for i in (0..446).rev() {
        r = smul(r, r);
        if e.bit(i) {
            r = smul(r, a);
        }
    }
    r
}
pub fn swide(b: &[u8]) -> U {
    mod_l(wide_from_le(b))
}
/// Inverse of a modulo an odd prime m < 2^447, by the binary algorithm; None if m divides a.
pub fn inv_mod(a: U, m: U) -> Option<U> {
    let mut u = a;
    while u >= m {
        u = u.sub(m).0;
    }
    if u.is_zero() {
        return None;
    }
    let half = |x: U| if x.odd() { x.add(m).0.shr(1) } else { x.shr(1) };
    let minus = |x: U, y: U| if x >= y { x.sub(y).0 } else { x.add(m).0.sub(y).0 };
    let (mut v, mut x, mut y) = (m, ONE, ZERO);
    while u != ONE && v != ONE {
        while !u.odd() {
            u = u.shr(1);
            x = half(x);
        }
        while !v.odd() {
            v = v.shr(1);
            y = half(y);
        }
        if u >= v {
            u = u.sub(v).0;
            x = minus(x, y);
        } else {
            v = v.sub(u).0;
            y = minus(y, x);
        }
    }
    Some(if u == ONE { x } else { y })
}
