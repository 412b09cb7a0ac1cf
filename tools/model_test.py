#!/usr/bin/env python3
"""Compares the simulator's reference model with Python integers (affine textbook formulas) and
with published vectors. Usage: python3 tools/model_test.py (after build.sh)."""
import subprocess, os, sys
p = 2**448 - 2**224 - 1
l = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d
d = -39081 % p
inv = lambda x: pow(x, -1, p) if x % p else 0
le = lambda h: int.from_bytes(bytes.fromhex(h), "little")
def add(P, Q):
    (a, b), (c, e) = P, Q
    k = d*a*b*c*e
    return ((a*e+b*c)*inv(1+k) % p, (b*e-a*c)*inv(1-k) % p)
def mul(k, P):
    R = (0, 1)
    for bit in bin(k)[2:]:
        R = add(R, R)
        if bit == "1": R = add(R, P)
    return R
def sqrt(x):
    r = pow(x, (p+1)//4, p)
    return r if r*r % p == x % p else None
def dec(h):
    b = bytes.fromhex(h)
    if b[56] & 0x7f: return None
    y = int.from_bytes(b[:56], "little")
    if y >= p: return None
    x = sqrt((1-y*y)*inv(1-d*y*y))
    if x is None: return None
    s = b[56] >> 7
    if x == 0 and s: return None
    return ((x if x & 1 == s else p-x), y)
def enc(P):
    return (P[1].to_bytes(56, "little") + bytes([0x80*(P[0] & 1)])).hex()
def neg(x): return x & 1
def ab(x): return p-x if x & 1 else x
SMD = ab(sqrt(39081)); ISMD = inv(SMD)
def isr(v):
    r = pow(v, (p-3)//4, p)
    return (v*r*r % p == 1, ab(r))
def ddec(h):   # RFC 9496 5.3.1
    s = le(h)
    if s >= p or s & 1: return None
    ss = s*s % p; u1 = (1+ss) % p; u2 = (u1*u1 - 4*d*ss) % p
    ok, i = isr(u2*u1*u1 % p)
    if not ok: return None
    u3 = ab(2*s*i*u1*SMD % p)
    return (u3*i*u2*ISMD % p, (1-ss)*i*u1 % p)
def denc(P):   # RFC 9496 5.3.2
    x0, y0 = P; z0 = 1; t0 = x0*y0 % p
    u1 = (x0+t0)*(x0-t0) % p
    _, i = isr(u1*(1-d)*x0*x0 % p)
    ratio = ab(i*u1*SMD % p)
    u2 = (ISMD*ratio*z0 - t0) % p
    return ab((1-d)*i*x0*u2 % p).to_bytes(56, "little").hex()
def x448(k, u):
    x1 = u % p; x2, z2, x3, z3 = 1, 0, x1, 1; sw = 0
    for t in reversed(range(448)):
        kt = k >> t & 1
        if sw ^ kt: x2, x3, z2, z3 = x3, x2, z3, z2
        sw = kt
        A = x2+z2; AA = A*A % p; B = x2-z2; BB = B*B % p; E = AA-BB
        C = x3+z3; D = x3-z3; DA = D*A % p; CB = C*B % p
        x3 = (DA+CB)**2 % p; z3 = x1*(DA-CB)**2 % p; x2 = AA*BB % p; z2 = E*(AA+39081*E) % p
    if sw: x2, x3, z2, z3 = x3, x2, z3, z2
    return x2*inv(z2) % p
# published vectors for the Python side itself
def rfc7748():
    k = bytes.fromhex("3d262fddf9ec8e88495266fea19a34d28882acef045104d0d1aae121700a779c984c24f8cdd78fbff44943eba368f54b29259a4f1c600ad3")
    u = bytes.fromhex("06fce640fa3487bfda5f6cf2d5263f8aad88334cbd07437f020f08f9814dc031ddbdc38c19c6da2583fa5429db94ada18aa7a7fb4ef8a086")
    kk = bytearray(k); kk[0] &= 252; kk[55] |= 128
    r = x448(int.from_bytes(kk, "little"), int.from_bytes(u, "little")).to_bytes(56, "little").hex()
    assert r == "ce3e4ff95a60dc6697da1db1d85e6afbdf79b50a2412d7546d5f239fe14fbaadeb445fc66a01b0779d98223961111e21766282f73dd96b6f", r
rfc7748()
DECAF = ["00"*56, "66"*28+"33"*28,
 "c898eb4f87f97c564c6fd61fc7e49689314a1f818ec85eeb3bd5514ac816d38778f69ef347a89fca817e66defdedce178c7cc709b2116e75"]
n = 0
g = 0
out = subprocess.run([os.path.join(os.path.dirname(os.path.abspath(__file__)), "../target/bin/sim"), "model"], capture_output=True, text=True, check=True).stdout
H = lambda s: int(s, 16)
for line in out.splitlines():
    t = line.split(); k = t[0]; n += 1
    if k == "s":
        a, b = H(t[1]), H(t[2])
        ok = [H(x) for x in t[3:]] == [(a+b) % l, (a-b) % l, a*b % l, pow(a, l-2, l)]
    elif k == "f":
        a, b = H(t[1]), H(t[2])
        ok = a < p and b < p and [H(x) for x in t[3:]] == [(a+b) % p, (a-b) % p, a*b % p, inv(a)]
    elif k == "r": ok = H(t[2]) == H(t[1]) % p
    elif k == "w": ok = H(t[2]) == le(t[1]) % l
    elif k == "e":
        P, Q, m = dec(t[1]), dec(t[2]), H(t[3])
        ok = t[4] == enc(add(P, Q)) and t[5] == enc(mul(m, P)) and t[6] == str(int(mul(l, P) == (0, 1))) and H(t[7]) == P[1]**2*inv(P[0]**2) % p
    elif k == "x": ok = le(t[3]) == x448(H(t[1]), le(t[2]))
    elif k == "d": ok = denc(ddec(t[1])) == t[1] and denc(mul(H(t[2]), ddec(t[1]))) == t[3]
    elif k == "v": ok = (ddec(t[1]) is not None) == (t[2] == "1")
    elif k == "y":
        P = dec(t[1]); ok = (enc(P) if P else "-") == t[2] and (P is None or t[2] == t[1])
    elif k == "g":
        ok = g >= len(DECAF) or DECAF[g] == t[1]; g += 1
    elif k == "i":
        a, m, i, j = map(H, t[1:])
        ok = m in (l, (p+1)//2-l) and pow(2, m-1, m) == 1 and (i*a % m == 1 if a % m else i == 0) and (j*a % (4*m) == 1 if a % m and a & 1 else j == 0)
    elif k == "o": ok = t[1:] == ["1", "1"]
    if not ok:
        print("MISMATCH", line); sys.exit(1)
print(f"{n} lines agree")
