"""Independent BIP32-Ed25519 (V2 / Icarus style derivation) and Ed25519 signatures."""
import hashlib, hmac
P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, -1, P) % P
I2 = pow(2, (P - 1) // 4, P)
H = 0x80000000
def _xrec(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, -1, P) % P
    if x2 == 0: return None if sign else 0
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P: x = x * I2 % P
    if (x * x - x2) % P: return None
    if x & 1 != sign: x = P - x
    return x
BY = 4 * pow(5, -1, P) % P
BX = _xrec(BY, 0)
ID = (0, 1, 1, 0)
def _add(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P; b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P; d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return e * f % P, g * h % P, f * g % P, e * h % P
_T = None
def _table():
    global _T
    if _T is None:
        t = []; base = (BX, BY, 1, BX * BY % P)
        for _ in range(33):
            row = [ID]; acc = ID
            for _ in range(255):
                acc = _add(acc, base)
                zi = pow(acc[2], -1, P); x, y = acc[0] * zi % P, acc[1] * zi % P
                acc = (x, y, 1, x * y % P); row.append(acc)
            t.append(row); base = _add(acc, base)
        _T = t
    return _T
def mul_b(k):
    t = _table(); acc = ID; i = 0
    while k:
        d = k & 255
        if d: acc = _add(acc, t[i][d])
        k >>= 8; i += 1
    return acc
def mul(k, p):
    acc = ID
    for bit in bin(k)[2:]:
        acc = _add(acc, acc)
        if bit == "1": acc = _add(acc, p)
    return acc
def enc(p):
    zi = pow(p[2], -1, P); x, y = p[0] * zi % P, p[1] * zi % P
    return (y | (x & 1) << 255).to_bytes(32, "little")
def dec(b):
    y = int.from_bytes(b, "little"); sign = y >> 255; y &= (1 << 255) - 1
    if y >= P: return None
    x = _xrec(y, sign)
    return None if x is None else (x, y, 1, x * y % P)

class X:
    __slots__ = ("kl", "kr", "cc", "_a")
    def __init__(s, kl, kr, cc): s.kl, s.kr, s.cc, s._a = kl, kr, cc, None
    @property
    def A(s):
        if s._a is None: s._a = enc(mul_b(s.kl % L))
        return s._a
    def child(s, i):
        ib = i.to_bytes(4, "little")
        if i >= H:
            b = s.kl.to_bytes(32, "little") + s.kr.to_bytes(32, "little") + ib
            z = hmac.digest(s.cc, b"\0" + b, "sha512"); c = hmac.digest(s.cc, b"\1" + b, "sha512")
        else:
            b = s.A + ib
            z = hmac.digest(s.cc, b"\2" + b, "sha512"); c = hmac.digest(s.cc, b"\3" + b, "sha512")
        kl = s.kl + 8 * int.from_bytes(z[:28], "little")
        kr = (s.kr + int.from_bytes(z[32:], "little")) % 2**256
        return X(kl % 2**256, kr, c[32:])
    def path(s, p):
        x = s
        for i in p: x = x.child(i)
        return x
    def pub(s): return s.A + s.cc
    def sign(s, msg):
        r = int.from_bytes(hashlib.sha512(s.kr.to_bytes(32, "little") + msg).digest(), "little") % L
        R = enc(mul_b(r))
        k = int.from_bytes(hashlib.sha512(R + s.A + msg).digest(), "little") % L
        return R + ((r + k * s.kl) % L).to_bytes(32, "little")
    def verify_known(s, msg, sig):
        """[S]B == R + [k]A with A = [kl]B  <=>  R == enc([S - k*kl]B)"""
        if len(sig) != 64: return False
        S = int.from_bytes(sig[32:], "little")
        if S >= L: return False
        k = int.from_bytes(hashlib.sha512(sig[:32] + s.A + msg).digest(), "little") % L
        return enc(mul_b((S - k * s.kl) % L)) == sig[:32]

def master_data(seed):
    h = bytearray(hashlib.sha512(seed[:32]).digest())
    h[0] &= 0xf8; h[31] &= 0x1f; h[31] |= 0x40
    return bytes(h) + seed[32:64]
def valid(data):
    return len(data) == 96 and data[0] & 7 == 0 and data[31] & 0xe0 == 0x40
def parse(data):
    return X(int.from_bytes(data[:32], "little"), int.from_bytes(data[32:64], "little"), data[64:96])
def verify_pub(A, msg, sig):
    p = dec(A); r = dec(sig[:32]); S = int.from_bytes(sig[32:], "little")
    if p is None or r is None or S >= L: return False
    k = int.from_bytes(hashlib.sha512(sig[:32] + A + msg).digest(), "little") % L
    return enc(mul_b(S)) == enc(_add(r, mul(k, p)))
