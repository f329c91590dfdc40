"""Independent secp256k1 / BIP-32 / ECDSA reference (Python integers, fixed-base table)."""
import hashlib, hmac
from .keccak import keccak256
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
H = 0x80000000

def _add(a, b):
    if a is None: return b
    if b is None: return a
    x1, y1 = a; x2, y2 = b
    if x1 == x2:
        if (y1 + y2) % P == 0: return None
        l = 3 * x1 * x1 * pow(2 * y1, -1, P) % P
    else:
        l = (y2 - y1) * pow(x2 - x1, -1, P) % P
    x3 = (l * l - x1 - x2) % P
    return x3, (l * (x1 - x3) - y1) % P

_T = None
def _table():
    global _T
    if _T is None:
        t = []; base = (GX, GY)
        for _ in range(32):
            row = [None]; acc = None
            for _ in range(255):
                acc = _add(acc, base); row.append(acc)
            t.append(row)
            base = _add(acc, base)
        _T = t
    return _T

def mul_g(k):
    """k*G, affine, k in 1..N-1 (Jacobian accumulation with mixed additions)."""
    t = _table(); X = Y = 0; Z = 0
    i = 0
    while k:
        d = k & 255
        if d:
            x2, y2 = t[i][d]
            if Z == 0:
                X, Y, Z = x2, y2, 1
            else:
                ZZ = Z * Z % P
                U2 = x2 * ZZ % P
                S2 = y2 * Z * ZZ % P
                h = (U2 - X) % P; r = (S2 - Y) % P
                if h == 0:
                    if r == 0:
                        zi = pow(Z, -1, P); q = _add((X * zi * zi % P, Y * zi * zi * zi % P), (x2, y2))
                        X, Y, Z = q[0], q[1], 1
                    else:
                        X = Y = Z = 0
                else:
                    HH = h * h % P; HHH = h * HH % P; V = X * HH % P
                    X3 = (r * r - HHH - 2 * V) % P
                    Y = (r * (V - X3) - Y * HHH) % P
                    X = X3; Z = Z * h % P
        k >>= 8; i += 1
    if Z == 0: return None
    zi = pow(Z, -1, P); z2 = zi * zi % P
    return X * z2 % P, Y * z2 * zi % P

def ser_u(pt): return b"\x04" + pt[0].to_bytes(32, "big") + pt[1].to_bytes(32, "big")
def ser_c(pt): return bytes([2 + (pt[1] & 1)]) + pt[0].to_bytes(32, "big")
def h160(b): return hashlib.new("ripemd160", hashlib.sha256(b).digest()).digest()

class X:
    """A BIP-32 private node."""
    __slots__ = ("k", "cc", "depth", "fp", "idx", "_pt")
    def __init__(s, k, cc, depth=0, fp=b"\0" * 4, idx=0):
        s.k, s.cc, s.depth, s.fp, s.idx, s._pt = k, cc, depth, fp, idx, None
    @property
    def pt(s):
        if s._pt is None: s._pt = mul_g(s.k)
        return s._pt
    def ser(s):
        d = bytes([s.depth]) + s.fp + s.idx.to_bytes(4, "big") + s.cc + s.k.to_bytes(32, "big")
        return d + hashlib.sha256(hashlib.sha256(d).digest()).digest()[:4]
    def child(s, i, need_fp=True):
        data = (b"\0" + s.k.to_bytes(32, "big") if i >= H else ser_c(s.pt)) + i.to_bytes(4, "big")
        I = hmac.digest(s.cc, data, "sha512")
        il = int.from_bytes(I[:32], "big")
        k = (il + s.k) % N
        assert 0 < il < N and k
        return X(k, I[32:], s.depth + 1, h160(ser_c(s.pt))[:4] if need_fp else b"\0" * 4, i)
    def path(s, p, need_fp=False):
        x = s
        for i in p: x = x.child(i, need_fp)
        return x

def master(seed):
    I = hmac.digest(b"Bitcoin seed", seed, "sha512")
    return X(int.from_bytes(I[:32], "big"), I[32:])

def parse(data):
    """stored key blob -> X, or None if malformed"""
    if len(data) != 77: return None
    if hashlib.sha256(hashlib.sha256(data[:73]).digest()).digest()[:4] != data[73:]: return None
    k = int.from_bytes(data[41:73], "big")
    if not 0 < k < N: return None
    return X(k, data[9:41], data[0], data[1:5], int.from_bytes(data[5:9], "big"))

def blob(depth, fp, idx, cc, kbytes):
    d = bytes([depth]) + fp + idx.to_bytes(4, "big") + cc + kbytes
    return d + hashlib.sha256(hashlib.sha256(d).digest()).digest()[:4]

def nonce_point(k, msg, sig):
    """The nonce point R = kG of a (r,s) signature known to be by secret k, or None if r,s out of range."""
    r = int.from_bytes(sig[:32], "big"); s = int.from_bytes(sig[32:64], "big")
    if not (0 < r < N and 0 < s < N): return None
    z = int.from_bytes(keccak256(msg), "big")
    u = (z + r * k) * pow(s, -1, N) % N
    return mul_g(u) if u else None

def verify_known(k, msg, sig):
    """Is sig (64 or 65 bytes) a valid ECDSA signature over keccak(msg) for secret k's public key?
    (u = s^-1(z + rk); valid iff x(uG) mod N = r: the same equation a public verifier checks.)
    For 65 bytes the recovery id must recover the same key."""
    if len(sig) not in (64, 65): return False
    R = nonce_point(k, msg, sig)
    if R is None: return False
    r = int.from_bytes(sig[:32], "big")
    if R[0] % N != r: return False
    if len(sig) == 65:
        want = (R[1] & 1) | (2 if R[0] >= N else 0)
        return sig[64] == want
    return True

def rfc6979_sign(k, msg):
    z = keccak256(msg); x = k.to_bytes(32, "big")
    V = b"\1" * 32; K = b"\0" * 32
    K = hmac.digest(K, V + b"\0" + x + z, "sha256"); V = hmac.digest(K, V, "sha256")
    K = hmac.digest(K, V + b"\1" + x + z, "sha256"); V = hmac.digest(K, V, "sha256")
    while True:
        V = hmac.digest(K, V, "sha256")
        n = int.from_bytes(V, "big")
        if 0 < n < N: break
        K = hmac.digest(K, V + b"\0", "sha256"); V = hmac.digest(K, V, "sha256")
    R = mul_g(n); r = R[0] % N
    s = (int.from_bytes(z, "big") + r * k) * pow(n, -1, N) % N
    rec = R[1] & 1
    if s > N // 2: s = N - s; rec ^= 1
    return r.to_bytes(32, "big") + s.to_bytes(32, "big") + bytes([rec])
