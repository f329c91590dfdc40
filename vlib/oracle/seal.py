"""Independent implementation of the sealed-data format:
salt(32) | nonce(12) | tag(16) | ciphertext, ChaCha20-Poly1305 (RFC 8439), no AAD,
key = PBKDF2-HMAC-SHA512(password, salt, ITER, 32)."""
import hashlib, struct
ITER = 19162
FAST_ITER = 3           # the guarded build (cfg keychain_verif_fast_kdf)
M = 0xffffffff
def _block(key, ctr, nonce):
    s = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574, *struct.unpack("<8I", key), ctr, *struct.unpack("<3I", nonce)]
    x0,x1,x2,x3,x4,x5,x6,x7,x8,x9,x10,x11,x12,x13,x14,x15 = s
    def q(a, b, c, d):
        a = (a + b) & M; d ^= a; d = (d << 16 | d >> 16) & M
        c = (c + d) & M; b ^= c; b = (b << 12 | b >> 20) & M
        a = (a + b) & M; d ^= a; d = (d << 8 | d >> 24) & M
        c = (c + d) & M; b ^= c; b = (b << 7 | b >> 25) & M
        return a, b, c, d
    for _ in range(10):
        x0,x4,x8,x12 = q(x0,x4,x8,x12); x1,x5,x9,x13 = q(x1,x5,x9,x13)
        x2,x6,x10,x14 = q(x2,x6,x10,x14); x3,x7,x11,x15 = q(x3,x7,x11,x15)
        x0,x5,x10,x15 = q(x0,x5,x10,x15); x1,x6,x11,x12 = q(x1,x6,x11,x12)
        x2,x7,x8,x13 = q(x2,x7,x8,x13); x3,x4,x9,x14 = q(x3,x4,x9,x14)
    return struct.pack("<16I", *[(a + b) & M for a, b in zip(s, (x0,x1,x2,x3,x4,x5,x6,x7,x8,x9,x10,x11,x12,x13,x14,x15))])
def chacha(key, nonce, data, ctr=1):
    ks = b"".join(_block(key, ctr + i, nonce) for i in range((len(data) + 63) // 64))[:len(data)]
    return (int.from_bytes(ks, "little") ^ int.from_bytes(data, "little")).to_bytes(len(data), "little")
def poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0ffffffc0ffffffc0ffffffc0fffffff
    s = int.from_bytes(key[16:], "little"); acc = 0
    for i in range(0, len(msg), 16):
        acc = (acc + int.from_bytes(msg[i:i + 16] + b"\1", "little")) * r % (2**130 - 5)
    return ((acc + s) % 2**128).to_bytes(16, "little")
def tag(key, nonce, ct):
    pad = b"\0" * (-len(ct) % 16)
    return poly1305(_block(key, 0, nonce)[:32], ct + pad + struct.pack("<QQ", 0, len(ct)))
_cache = {}
def kdf(pw, salt, it):
    k = (pw, salt, it)
    if k not in _cache:
        if len(_cache) > 20000: _cache.clear()
        _cache[k] = hashlib.pbkdf2_hmac("sha512", pw, salt, it, 32)
    return _cache[k]
def _evp():
    """ChaCha20-Poly1305 of the installed OpenSSL, for large data; None where it is not there or disagrees with the code above"""
    import ctypes as c
    try:
        L = c.CDLL("libcrypto.so.3")
        for f in ("EVP_CIPHER_CTX_new", "EVP_chacha20_poly1305"): getattr(L, f).restype = c.c_void_p; getattr(L, f).argtypes = []
        L.EVP_CIPHER_CTX_free.argtypes = [c.c_void_p]; L.EVP_CIPHER_CTX_free.restype = None
        L.EVP_CipherInit_ex.argtypes = [c.c_void_p, c.c_void_p, c.c_void_p, c.c_char_p, c.c_char_p, c.c_int]
        L.EVP_CipherUpdate.argtypes = [c.c_void_p, c.c_char_p, c.POINTER(c.c_int), c.c_char_p, c.c_int]
        L.EVP_CipherFinal_ex.argtypes = [c.c_void_p, c.c_char_p, c.POINTER(c.c_int)]
        L.EVP_CIPHER_CTX_ctrl.argtypes = [c.c_void_p, c.c_int, c.c_int, c.c_char_p]
        def run(key, nonce, data, t=None):
            x = L.EVP_CIPHER_CTX_new(); n = c.c_int(0); out = c.create_string_buffer(len(data) + 16)
            try:
                if L.EVP_CipherInit_ex(x, L.EVP_chacha20_poly1305(), None, key, nonce, int(t is None)) != 1: raise OSError("init")
                if t is not None: L.EVP_CIPHER_CTX_ctrl(x, 0x11, 16, t)
                if L.EVP_CipherUpdate(x, out, c.byref(n), data, len(data)) != 1: raise OSError("update")
                res = out.raw[:len(data)]
                if L.EVP_CipherFinal_ex(x, out, c.byref(n)) != 1: return None
                if t is not None: return res
                t2 = c.create_string_buffer(16); L.EVP_CIPHER_CTX_ctrl(x, 0x10, 16, t2); return res, t2.raw
            finally: L.EVP_CIPHER_CTX_free(x)
        for n in (1, 64, 1000):
            k, no, d = bytes(range(n % 7, n % 7 + 32)), bytes(range(12)), bytes(i * 7 & 255 for i in range(n)); ct = chacha(k, no, d); t = tag(k, no, ct)
            if run(k, no, d) != (ct, t) or run(k, no, ct, t) != d or run(k, no, ct, bytes(16)) is not None: return None
        return run
    except (OSError, AttributeError): return None
_fast = []
def fast(n):
    if n < 2048: return None
    if not _fast: _fast.append(_evp())
    return _fast[0]
def seal(data, pw, salt, nonce, it=ITER):
    key = kdf(pw, salt, it); f = fast(len(data))
    if f:
        ct, t = f(key, nonce, data); return salt + nonce + t + ct
    ct = chacha(key, nonce, data)
    return salt + nonce + tag(key, nonce, ct) + ct
def unseal(b, pw, it=ITER):
    if len(b) < 60: return None
    salt, nonce, t, ct = b[:32], b[32:44], b[44:60], b[60:]
    key = kdf(pw, salt, it); f = fast(len(ct))
    if f: return f(key, nonce, ct, t)
    if tag(key, nonce, ct) != t: return None
    return chacha(key, nonce, ct)
