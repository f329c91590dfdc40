"""Input generators: passwords, byte strings, numbers, phrases, paths."""
import json, os, unicodedata
from .oracle import bip39
from . import novel
BTC, ETH, ADA = 0x80000000, 0x8000003c, 0x80000717
NETS = [BTC, ETH, ADA]
H = 0x80000000
U32 = 0xffffffff
COIN = {BTC: 0x80000000, ETH: 0x8000003c, ADA: 0x80000717}
ALPH = ["a", "b", "Z", "0", " ", "\t", "\n", "\r", "'", '"', "\\", "/", "%", "é", "e\u0301", "ß", "İ", "я", "漢", "字", "ㅋ", "\u3000", "\u200b", "😀", "👩‍👩‍👧", "\u0301", "\ufeff", "\x7f", "\x01", "\x00", "\U0010ffff",
    # one of each class and at each limit of the encoding: C1 controls, format and private characters, digits and letters with odd case maps
    "\x1b", "\x80", "\x85", "\x9f", "\xa0", "\xad", "²", "½", "\u0130", "ſ", "ǅ", "\u07ff", "\u0800", "٣", "ẞ", "\u2007", "\u2009", "\u2028", "\u202e", "\u2060", "’", "Ⅷ", "\u212a", "㍍", "\ud7ff", "\ue000", "ﬁ", "\ufdd0", "０", "\ufffd", "\uffff", "\U00010000", "𝟘"]
PW_LENS = [0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 71, 72, 73, 111, 112, 119, 120, 127, 128, 129, 130, 191, 192, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 5000]
def password(rng):
    """any Unicode text; never ending in NUL (HMAC pads keys with NUL, so trailing NULs are equivalent)"""
    m = rng.randrange(6)
    if novel.ON and rng.randrange(3) == 0:
        s = novel.text(rng, rng.choice(["", "password", "".join(rng.choice(ALPH) for _ in range(rng.randrange(20)))]))
    elif m == 0: s = "".join(chr(rng.randrange(33, 127)) for _ in range(rng.choice(PW_LENS)))
    elif m == 1: s = "".join(rng.choice(ALPH) for _ in range(rng.randrange(0, 40)))
    elif m == 2: s = "".join(chr(rng.choice([rng.randrange(1, 0x80), rng.randrange(0x80, 0x800), rng.randrange(0x800, 0xd800), rng.randrange(0xe000, 0x110000)])) for _ in range(rng.randrange(0, 60)))
    elif m == 3: s = rng.choice(["", " ", "  ", "a", "A", "0", "\u00e9", "e\u0301", "password", "Password", "password ", " password", "pass\x00word", "\x00a"])
    elif m == 4: s = "".join(rng.choice(ALPH) for _ in range(rng.choice(PW_LENS)))
    else: s = "%08x" % rng.getrandbits(32)
    while s.endswith("\0"): s = s[:-1] + "x"
    return s
def anagrams(rng, pw):
    """the same characters in another order, and texts of the same length and sum or exclusive or of characters"""
    l = list(pw); i = rng.randrange(len(l)); j = rng.randrange(len(l)); a = l[:]; a[i], a[j] = a[j], a[i]; h = l[:]; rng.shuffle(h); k = rng.randrange(len(l)); b = l[:]; x = l[:]
    if i != j and 40 < ord(l[i]) < 120 and 40 < ord(l[j]) < 120: b[i], b[j] = chr(ord(l[i]) + 1), chr(ord(l[j]) - 1); x[i], x[j] = chr(ord(l[i]) ^ 1), chr(ord(l[j]) ^ 1)
    return ["".join(y) for y in (a, h, l[k:] + l[:k], l[-1:] + l[1:-1] + l[:1], b, x)]
def other_password(rng, pw):
    """a different password, often a near miss (never HMAC-equivalent)"""
    c = []
    if pw:
        c += [pw[:-1], pw[1:], pw + pw[-1], pw.swapcase(), pw.upper(), pw.lower(), pw.strip(), pw[::-1], pw[:len(pw) // 2], pw[:-1] + chr(ord(pw[-1]) ^ 1 if 33 < ord(pw[-1]) < 126 else 65)]
        i = rng.randrange(len(pw)); c.append(pw[:i] + ("x" if pw[i] != "x" else "y") + pw[i + 1:])
        c += anagrams(rng, pw)
        for n in (8, 16, 32, 56, 64, 72, 127, 128, 255, 256):
            if len(pw) > n: c.append(pw[:n])
            b = pw.encode()
            if len(b) > n: c.append(b[:n].decode(errors="ignore"))
        c += [unicodedata.normalize(f, pw) for f in ("NFC", "NFD", "NFKC", "NFKD")]
        c.append(pw.encode("ascii", "ignore").decode()); c.append(pw.replace("\0", "")); c.append(pw.split("\0")[0])
        c.append(" ".join(pw.split()))
    if novel.ON:
        c += [novel.text(rng, pw) for _ in range(4)] + [pw.replace(x, "", 1) for x in novel.TEXTS if x in pw]
        for n in novel.SIZES:
            if len(pw) > n: c.append(pw[:n])
    c += [pw + " ", " " + pw, pw + "\n", pw + "x", pw + pw, "", " ", password(rng), "\ufeff" + pw]
    for _ in range(20):
        o = rng.choice(c)
        try: o.encode()
        except UnicodeEncodeError: continue
        if o.encode().rstrip(b"\0") != pw.encode().rstrip(b"\0") and not o.endswith("\0"): return o
    return pw + "!"
LENS = [0, 1, 2, 3, 11, 12, 13, 15, 16, 17, 27, 28, 29, 31, 32, 33, 43, 44, 45, 47, 48, 49, 59, 60, 61, 63, 64, 65, 76, 77, 78, 79, 80, 95, 96, 97, 127, 128, 129, 135, 136, 137, 191, 192, 193, 255, 256, 257, 271, 272, 273, 511, 512, 513, 1023, 1024, 1025]
BIG = [4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537, 131072, 262145, 1048577]
def rbytes(rng, n):
    b = rng.getrandbits(8 * n).to_bytes(n, "big") if n else b""
    return novel.shape(rng, b) if novel.ON and rng.randrange(4) == 0 else b
def stream(rng, n=600):
    """randomness for one sealing: plain, or with a salt or nonce that has a rare shape (zeros or ones at either end, all
    alike, ASCII, both halves alike); always followed by plain bytes, for code that draws again"""
    b = bytearray(rbytes(rng, n))
    for a, z in ((0, 32), (32, 44), (0, 44)):
        if rng.randrange(2): continue
        k = rng.choice([1, 2, 3, 4, 8, (z - a) // 2, z - a - 1, z - a]); c = rng.choice([0, 0, 0, 0xff, 0x0a, 0x20, 0x41, 0x80, 1])
        m = rng.randrange(4)
        if m == 0: b[a:a + k] = bytes([c]) * k
        elif m == 1: b[z - k:z] = bytes([c]) * k
        elif m == 2: i = rng.randrange(a, z - k + 1); b[i:i + k] = bytes([c]) * k
        else: h = (z - a) // 2; b[a + h:a + 2 * h] = b[a:a + h]
    return bytes(b)
def data(rng, maxlen=1025):
    m = rng.randrange(5)
    if novel.SIZES and rng.randrange(4) == 0: n = min(rng.choice([rng.choice(novel.SIZES), novel.multiple(rng)]), maxlen)
    else: n = rng.choice([l for l in LENS if l <= maxlen]) if m < 3 else rng.randrange(0, min(maxlen, 400) + 1)
    k = rng.randrange(6)
    if k == 0: return bytes(n)
    if k == 1: return b"\xff" * n
    if k == 2: return bytes(n - 1) + b"\x01" if n else b""
    return rbytes(rng, n)
def seed64(rng):
    k = rng.randrange(8)
    if k == 0: return bytes(64)
    if k == 1: return b"\xff" * 64
    if k == 2: return bytes(32) + rbytes(rng, 32)
    if k == 3: return rbytes(rng, 32) + bytes(32)
    return rbytes(rng, 64)
def phrase(rng, words, lang):
    """a phrase of list words; sometimes with a valid checksum"""
    if rng.randrange(2): return bip39.phrase(rbytes(rng, bip39.SIZES[words] // 8), lang)
    W = bip39.WORDS[lang]
    k = rng.randrange(4)
    if k == 0: return " ".join([rng.choice(W)] * words)
    return " ".join(rng.choice(W) for _ in range(words))
SOFT = [0, 1, 2, 9, 10, 127, 128, 255, 256, 65535, 65536, 0x00ffffff, 0x01000000, 0x40000000, 0x7ffffffe, 0x7fffffff]
def soft(rng):
    if novel.NUMS and rng.randrange(3) == 0: return novel.number(rng) % H
    return rng.choice(SOFT) if rng.randrange(3) else rng.getrandbits(31)
def hard(rng): return soft(rng) + H
def index(rng): return rng.choice([soft, hard])(rng)
PURPOSES = [44 + H, 49 + H, 84 + H]
def path(rng, net):
    """a path the network accepts"""
    p = 44 + H
    if net == BTC: p = rng.choice(PURPOSES + [44, 49, 84, 0, H, U32, rng.getrandbits(32)])
    return [p, COIN[net], hard(rng), rng.randrange(2), soft(rng)]
EDGE = [0, 1, 2, 43, 44, 45, 49, 60, 84, 0x717, H - 1, H, H + 1, H + 2, H + 43, H + 44, H + 45, H + 49, H + 60, H + 84, H + 0x717, U32 - 1, U32]
def message(rng):
    k = rng.randrange(8)
    if novel.SIZES and k > 5: return rbytes(rng, rng.choice([rng.choice(novel.SIZES), novel.multiple(rng)]))
    if k == 0: return data(rng)
    n = rng.choice([0, 1, 31, 32, 33, 64, 71, 72, 134, 135, 136, 137, 200, 271, 272, 273])
    return rbytes(rng, n)
if novel.ON:
    EDGE = EDGE + [x for x in novel.NUMS if x not in EDGE][:40]; SOFT = SOFT + [x % H for x in novel.NUMS]
    LENS = LENS + [x for x in novel.SIZES if x < 2000]; BIG = BIG + [x for x in novel.SIZES if x >= 2000]; PW_LENS = PW_LENS + [x for x in novel.SIZES if x <= 5000]

def rare(nets, i, n):
    """one shard's share of the mined cases (rare.json): standard values with two zero or ff bytes at an end
    [what, network, stored key, path, message or None]; only inputs, their outcome is judged like any other"""
    l = [x for x in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "rare.json"))) if x[1] in nets]
    return [(w, net, bytes.fromhex(d), p, m.encode() if m else None) for w, net, d, p, m in l[i::n]]
