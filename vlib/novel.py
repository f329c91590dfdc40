"""Inputs from the code itself: literals of /repo's sources that the pinned sources do not have (literals.json) are
given to the generators, as fuzzers do with a dictionary. It only steers which inputs are tried; no verdict looks at it.
On the pinned tree there are none."""
import collections, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = "/repo"
CRATES = ("bip39", "secp256k1_bip32", "keychain", "keychain-c")
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?'((?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)))'|(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w])''', re.S)
def unescape(s):
    def f(m):
        x = m.group(1)
        if x[0] == "x": return chr(int(x[1:], 16))
        if x[0] == "u": return chr(int(x[2:-1].replace("_", ""), 16))
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x, x.strip() if x[:1] == "\n" else x)
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)", f, s, flags=re.S)
def scan():
    """file -> {literal: count}"""
    out = {}
    for c in CRATES:
        for d, ds, fs in os.walk(os.path.join(REPO, c, "src")):
            ds[:] = [x for x in ds if x not in ("dicts", "test_vectors")]
            for f in fs:
                if not f.endswith(".rs"): continue
                p = os.path.join(d, f); n = collections.Counter()
                try: t = open(p, errors="replace").read()
                except OSError: continue
                t = t.split("#[cfg(test)]\nmod ")[0]
                for m in TOK.finditer(t):
                    if m.group(0).startswith("/"): continue
                    if m.group(5): n["i:%d" % int(m.group(5).replace("_", ""), 0)] += 1
                    else:
                        s = m.group(2) if m.group(2) is not None else unescape(m.group(3) or m.group(4) or "")
                        if 0 < len(s) <= 200: n["s:" + s] += 1
                for m in re.finditer(r"\bas ([iu](?:8|16|32|64|size))\b|\.((?:trim|to_lowercase|to_uppercase|to_ascii|eq_ignore|split_|is_|leading_|trailing_|wrapping_|saturating_|rotate_)\w*)", t): n["m:" + (m.group(1) or m.group(2))] += 1
                out[os.path.relpath(p, REPO)] = dict(n)
    return out
def novel():
    try: base = json.load(open(os.path.join(V, "vlib", "literals.json")))
    except OSError: base = {}
    ints, strs = set(), set()
    hints = {"u8": [255, 256], "i8": [127, 128], "u16": [65535, 65536], "i16": [32767, 32768], "i32": [(1 << 31) - 1], "trim": [" ", "\t", "\n", "\u3000"], "split_": [" ", "\n", "\u3000"],
             "to_": ["A", "\u00c9"], "eq_": ["A"], "is_": ["\u00e9", "A", " ", "0"], "leading_": [255, 128], "trailing_": [256]}
    for f, n in scan().items():
        b = base.get(f, {})
        for k, c in n.items():
            if c <= b.get(k, 0): continue
            if k[0] == "m":
                for h, vs in hints.items():
                    if k[2:].startswith(h):
                        for v in vs: (strs if isinstance(v, str) else ints).add(v)
            else: (ints.add(int(k[2:])) if k[0] == "i" else strs.add(k[2:]))
    return sorted(ints), sorted(strs)
try: INTS, STRS = novel()
except Exception: INTS, STRS = [], []
INTS = [i for i in INTS if i > 1][:60]; STRS = STRS[:60]
NUMS = []                                     # numbers near and derived from the literals
for f in (lambda v: v, lambda v: v - 1, lambda v: v + 1, lambda v: v + (1 << 31), lambda v: 2 * v, lambda v: 1 << min(v, 40), lambda v: 8 * v, lambda v: v // 8, lambda v: 3 * v, lambda v: (1 << min(v, 40)) - 1,
          lambda v: v - 60, lambda v: v + 60, lambda v: v << 8, lambda v: v << 16, lambda v: v << 24, lambda v: v // 3 * 32, lambda v: v // 32 * 3, lambda v: v * v):
    for v in INTS:
        x = f(v)
        if 0 <= x < 1 << 32 and x not in NUMS: NUMS.append(x)
SIZES = [x for x in NUMS if x <= 70000]
BYTES = [x & 255 for x in INTS if x < 65536] + [s.encode()[0] for s in STRS]
TEXTS = STRS + [chr(v) for v in INTS if 0 < v < 0x110000 and not 0xd800 <= v < 0xe000]
ON = bool(NUMS or TEXTS)
def off():
    global ON
    for l in (INTS, STRS, NUMS, SIZES, BYTES, TEXTS): l.clear()
    ON = False
def number(rng): return rng.choice(NUMS) if NUMS else 0
def multiple(rng): return min(rng.choice(INTS) * rng.randrange(1, 9), 70000) if INTS else 0
def shape(rng, b):
    """the same bytes with a literal planted somewhere"""
    if not b or not ON: return b
    b = bytearray(b); k = rng.randrange(5)
    if k < 2 and BYTES:
        b[rng.choice([0, -1, rng.randrange(len(b))])] = rng.choice(BYTES)
        if k: b[rng.randrange(len(b))] = rng.choice(BYTES)
    elif k == 2 and NUMS:
        v = rng.choice(NUMS); w = rng.choice([1, 2, 4]); x = (v & (1 << 8 * w) - 1).to_bytes(w, rng.choice(["big", "little"]))
        i = rng.choice([0, max(0, len(b) - w), rng.randrange(len(b))]); b[i:i + w] = x[:len(b) - i]
    elif TEXTS:
        x = rng.choice(TEXTS).encode()[:len(b)]; i = rng.choice([0, len(b) - len(x), rng.randrange(len(b) - len(x) + 1)]); b[i:i + len(x)] = x
    return bytes(b)
def text(rng, s):
    """the same text with a literal planted somewhere, or cut or filled to a length from the code"""
    if not ON: return s
    k = rng.randrange(6)
    if k < 4 and TEXTS:
        t = rng.choice(TEXTS); i = rng.choice([0, len(s), rng.randrange(len(s) + 1)])
        return t if k == 0 else s[:i] + t + s[i:]
    if SIZES:
        n = min(rng.choice(SIZES), 20000); u = s or "a"
        return (u * (n // len(u) + 1))[:n]
    return s
