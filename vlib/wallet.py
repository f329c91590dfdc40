"""Executable wallet model: independent encoder and decoder of wallet data, expected keys."""
import base64, json
from .oracle import seal, secp, ed, bip39
from .gen import BTC, ETH, ADA, NETS, COIN, H
def key_data(net, seed):
    """stored key data of a built-in network for a 64-byte seed"""
    return ed.master_data(seed) if net == ADA else secp.master(seed).ser()
def custom_data(net, seed): return net.to_bytes(4, "big") + seed
class W:
    """abstract contents of a wallet"""
    def __init__(s, seed=None, mnemonic=None, lang=None, keys=None):
        s.seed, s.mnemonic, s.lang, s.keys = seed, mnemonic, lang, dict(keys or {})
    def t(s): return (s.seed, s.mnemonic, s.lang, tuple(sorted(s.keys.items())))
    def __eq__(s, o): return isinstance(o, W) and s.t() == o.t()
    def __repr__(s): return "W(seed=%s mnemonic=%r lang=%r keys=%s)" % (s.seed and s.seed.hex(), s.mnemonic, s.lang, {hex(k): v.hex() for k, v in sorted(s.keys.items())})
    def copy(s): return W(s.seed, s.mnemonic, s.lang, s.keys)
    def can_add(s): return s.seed is not None or s.mnemonic is not None
    def root(s): return s.seed if s.seed is not None else bip39.seed(s.mnemonic)
b64 = lambda b: base64.b64encode(b).decode()
def dumps(o, rng=None):
    if rng is None: return json.dumps(o, separators=(",", ":"), ensure_ascii=False).encode()
    if isinstance(o, dict):
        o = list(o.items()); rng.shuffle(o); o = dict(o)
    return json.dumps(o, indent=rng.choice([None, None, 1]), separators=rng.choice([(",", ":"), (", ", ": ")]), ensure_ascii=rng.choice([True, False])).encode()
def encode_inner(w, version, rng=None):
    keys = [[n, b64(d)] for n, d in w.keys.items()]
    if rng: rng.shuffle(keys)
    if version == 1: return dumps({"keys": keys}, rng)
    return dumps({"seed": None if w.seed is None else b64(w.seed), "mnemonic": w.mnemonic,
                  "dictionary": None if w.lang is None else bip39.NAMES[w.lang], "keys": keys}, rng)
def encode(w, version, rng=None):
    return dumps({"version": version, "data": b64(encode_inner(w, version, rng))}, rng)
class Bad(Exception): pass
def decode(plain):
    """payload -> (version, W); strict about everything the format documents"""
    try:
        o = json.loads(plain.decode())
        assert set(o) == {"version", "data"} and type(o["version"]) is int
        i = json.loads(base64.b64decode(o["data"], validate=True).decode())
        keys = {}
        for n, d in i["keys"]:
            assert type(n) is int and 0 <= n < 2**32 and n not in keys
            keys[n] = base64.b64decode(d, validate=True)
        if o["version"] == 1:
            assert set(i) == {"keys"}
            return 1, W(keys=keys)
        assert o["version"] == 2 and set(i) == {"seed", "mnemonic", "dictionary", "keys"}
        assert i["mnemonic"] is None or type(i["mnemonic"]) is str
        return 2, W(None if i["seed"] is None else base64.b64decode(i["seed"], validate=True), i["mnemonic"],
                    None if i["dictionary"] is None else bip39.NAMES.index(i["dictionary"]), keys)
    except (AssertionError, ValueError, KeyError, TypeError, RecursionError) as e: raise Bad(repr(e) + " " + plain[:600].decode(errors="replace"))
def open_blob(blob, pw, it):
    """(version, W) of sealed wallet data, None if the password does not open it"""
    p = seal.unseal(blob, pw.encode(), it)
    return None if p is None else decode(p)
def pub(net, keydata, path):
    """expected public key bytes"""
    if net == ADA: return ed.parse(keydata).path(path).pub()
    return secp.ser_u(secp.parse(keydata).path(path).pt)
def valid_key(net, data): return ed.valid(data) if net == ADA else secp.parse(data) is not None
def bad_key(rng, net, seed):
    """malformed key data of a built-in network"""
    g = key_data(net, seed)
    while True:
        k = rng.randrange(11)
        if k == 0: b = g[:-1]
        elif k == 1: b = g + bytes([rng.choice([0, g[-1], 10, 255])])
        elif k == 2: b = b""
        elif k == 3: i = rng.randrange(len(g)); b = g[:i] + bytes([g[i] ^ 1 << rng.randrange(8)]) + g[i + 1:]
        elif k == 4: b = key_data(ADA if net != ADA else BTC, seed)
        elif k == 5: b = bytes(len(g))
        elif k == 6: b = g[1:]
        elif k == 7: b = b"\0" + g
        elif k == 8: b = g + g
        elif k == 9: b = rng.getrandbits(8 * len(g)).to_bytes(len(g), "big")
        else: b = g[:rng.randrange(len(g))] if net == ADA else secp.blob(0, bytes(4), 0, g[9:41], rng.choice([bytes(32), secp.N.to_bytes(32, "big"), b"\xff" * 32]))
        if not valid_key(net, b): return b
def node(net, keydata, path):
    return ed.parse(keydata).path(path) if net == ADA else secp.parse(keydata).path(path)
def valid_path(net, p):
    ok = p[1] == COIN[net] and p[2] >= H and p[3] in (0, 1) and p[4] < H
    return ok and (net == BTC or p[0] == 44 + H)
def sig_ok(net, nd, msg, sig):
    return nd.verify_known(msg, sig) if net == ADA else secp.verify_known(nd.k, msg, sig)
MINBITS = {BTC: (128, 256), ETH: (128, 256), ADA: (96, 256)}
def mgr_words(nets):
    """phrase length of a manager of built-in networks, None if refused"""
    lo = max([MINBITS[n][0] for n in nets], default=0); hi = min([MINBITS[n][1] for n in nets], default=1 << 62)
    return None if lo == 0 or lo >= hi else lo // 32 * 3
def iterations(drv):
    """which KDF count does this build use (the guarded hook may be compiled out of a changed tree)"""
    from .core import hx
    b = drv.call("enc", hx(b"probe"), hx("pw")).b(0)
    for it in (seal.FAST_ITER, seal.ITER):
        if seal.unseal(b, b"pw", it) == b"probe": return it
    return None
