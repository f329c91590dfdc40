"""C16: no call of the safe API panics, hangs, dies or touches memory out of bounds, whatever its arguments.
Monitors: panic capture and overflow/debug assertions (checked build), AddressSanitizer (asan build), CPU-time watchdog."""
import base64, hashlib, json, time
from ..core import hx, csv, unhx, Driver
from ..oracle import bip39, seal as S, secp, ed
from .. import gen, wallet
from ..gen import BTC, ETH, ADA, NETS, H, U32
from . import keys as K, path as PT, mnem as M
NUM = [0, 1, 2, 3, 7, 8, 10, 11, 12, 24, 31, 32, 33, 63, 64, 65, 95, 96, 127, 128, 255, 256, 257, 2047, 2048, 2049, 4095, 4096, 32767, 32768, 65535, 65536, H - 1, H, H + 1, H + 44, U32 - 1, U32]
U64 = [0, 1, 31, 32, 33, 64, 95, 96, 97, 127, 128, 129, 160, 255, 256, 257, 288, 512, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 33, (1 << 64) - 2, (1 << 64) - 1]
LEN = gen.LENS + [66, 74, 75, 97, 98, 100, 130, 200, 1500, 4096]
JUNK = [None, True, False, 0, -1, 1, 2, 3, 255, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 2**64, -2**63, 1.5, 1e308, "", "a", "AA==", "====", "A", "AAA", "English", "english", "Klingon", [], {}, [[]], [0], [None], {"a": 1}, [[0, "AA=="]], [[2147483648, "AA=="]], "\0", "é", "😀" * 30, "A" * 400]
def num(rng): return rng.choice([rng.choice(NUM), rng.choice(NUM), rng.getrandbits(32), rng.getrandbits(16)])
def blob(rng):
    n = rng.choice(LEN) if rng.randrange(3) else rng.randrange(0, 300)
    if rng.randrange(60) == 0: n = rng.choice(gen.BIG)
    k = rng.randrange(6)
    return bytes(n) if k == 0 else b"\xff" * n if k == 1 else gen.rbytes(rng, n)
def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 5])):
        k = rng.randrange(7)
        if not b: k = 3
        if k == 0: b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        elif k == 1: b[rng.randrange(len(b))] = rng.choice([0, 1, 0x7f, 0x80, 0xff])
        elif k == 2: i = rng.randrange(len(b)); del b[i:i + rng.choice([1, 2, 8, 1000])]
        elif k == 3: i = rng.randrange(len(b) + 1); b[i:i] = gen.rbytes(rng, rng.some([1, 2, 3, 16, 200]))
        elif k == 4: b = b[:rng.randrange(len(b) + 1)]
        elif k == 5: b = b + b
        else: i, j = rng.randrange(len(b)), rng.randrange(len(b)); b[i], b[j] = b[j], b[i]
    return bytes(b)
def jmut(rng, o, depth=0):
    """a JSON value with something changed somewhere"""
    if rng.randrange(4) == 0 or depth > 4: return rng.choice(JUNK)
    if isinstance(o, dict) and o:
        o = dict(o); k = rng.choice(list(o)); m = rng.randrange(6)
        if m == 0: del o[k]
        elif m == 1: o[rng.choice(["x", "Version", k + " ", k.upper(), ""])] = rng.choice(JUNK)
        else: o[k] = jmut(rng, o[k], depth + 1)
        return o
    if isinstance(o, list) and o:
        o = list(o); i = rng.randrange(len(o)); m = rng.randrange(6)
        if m == 0: del o[i]
        elif m == 1: o.insert(i, rng.choice(JUNK))
        elif m == 2: o = o * rng.choice([2, 50])
        else: o[i] = jmut(rng, o[i], depth + 1)
        return o
    if isinstance(o, str) and o: return rng.choice([o[:-1], o + "=", o + "A", o.swapcase(), o[::-1], o * 3, o[:len(o) // 2] + rng.choice(gen.ALPH) + o[len(o) // 2:]])
    return rng.choice(JUNK)
def inner(rng):
    keys = [[n, base64.b64encode(rng.choice([K.kdata(rng, n) if n in NETS else blob(rng), blob(rng)])).decode()] for n in rng.sample(NETS + [5, 0, U32], rng.randrange(4))]
    lang = rng.randrange(8)
    return {"seed": rng.choice([None, base64.b64encode(gen.seed64(rng)).decode(), base64.b64encode(blob(rng)).decode()]), "mnemonic": rng.choice([None, gen.phrase(rng, rng.choice([9, 12, 12, 24]), lang), M.bad_phrase(rng, 12, lang)[1]]), "dictionary": rng.choice([None, bip39.NAMES[lang], "english"]), "keys": keys}
def plaintext(rng):
    """contents of sealed wallet data: near-valid"""
    i = inner(rng)
    if rng.randrange(3): i = jmut(rng, i)
    k = rng.randrange(16)
    if k == 0: return blob(rng)
    if k == 1: return b"[" * rng.choice([10, 127, 128, 129, 5000, 200000])
    if k == 2: return b'{"version":2,"data":' * rng.choice([10, 200])
    try: ib = json.dumps(i).encode(errors="surrogatepass")
    except (ValueError, TypeError): ib = b"{}"
    if k == 3: ib = mutate(rng, ib)
    if k == 4: ib = b'{"seed":null,"mnemonic":null,"dictionary":null,"keys":' + b"[" * rng.choice([10, 127, 128, 5000])
    if k == 5: ib = b'{"keys":[' + b",".join(b'[%d,"AA=="]' % rng.choice(NUM) for _ in range(rng.choice([1, 100, 3000]))) + b"]}"
    o = {"version": rng.choice([1, 2, 2, 2, 0, 3, 255, -1, 2**32 + 2, 2.0, "2", None]) if rng.randrange(3) == 0 else rng.choice([1, 2]), "data": base64.b64encode(ib).decode()}
    if k == 6: o = jmut(rng, o)
    p = json.dumps(o).encode()
    if k == 7: p = mutate(rng, p)
    return p
def bip32_blob(rng): return rng.choice([K.secp_data(rng), secp.blob(rng.randrange(250, 256), bytes(4), 0, bytes(32), K.b32(K.secp_k(rng))), mutate(rng, K.secp_data(rng)), blob(rng)])
def keyblob(rng, n): return rng.choice([K.kdata(rng, n), K.kdata(rng, rng.choice(NETS)), mutate(rng, K.kdata(rng, n)), blob(rng), bip32_blob(rng), bytes(96), b"\xff" * 96])
def pth(rng, n):
    k = rng.randrange(4)
    if k == 0: return [num(rng) for _ in range(5)]
    p = gen.path(rng, n)
    if k == 1: p[rng.randrange(5)] = num(rng)
    return p
def sigb(rng): return rng.choice([gen.rbytes(rng, rng.some([0, 1, 63, 64, 65, 66, 130])), bytes(rng.choice([64, 65])), b"\xff" * rng.choice([64, 65]), blob(rng)])
def txt(rng, f): return hx(f(rng) if rng.randrange(5) else rng.choice([gen.password(rng), "".join(rng.choice(gen.ALPH) for _ in range(rng.randrange(50)))]))
def idx_list(r):
    """a valid list of indexes with one of them out of range"""
    l = bip39.indexes(gen.rbytes(r, r.choice([12, 16, 20, 24, 28, 32]))); l[r.randrange(len(l))] = r.choice([2048, 2049, 4095, 4096, 32768, 65535, 2048 + r.randrange(63488)]); return l
def ph(r):
    l = r.randrange(8); n = r.choice([9, 12, 15, 18, 21, 24])
    return (l, txt(r, lambda q: gen.phrase(q, n, l) if q.randrange(3) == 0 else M.bad_phrase(q, n, l)[1]))
OPS = {
 "ent_to_mn": lambda r, w: (r.randrange(8), hx(blob(r))), "idx_to_ent": lambda r, w: (csv(r.choice([idx_list(r), bip39.indexes(gen.rbytes(r, r.choice([12, 16, 20, 24, 28, 32]))), [r.choice([r.randrange(2048), num(r) & 0xffff]) for _ in range(r.choice([0, 1, 2, 3, 9, 12, 12, 15, 18, 21, 24, 25, 100]))]])),),
 "idx_new": lambda r, w: (num(r) & 0xffff,), "mn_parse": lambda r, w: ph(r),
 "seed": lambda r, w: ph(r) + (hx(blob(r)[:2000]),), "seed_slice": lambda r, w: (hx(blob(r)),),
 "word_idx": lambda r, w: (r.randrange(8), txt(r, lambda q: q.choice(bip39.WORDS[q.randrange(8)]))), "word_idx_kc": lambda r, w: (r.randrange(8), txt(r, lambda q: q.choice(bip39.WORDS[q.randrange(8)]))),
 "idx_word": lambda r, w: (r.randrange(8), num(r) & 0xffff), "idx_to_word": lambda r, w: (r.randrange(8), num(r) & 0xffff),
 "type_words": lambda r, w: (num(r),), "type_bits": lambda r, w: (num(r),), "type_str": lambda r, w: (txt(r, lambda q: q.choice(["12", "9", "0", "-1", "12 ", "+12", "24", "1" * 50, "12.0"])),),
 "hex_enc": lambda r, w: (hx(blob(r)),), "hex_dec": lambda r, w: (txt(r, lambda q: mutate(q, blob(q).hex().encode()).decode("latin-1")),),
 "bits_write": lambda r, w: (csv([num(r) & 0xffff for _ in range(r.randrange(0, 60))]),), "bits_read": lambda r, w: (hx(gen.rbytes(r, r.randrange(0, 60))), r.randrange(0, 50)),
 "x_chain": lambda r, w: (r.choice(["seed", "data"]), hx(r.choice([gen.seed64(r), bip32_blob(r)])), csv([num(r) for _ in range(r.choice([0, 1, 2, 5, 8]))])),
 "x_sign": lambda r, w: (r.choice(["seed", "data"]), hx(r.choice([gen.seed64(r), bip32_blob(r)])), csv([num(r) for _ in range(r.randrange(4))]), hx(blob(r))),
 "x_verify": lambda r, w: (r.choice(["seed", "data"]), hx(r.choice([gen.seed64(r), bip32_blob(r)])), csv([num(r) for _ in range(r.randrange(3))]), hx(blob(r)), hx(sigb(r))),
 "enc": lambda r, w: (hx(blob(r)), hx(gen.password(r))), "dec": lambda r, w: (hx(r.choice([blob(r), w.wallet(r)])), hx(gen.password(r))),
 "mgr_with": lambda r, w: (csv([r.choice(NETS + [num(r)]) for _ in range(r.randrange(0, 6))]),), "mgr_custom": lambda r, w: (",".join(r.choice(["%d:%d:%d" % (r.choice(U64), r.choice(U64), r.choice([5, 7, num(r)])), "128:256:%d" % r.choice([5, num(r), BTC]), "0:0:%d" % r.choice(NETS)]) for _ in range(r.randrange(0, 5))) or "-",),
 "mgr_has": lambda r, w: (w.m(r), num(r)), "gen_mn": lambda r, w: (w.m(r), r.randrange(-1, 8)),
 "data_seed": lambda r, w: (w.m(r), hx(r.choice([gen.seed64(r), blob(r)])), hx(gen.password(r))), "data_mn": lambda r, w: (w.m(r), txt(r, lambda q: q.choice([gen.phrase(q, q.choice([9, 12, 24]), q.randrange(8)), M.bad_phrase(q, 12, q.randrange(8))[1]])), hx(gen.password(r)), r.randrange(-1, 8)),
 "open": lambda r, w: (w.m(r),) + w.bp(r), "chpw": lambda r, w: (w.m(r),) + w.bp(r) + (hx(gen.password(r)),), "addnet": lambda r, w: (w.m(r),) + w.bp(r) + (r.choice(NETS + [5, num(r)]),), "retr_mn": lambda r, w: (w.m(r),) + w.bp(r), "keys_data": lambda r, w: (w.m(r),) + w.bp(r),
 "pk": lambda r, w: w.kn(r), "sign": lambda r, w: w.kn(r) + (hx(blob(r)),), "verify": lambda r, w: w.kn(r) + (hx(blob(r)), hx(sigb(r))),
 "kc_has": lambda r, w: (w.k(r), num(r)), "kc_nets": lambda r, w: (w.k(r),),
 "f_data": lambda r, w: (r.choice(NETS), hx(r.choice([gen.seed64(r), blob(r)]))), "f_open": lambda r, w: w.fk(r), "f_pk": lambda r, w: w.fk(r) + (csv(pth(r, w.n)),), "f_sign": lambda r, w: w.fk(r) + (csv(pth(r, w.n)), hx(blob(r))), "f_verify": lambda r, w: w.fk(r) + (csv(pth(r, w.n)), hx(blob(r)), hx(sigb(r))), "f_size": lambda r, w: (r.choice(NETS),),
 "kp_parse": lambda r, w: (txt(r, PT.text),), "kp_btc": lambda r, w: (r.choice(["44", "49", "84"]), r.randrange(2), num(r), num(r), num(r)), "kp_ada": lambda r, w: (num(r), num(r), num(r)), "kp_eth": lambda r, w: (num(r),), "kp_metamask": lambda r, w: (num(r),),
}
SLOW = {"seed": 20, "data_mn": 6, "x_chain": 2}
def documented(op, a, r):
    if op == "bits_read": return int(a[1]) > len(unhx(a[0])) * 8 // 11
    if op == "idx_to_word": return int(a[1]) > 2047
    return False
class Ctx:
    def __init__(s, d, rng):
        s.d, s.it = d, wallet.iterations(d) or S.FAST_ITER; s.ms, s.ks, s.bs = [], [], []; s.n = BTC
        for a in (["mgr_new"], ["mgr_with", csv(NETS)], ["mgr_with", ADA], ["mgr_with", csv([BTC, ETH])], ["mgr_custom", "0:0:%d,128:256:5,1:300:7" % ETH], ["mgr_custom", "32:%d:5" % (2**64 - 1)], ["mgr_custom", "33:512:5"], ["mgr_custom", "%d:%d:5" % (2**64 - 2, 2**64 - 1)]):
            r = d.call(*a)
            if r.ok: s.ms.append(r.f[0])
        s.fixed = len(s.ms)
    def m(s, r): return r.choice(s.ms)
    def k(s, r):
        if not s.ks:
            x = s.d.call("kc_of", ",".join("%d:%s" % (n, hx(K.kdata(r, n))) for n in NETS)); s.ks.append(x.f[0])
        return r.choice(s.ks)
    def wallet(s, r): return s.bp(r, raw=True)[0]
    def bp(s, r, raw=False):
        """wallet data and a password that usually opens it"""
        if not s.bs or r.randrange(3) == 0:
            pw = gen.password(r); b = S.seal(plaintext(r), pw.encode(), gen.rbytes(r, 32), gen.rbytes(r, 12), s.it); s.bs.append((b, pw)); s.bs = s.bs[-20:]
        b, pw = r.choice(s.bs)
        if r.randrange(8) == 0: b = mutate(r, b)
        if r.randrange(10) == 0: pw = gen.password(r)
        return (b, pw) if raw else (hx(b), hx(pw))
    def kn(s, r):
        n = r.choice(NETS); return (s.k(r), n if r.randrange(5) else num(r), csv(pth(r, n)))
    def fk(s, r): s.n = r.choice(NETS); return (s.n, hx(keyblob(r, s.n)))
def c16(run):
    run.build("checked-fast", "asan-fast")
    def f(sh):
        rng = sh.rng; fl = ["checked-fast", "asan-fast"][sh.i % 2]; d = sh.d(fl); c = Ctx(d, rng); names = sorted(OPS); n = 0
        def batch(ops):
            reqs = []
            for op in ops:
                try: a = OPS[op](rng, c)
                except UnicodeEncodeError: continue
                reqs.append((op,) + tuple(a))
            for rq, r in zip(reqs, d.batch(reqs)):
                op = rq[0]; sh.saw("%s: %s" % (op, {"O": "value", "E": "error", "P": "panic"}[r.k]), rq, "\t".join(map(str, rq)) + " -> " + repr(r)[:200]); sh.counts["calls in the %s build" % fl] += 1
                if r.k == "P":
                    if documented(op, rq[1:], r): sh.counts["documented panics"] += 1
                    else: sh.bad("panic", d, call=rq, reply=r)
                elif r.ok:
                    if op in ("mgr_with", "mgr_custom"):
                        c.ms.append(r.f[0])
                        if len(c.ms) > 30: d.call("mgr_free", c.ms.pop(c.fixed))
                    elif op == "open":
                        c.ks.append(r.f[0])
                        if len(c.ks) > 12: d.call("kc_free", c.ks.pop(0))
                    elif op in ("data_seed", "data_mn"): c.bs.append((r.b(0), unhx(rq[3]).decode()))
        for op in names: batch([op] * (1 if op in SLOW else 10))
        while sh.more():
            batch([op for op in (rng.choice(names) for _ in range(150)) if rng.randrange(SLOW.get(op, 1)) == 0])
    def huge(sh):
        """inputs of up to some megabytes, on the two megabytes of stack that a Rust thread has"""
        rng = sh.rng; path = sh.run.bins["checked-fast"]; d = Driver(path, argv=["bash", "-c", "ulimit -s 2048; exec " + path]); sh.drv["huge"] = d
        it = wallet.iterations(d) or S.FAST_ITER; m = d.call("mgr_new").f[0]; kc = Ctx(d, rng).k(rng)
        ks = {n: K.kdata(rng, n) for n in NETS}; pw = hx("p")
        seal = lambda t: hx(S.seal(t, b"p", bytes(32), bytes(12), it)) if len(t) < 3000 else d.call("enc", hx(t), pw).f[0]
        v = lambda inner, ver=2: json.dumps({"version": ver, "data": base64.b64encode(inner).decode()}).encode()
        N = [rng.choice([20000, 50000]), rng.choice([100000, 150000]), rng.choice([200000, 250000])]
        if not sh.thorough: N = [rng.choice(N), N[2]]
        w = lambda: gen.phrase(rng, 12, 0)
        cases = []
        for n in N:
            for t in ["/" * n, "m" + "/0'" * n, "m/44'/60'/0'/0/" + "0" * n, "m/44'/60'/0'/0/" + "9" * n, " " * n + "m/44'/60'/0'/0/0" + " " * n, "m/44'/60'/0'/0/0" + "'" * n, "\u3000" * n, "é/" * n, "-" * n, "m/" + "m/" * n]: cases.append(("kp_parse", hx(t)))
            for t in [" " * n, (w() + " ") * (n // 12), "a" * n, "a " * (n // 4), "\u3000" * n, w() + " " * n, "あ " * (n // 8), "\0" * n, "e\u0301" * n]:
                for l in (0, 3): cases += [("data_mn", m, hx(t), pw, l), ("mn_parse", l, hx(t))]
                cases.append(("word_idx", 0, hx(t)))
            for t in ["0" * n, " " * n, "0 " * n, "\n" * n, "zz" * n, "é" * n]: cases.append(("hex_dec", hx(t)))
            x = gen.rbytes(rng, n)
            cases += [("hex_enc", hx(x)), ("bits_write", csv([2047] * (n // 4))), ("enc", hx(x), hx("p" * n)), ("dec", hx(x), hx("p" * n)), ("open", m, hx(x), pw), ("data_seed", m, hx(x), pw), ("data_seed", m, hx(gen.seed64(rng)), hx("é" * n)), ("seed_slice", hx(x)),
                      ("chpw", m, hx(x), pw, hx("q" * n)), ("idx_to_ent", csv([1] * (n // 4)))]
            for net in NETS:
                p = csv(gen.path(rng, net))
                cases += [("sign", kc, net, p, hx(x)), ("verify", kc, net, p, hx(x), hx(gen.rbytes(rng, 64))), ("verify", kc, net, p, "00", hx(x)), ("f_data", net, hx(x)), ("f_open", net, hx(x)), ("f_open", net, hx(ks[net] + x))]
            big = b'{"seed":null,"mnemonic":null,"dictionary":null,"keys":[%s]}'
            for inner in [b"[" * n, b'{"seed":' * n, b'{"keys":[' * n, big % b",".join(b'[%d,"AA=="]' % i for i in range(n // 8)), big % (b"[1,\"%s\"]" % base64.b64encode(x)), big % (b"[" * n), b" " * n + big % b"",
                          b'{"seed":null,"mnemonic":"%s","dictionary":"English","keys":[]}' % (b"abandon " * (n // 8)), b'{"seed":"%s","mnemonic":null,"dictionary":null,"keys":[]}' % base64.b64encode(x)]:
                for ver in (2, 1):
                    b = seal(v(inner, ver)); cases += [(op, m, b, pw) for op in ("open", "retr_mn", "keys_data")] + [("addnet", m, b, pw, BTC)]
            for t in [b"[" * n, b'{"version":' * n, b'{"version":2,"data":"' + b"A" * n, b'{"version":' + b"1" * n + b',"data":""}', b'{"version":1e%d' % n, b" " * n]: cases.append(("open", m, seal(t), pw))
        for i, rq in enumerate(cases):
            if not sh.mine(i) or time.time() > sh.end + 60: continue
            r = d.call(*rq); sh.saw("huge input to %s: %s" % (rq[0], {"O": "value", "E": "error", "P": "panic"}[r.k]), (rq[0], hashlib.sha256(repr(rq).encode()).digest()), "%s of %d characters" % (rq[0], sum(map(len, map(str, rq)))))
            if r.k == "P": sh.bad("panic", d, call=repr(rq)[:500], reply=r)
    run.shards(f); run.shards(huge, budget=run.budget * .3)
    run.need("calls in the checked-fast build", 1000); run.need("calls in the asan-fast build", 1000); run.need("documented panics", 5)
    for op in OPS:
        if not run.viol and not sum(run.counts["%s: %s" % (op, k)] for k in ("value", "error", "panic")): run.errors.append("operation never called: " + op)
    run.need("open: value", 20); run.need("open: error", 20); run.need("pk: value", 20); run.need("addnet: value", 5); run.need("kp_parse: value", 20); run.need("x_chain: value", 20)
