"""C14 (networks use only paths of their scheme; constructors), C15 (key path text)."""
import itertools, re, sys
sys.set_int_max_str_digits(0)
from ..core import hx, csv, unhx
from ..oracle import secp, ed
from .. import gen, wallet, novel
from ..gen import BTC, ETH, ADA, NETS, H, U32, EDGE
from .keys import kdata, net_name
from . import soak, session
# ------------------------------------------------------------------ C14
def refused(r): return r.k == "E" and (r.err == "KeyPathError" or "InvalidKeyPath" in r.dbg())
CTORS = [("kp_btc", "44", 44), ("kp_btc", "49", 49), ("kp_btc", "84", 84), ("kp_ada",), ("kp_eth",), ("kp_metamask",)]
def ctor_want(c, t, a, ch, ad):
    """components, or the set of numbers one of which a refusal must name"""
    bad = set()
    if a >= H: bad.add(("Account", a)) if c[0] != "kp_metamask" else bad.update({("Account", a), ("Address", a)})
    if c[0] in ("kp_btc", "kp_ada"):
        if ch not in (0, 1): bad.add(("Change", ch))
        if ad >= H: bad.add(("Address", ad))
    if bad: return bad
    if c[0] == "kp_btc": return [H + c[2], H + t, H + a, ch, ad]
    if c[0] == "kp_ada": return [H + 44, ADA, H + a, ch, ad]
    if c[0] == "kp_eth": return [H + 44, ETH, H + a, 0, 0]
    return [H + 44, ETH, H, 0, a]
def c14(run):
    run.build("checked-fast", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked-fast"), sh.d("release")]
        KC = []; KD = {n: kdata(rng, n) for n in NETS}
        for d in D:
            r = d.call("kc_of", ",".join("%d:%s" % (n, hx(KD[n])) for n in NETS))
            if not r.ok: sh.bad("valid key data refused", d, reply=r)
            KC.append(r.f[0])
        def probe(i, net, paths, ops=("pk", "sign", "verify")):
            d, kc = D[i], KC[i]; reqs, infos = [], []
            for p in paths:
                for op in ops:
                    a = {"pk": (), "sign": (hx(b"m"),), "verify": (hx(b"m"), hx(b"\1" * 64))}[op]
                    if rng.randrange(4): reqs.append((op, kc, net, csv(p)) + a)
                    else: reqs.append(("f_" + op, net, hx(KD[net]), csv(p)) + a)
                    infos.append((op, p))
            for (op, p), r in zip(infos, d.batch(reqs)):
                ok = wallet.valid_path(net, p)
                sh.saw("%s %s %s path" % (net_name(net), op, "accepted" if ok else "foreign"), (net, op, tuple(p)), [hex(x) for x in p])
                if ok and not r.ok: sh.bad("%s refuses a path of its own scheme (%s)" % (op, net_name(net)), d, path=[hex(x) for x in p], reply=r)
                elif not ok and not refused(r): sh.bad("%s: a path outside the scheme is not refused with a key-path error (%s)" % (op, net_name(net)), d, path=[hex(x) for x in p], reply=r)
        # all single and pair deviations from an accepted path
        jobs = []
        for net in NETS:
            for j in range(5): jobs.append((net, (j,)))
            for jj in itertools.combinations(range(5), 2): jobs.append((net, jj))
        for i, (net, pos) in enumerate(jobs):
            if not sh.mine(i): continue
            base = gen.path(rng, net); base[0] = 44 + H; ps = []
            for vs in itertools.product(EDGE, repeat=len(pos)):
                p = list(base)
                for j, v in zip(pos, vs): p[j] = v
                ps.append(p)
            for q in range(0, len(ps), 60): probe((i + q) % 2, net, ps[q:q + 60], ("pk", "sign", "verify") if len(pos) == 1 or sh.thorough else (rng.choice(["pk", "sign", "verify"]),))
            sh.counts["deviation sets completed"] += 1
        # constructors: all edge triples
        V = sorted(set(EDGE[:23] + novel.NUMS[:10]))
        for i, c in enumerate(CTORS):
            reqs, want = [], []
            for k, (a, ch, ad) in enumerate(itertools.product(V, repeat=3)):
                if not sh.mine(k): continue
                if c[0] in ("kp_eth", "kp_metamask"):
                    if ch or ad: continue
                    reqs.append((c[0], a)); want.append((0, a, 0, 0))
                elif c[0] == "kp_ada": reqs.append((c[0], a, ch, ad)); want.append((0, a, ch, ad))
                else:
                    for t in (0, 1): reqs.append((c[0], c[1], t, a, ch, ad)); want.append((t, a, ch, ad))
            ctor(sh, D[i % 2], c, reqs, want)
        sh.counts["constructor products completed"] += 1
        while sh.more():
            i = rng.randrange(2); net = rng.choice(NETS); ps = []
            for _ in range(10):
                p = gen.path(rng, net); k = rng.randrange(6)
                if k == 0: p = gen.path(rng, rng.choice(NETS))
                elif k == 1: p = [rng.choice([rng.choice(EDGE), rng.getrandbits(32)]) for _ in range(5)]
                elif k == 2: p[rng.randrange(5)] ^= 1 << rng.randrange(32)
                elif k == 3: p[rng.randrange(5)] ^= H
                elif k == 4: p[rng.randrange(5)] = rng.getrandbits(32)
                ps.append(p)
            probe(i, net, ps)
            c = rng.choice(CTORS); reqs, want = [], []
            for _ in range(30):
                t, a, ch, ad = rng.randrange(2), rng.choice([gen.soft(rng), gen.soft(rng), gen.index(rng), rng.getrandbits(32)]), rng.choice([0, 1, 0, 1, 2, H, H + 1, rng.getrandbits(32)]), rng.choice([gen.soft(rng), gen.soft(rng), gen.index(rng)])
                if c[0] in ("kp_eth", "kp_metamask"): reqs.append((c[0], a)); t = ch = ad = 0
                elif c[0] == "kp_ada": reqs.append((c[0], a, ch, ad)); t = 0
                else: reqs.append((c[0], c[1], t, a, ch, ad))
                want.append((t, a, ch, ad))
            ctor(sh, D[i], c, reqs, want)
    def ctor(sh, d, c, reqs, want):
        for rq, (t, a, ch, ad), r in zip(reqs, want, d.batch(reqs)):
            w = ctor_want(c, t, a, ch, ad); ok = isinstance(w, list); sh.saw("constructor %s: %s" % (" ".join(map(str, c[:2])), "accepts" if ok else "refuses"), rq, rq)
            if ok and (not r.ok or r.f[0] != csv(w)): sh.bad("path constructor does not give the documented path", d, call=rq, reply=r, want=w)
            if not ok and not (r.k == "E" and any(x in r.dbg() and re.search(r"(?<!\d)%d(?!\d)" % v, r.dbg()) and re.search(r"(?<!\d)%d(?!\d)" % v, r.disp()) for x, v in w)):
                sh.bad("path constructor does not refuse naming the offending value", d, call=rq, reply=r, offending=sorted(w))
    run.shards(f); run.shards(soak.c14, n=6, budget=run.budget * .2); run.shards(session.run(["refusal", "pk"]), budget=run.budget * .3)
    run.need("deviation sets completed", 45); run.need("constructor products completed", 8)
    for n in ("BTC", "ETH", "ADA"):
        for op in ("pk", "sign", "verify"): run.need("%s %s accepted path" % (n, op), 100); run.need("%s %s foreign path" % (n, op), 300)
# ------------------------------------------------------------------ C15
NUMS = ["0", "1", "9", "44", "49", "84", "60", "1815", "2147483646", "2147483647", "2147483648", "2147483649", "2147483692", "4294967294", "4294967295", "4294967296", "4294967297", "4294967340", "6442450988", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551660", "340282366920938463463374607431768211456", "99999999999999999999999999999999999999999999"]
ODD = ["", " ", "'", "''", "-1", "-0", "+1", "+", "-", "00", "007", "0000000000000000000000044", "0x2c", "1e3", "1.0", "1_000", "1,000", "44h", "44H", "44\u2019", "44\u2032", "44`", "44\"", "'44", "4'4", "44''", "44' ", " 44'", "44 '", "44\t'", "\u0664\u0664", "４４", "\u0b6a", "²", "½", "Ⅳ", "四", "é", "44é", "é44", "44\u0301", "44'\u0301", "😀", "44😀", "😀'", "é'", "\u200b44", "44\u200b", "\ufeff44", "\0", "44\0", "\u00a044", "44\u3000", "m", "M", "*", "\\", "44\\", "4 4", "null", "nan", "inf", "u32", "a", "ff", "0'", "1'", "0b1", "\u2028", "44\r\n", "\x0b44", "\x1c44", "\x8544", "١'"]
NUMS += [str(x) for x in novel.NUMS[:40]]; ODD += [x for s in novel.TEXTS for x in (s, "44" + s, s + "44")]
MARK = novel.STRS + ["m", "m", "m", "m", "m", "m", "M", "", " m", "m ", "n", "mm", "0", "/", "m'", "é", "м", "m\0", ".", "x"]
def spelled(text):
    """('refuse', None) | ('exact', comps) must parse | ('maybe', comps) exact or error"""
    parts = text.split("/"); maybe = False
    if len(parts) != 6: return "refuse", None
    out = []
    ws = lambda s: s.strip()       # any white space around a part: not part of the spelling, may be refused
    if ws(parts[0]) != "m": return "refuse", None
    if parts[0] != "m": maybe = True
    for p in parts[1:]:
        q = ws(p)
        if q != p: maybe = True
        m = re.fullmatch(r"(\+?)([0-9]+)('?)", q)
        if not m: return "refuse", None
        v = int(m.group(2))
        if m.group(1) or (len(m.group(2)) > 1 and m.group(2)[0] == "0"): maybe = True
        if m.group(3):
            if v >= H: return "refuse", None
            v += H
        elif v > U32: return "refuse", None
        elif v >= H: maybe = True
        out.append(v)
    return ("maybe" if maybe else "exact"), out
def text(rng):
    k = rng.randrange(14)
    def num():
        j = rng.randrange(5)
        if j == 0: return rng.choice(NUMS)
        if j == 1: return str(rng.getrandbits(31))
        if j == 2: return str(rng.getrandbits(rng.choice([8, 16, 32, 33, 64])))
        return rng.choice(["0", "44", "60", "1815", "1"])
    parts = [num() + rng.choice(["'", ""]) for _ in range(5)]
    if k <= 3: return "m/" + "/".join(parts)
    if k == 4: parts[rng.randrange(5)] = rng.choice(ODD); return "m/" + "/".join(parts)
    if k == 5: return rng.choice(MARK) + "/" + "/".join(parts)
    if k == 6: return "m/" + "/".join([num() + rng.choice(["'", ""]) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 7, 50]))])
    if k == 7:
        s = "m/" + "/".join(parts); i = rng.randrange(len(s) + 1); c = rng.choice(list("/' m0123456789+-.") + gen.ALPH); return s[:i] + c + s[i + rng.randrange(2):]
    if k == 8: s = "m/" + "/".join(parts); i, j = sorted(rng.randrange(len(s) + 1) for _ in range(2)); return s[:i] + s[j:]
    if k == 9: i = rng.randrange(5); w = rng.choice([" ", "\t", "\n", "  ", "\u3000", "\u00a0", "\x0b", "\x1c", "\x85", "\u200b"]); parts[i] = rng.choice([w + parts[i], parts[i] + w, w]); return "m/" + "/".join(parts)
    if k >= 12:      # a long part of characters of several bytes, at any alignment
        x = "x1/m' "[rng.randrange(6)] * rng.randrange(4) + rng.choice(["é", "漢", "😀", "\u0301"]) * rng.randrange(1, rng.choice([12, 90, 400])); j = rng.randrange(7)
        if j == 0: return x
        v = ["m"] + parts; v[j - 1] = rng.choice([x, x + v[j - 1], v[j - 1] + x]); return "/".join(v)
    if k == 10: return "".join(rng.choice(["m", "/", "'", "0", "1", "44", " ", "é", "😀"]) for _ in range(rng.randrange(0, 20)))
    return rng.choice([gen.password(rng), "/" * rng.randrange(0, 9), "m" + "/" * rng.randrange(0, 9), "m/" + "/".join(["'"] * 5), "m/" + "9" * 5000 + "/0/0/0/0", "/m/" + "/".join(parts), "m/" + "/".join(parts) + "/", "m//" + "/".join(parts[1:]), "m\\" + "\\".join(parts)])
def c15(run):
    run.build("checked", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked"), sh.d("release")]
        def judge(i, texts):
            d = D[i]; again = []
            for t, r in zip(texts, d.batch([("kp_parse", hx(t)) for t in texts])):
                kind, want = spelled(t); sh.saw(kind, t, t)
                if r.k == "P": sh.bad("parsing a key path panics", d, text=repr(t), reply=r)
                elif r.k == "E":
                    if kind == "exact": sh.bad("a well-formed key path is refused", d, text=repr(t), reply=r)
                elif kind == "refuse": sh.bad("a malformed key path is accepted", d, text=repr(t), reply=r)
                elif r.f[0] != csv(want): sh.bad("parsed components are not the ones spelled", d, text=repr(t), got=[hex(int(x)) for x in r.f[0].split(",")], want=[hex(x) for x in want])
                else: again += [(t, want, r.b(1)), (t, want, r.b(2))]
            for (t, want, p), r in zip(again, d.batch([("kp_parse", hx(p)) for _, _, p in again])):
                sh.saw("printed and parsed again", (t, p), p)
                if p != ("m/" + "/".join("%d'" % (v - H) if v >= H else "%d" % v for v in want)).encode(): sh.bad("a printed path does not mark exactly the hardened parts", d, text=repr(t), printed=repr(p), want=want)
                if not r.ok or r.f[0] != csv(want): sh.bad("printing a parsed path and parsing it again gives other components", d, text=repr(t), printed=repr(p), reply=r, want=want)
        # every number and oddity at every position, with and without the mark
        al = [n + s for n in NUMS for s in ("", "'")] + ODD + [o + "'" for o in ODD]
        ts = []
        for v in al:
            for j in range(5): p = ["44'", "60'", "0'", "0", "5"]; p[j] = v; ts.append("m/" + "/".join(p))
        ts += [m + "/44'/60'/0'/0/5" for m in MARK] + ["m" + "/1" * n for n in range(0, 20)] + ["m" + "/1'" * n for n in range(0, 20)]
        # every character as an odd last character and as a mark
        ts += ["m/44" + chr(c) + "/60'/0'/0/0" for c in list(range(0, 0x250)) + [0x2018, 0x2019, 0x2032, 0xff07, 0x2bc, 0x1f600, 0x10ffff]] + ["m/44'/60'/0'/0/" + chr(c) + "1" for c in list(range(0, 0x250)) + [0x660, 0xff11, 0x2212]]
        mine = [t for i, t in enumerate(ts) if sh.mine(i)]
        for i in (0, 1): judge(i, mine)
        sh.counts["fixed texts completed"] += len(mine)
        while sh.more(): judge(rng.randrange(2), [text(rng) for _ in range(200)])
    run.shards(f)
    run.need("fixed texts completed", 2000); run.need("refuse", 1000); run.need("exact", 1000); run.need("maybe", 300); run.need("printed and parsed again", 1000)
