"""C27: a refusal names its own cause. Each call is made with none, one or several reasons to be refused;
the error must be one of the reasons that apply, with its values, and without a reason there is no refusal."""
import json, re
from ..core import hx, csv
from ..oracle import bip39, seal as S
from .. import gen, wallet
from . import soak
from ..wallet import W
from ..gen import BTC, ETH, ADA, NETS, COIN, H
from .wallets import World, E, CUST
MIN = 60
def has_num(t, v): return re.search(r"(?<!\d)%d(?!\d)" % v, t) is not None
def has(r, tok):
    """the error's text (and its structure) holds the value"""
    if isinstance(tok, int): return has_num(r.disp(), tok)
    return tok in r.disp()
class Why:
    """one reason: kind, values of the error itself, texts or numbers its message must hold, words its structure must hold"""
    def __init__(s, kind, vals=None, *tokens, dbg=()): s.kind, s.vals, s.tokens, s.dbg = kind, vals, tokens, dbg
    def fits(s, r, vals):
        kinds = s.kind if isinstance(s.kind, tuple) else (s.kind,)
        return r.err in kinds and (s.vals is None or vals == csv(s.vals) or r.err != kinds[0]) and all(has(r, t) for t in s.tokens) and all(x.lower() in (r.dbg() + " " + r.disp()).lower() for x in s.dbg)
    def __repr__(s): return "%s(%s %s %s)" % (s.kind, s.vals, s.tokens, s.dbg)
def judge(sh, d, what, r, why, **info):
    """why: the reasons that apply"""
    one = len(why) == 1
    sh.saw("%s: %s" % (what, "no reason" if not why else why[0].kind if one else "several reasons"), (what, repr(info)[:1500]), info and repr(info)[:200])
    if not why:
        if not r.ok: sh.bad("%s is refused without a reason" % what, d, reply=r, **info)
        return r.ok
    if r.ok: sh.bad("%s is not refused" % what, d, reply=r, reasons=why, **info); return True
    vals = d.call("errvals").f[0] if r.k == "E" else ""
    if not any(w.fits(r, vals) for w in why): sh.bad("%s is refused for a reason that does not apply, or without its values" % what, d, reply=r, values=vals, reasons=why, **info)
    return False
def phrase_why(t, lang, words):
    """reasons to refuse a phrase for a manager"""
    ws = t.split(" "); out = [Why("MnemonicError", [], w, dbg=("word",)) for w in ws if w not in bip39.INDEX[lang]]
    n = len(ws)
    if n not in bip39.SIZES: out.append(Why("MnemonicError", [], n, dbg=("number",)))
    elif n != words: out.append(Why("MnemonicError", [], n, words, dbg=("short" if n < words else "long",)))
    return out
def path_why(net, p):
    k = ("KeyError", "KeyPathError"); out = []
    if net != BTC and p[0] != 44 + H: out.append(Why(k, [net], p[0], dbg=("purpose",)))
    if p[1] != COIN[net]: out.append(Why(k, [net], p[1], dbg=("coin",)))
    if p[2] < H: out.append(Why(k, [net], p[2], dbg=("account",)))
    if p[3] > 1: out.append(Why(k, [net], p[3], dbg=("change",)))
    if p[4] >= H: out.append(Why(k, [net], p[4], dbg=("address",)))
    return out
def text_why(t):
    ps = [x.strip() for x in t.split("/")]
    if len(ps) != 6: return [Why("KeyPath", None, len(ps), dbg=("parts",))]
    out = []
    if ps[0] != "m": out.append(Why("KeyPath", None, ps[0], dbg=("marker",)))
    for i, x in enumerate(ps[1:], 1):
        q = x[:-1] if x.endswith("'") else x
        if q == "": out.append(Why("KeyPath", None, i, dbg=("empty",)))
        elif not re.fullmatch(r"\+?[0-9]+", q) or int(q) >= 1 << 32: out.append(Why("KeyPath", None, i, dbg=("parse",)))
        elif x.endswith("'") and int(q) >= H: out.append(Why("KeyPath", None, i, int(q), dbg=("hardened",)))
    return out
def pathtext(rng):
    ps = ["m"] + [str(v % H) + ("'" if v >= H else "") for v in [rng.choice(gen.EDGE) for _ in range(5)]]
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        i = rng.randrange(len(ps))
        if i == 0: ps[0] = rng.choice(["M", "", "n", "mm", "0", "m'", "root"])
        else: ps[i] = rng.choice(["", "'", "x", "1x", "-1", "4294967296", "4294967295'", "2147483648'", "2147483649'", "0x1", "1.0", "''", "1''", "'1", "99999999999999999999", "१", "m", "m'", rng.choice(ps), rng.choice(ps) + "'", " ", " ' ", "1 '"])
    if rng.randrange(6) == 0: ps = ps[:rng.randrange(1, 6)] if rng.randrange(2) else ps + ["0"] * rng.randrange(1, 4)
    return "/".join(ps)
class Story:
    def __init__(s, sh, flavor): s.sh, s.w, s.rng, s.d = sh, World(sh, flavor, "C27"), sh.rng, sh.d(flavor)
    def blob(s):
        """(blob, password given, reasons found on reading: None = readable, W, version)"""
        rng, w = s.rng, s.w; pw = gen.password(rng); k = rng.randrange(12)
        if k == 0: return gen.rbytes(rng, rng.choice([0, 1, 59, 58, 44, 32, rng.randrange(MIN)])), pw, [Why("NotEnoughData", [])], None
        if k == 1:
            b = gen.rbytes(rng, rng.choice([60, 61, 200])); return b, pw, [Why("WrongPassword", [])], None
        if k == 2:       # malformed contents, rightly sealed
            e = w.external(2); x = wallet.encode(e.w, 2); q = rng.randrange(8)
            if q == 0: x = b""
            elif q == 1: x = x[:rng.randrange(len(x))]
            elif q == 2: x = json.dumps(dict(json.loads(x), version=rng.choice([0, 3, 4, 65535]))).encode()
            elif q == 3: x = json.dumps(dict(json.loads(x), data="e30=")).encode()
            elif q == 4: x = gen.rbytes(rng, 40)
            elif q == 5: x = b"null"
            elif q == 6: x = json.dumps(dict(json.loads(x), data="!!")).encode()
            else: x = json.dumps({"version": 2}).encode()
            return S.seal(x, pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), w.it), pw, [Why("DataError", [])], None
        e = w.pick() if rng.randrange(2) else w.external(rng.choice([1, 2, 2]))
        if e is None: return s.blob()
        if k == 3: return e.blob, gen.other_password(rng, e.pw), [Why("WrongPassword", [])], None
        if k == 4:
            i = rng.randrange(len(e.blob)); b = bytearray(e.blob); b[i] ^= 1 << rng.randrange(8); return bytes(b), e.pw, [Why("WrongPassword", [])], None
        if k == 5: return e.blob[:rng.randrange(MIN)], e.pw, [Why("NotEnoughData", [])], None
        return e.blob, e.pw, [], e
    def read(s):
        rng, d, w = s.rng, s.d, s.w; b, pw, why, e = s.blob(); m = rng.choice(w.mgrs); op = rng.choice(["open", "keys_data", "retr_mn", "addnet", "addnet", "chpw", "dec"]); data = bool(why) and why[0].kind == "DataError"
        info = dict(blob=b, password=repr(pw), model=e.w if e else None, manager=sorted(m.nets), words=m.words)
        if op == "dec":
            r = d.call("dec", hx(b), hx(pw)); k = [Why("DecryptionFailed" if x.kind == "WrongPassword" else x.kind) for x in ([] if data else why)]
            return judge(s.sh, d, "decrypt", r, k, **info)
        if op == "chpw":
            return judge(s.sh, d, "change_password", d.call("chpw", m.id, hx(b), hx(pw), hx("new")), [] if data else why, **info)
        if op == "keys_data": return judge(s.sh, d, "keys_data", d.call("keys_data", m.id, hx(b), hx(pw)), why, **info)
        if op == "retr_mn":
            if e and (e.w.mnemonic is None or e.w.lang is None): why = [Why("SeedIsNotSaved", [])]
            return judge(s.sh, d, "retrieve_mnemonic", d.call("retr_mn", m.id, hx(b), hx(pw)), why, **info)
        if op == "open":
            if e: why = [Why("KeyError", [n], n) for n in w.malformed(e, m)]
            r = d.call("open", m.id, hx(b), hx(pw))
            if judge(s.sh, d, "open", r, why, **info) and e:
                s.use(e, m, r.f[0]); d.call("kc_free", r.f[0])
            return
        n = rng.choice(sorted(m.nets) if rng.randrange(3) else NETS + CUST + [rng.getrandbits(32)]); why = list(why)
        if n not in m.nets: why.append(Why("NetworkIsNotSupported", [n], n))
        if e:
            if n in e.w.keys: why.append(Why("KeyAlreadyExist", [n], n))
            x = e.w
            if x.seed is not None:
                if len(x.seed) != 64: why.append(Why("InvalidSeedSize", [len(x.seed)], len(x.seed)))
            elif x.mnemonic is None or x.lang is None: why.append(Why("SeedIsNotSaved", []))
            else: why += phrase_why(x.mnemonic, x.lang, m.words)
        judge(s.sh, d, "add_network", d.call("addnet", m.id, hx(b), hx(pw), n), why, network=n, **info)
    def use(s, e, m, kc):
        rng, d = s.rng, s.d; want = s.w.nets(e, m)
        for _ in range(4):
            n = rng.choice(sorted(want)) if want and rng.randrange(3) else rng.choice(NETS + CUST + [rng.getrandbits(32)])
            net = n if n in NETS else ETH; p = gen.path(rng, net)
            for _ in range(rng.choice([0, 1, 1, 2])): p[rng.randrange(5)] = rng.choice(gen.EDGE + [rng.getrandbits(32)])
            ps = csv(p); msg = gen.message(rng)[:300]; op = rng.choice(["pk", "sign", "verify"]); why = []
            if n not in want: why = [Why("KeyDoesNotExist", [n], n)]
            elif n in NETS and n not in m.custom: why = path_why(n, p)
            sg = b""
            if op == "verify":
                sg = gen.rbytes(rng, rng.some([64, 64, 65, 0, 1, 63, 66, 128, rng.randrange(200)])) if rng.randrange(2) else bytes(64); l = len(sg)
                if l == 65: sg = sg[:64] + bytes([rng.randrange(4)])
                if n in want and n in NETS and n not in m.custom and l not in ((64,) if n == ADA else (64, 65)): why = why + [Why("KeyError", [n], l, dbg=("signature",))]
            r = d.call("pk", kc, n, ps) if op == "pk" else d.call("sign", kc, n, ps, hx(msg)) if op == "sign" else d.call("verify", kc, n, ps, hx(msg), hx(sg))
            judge(s.sh, d, op, r, why, network=n, path=p, signature_length=len(sg), keys=sorted(want))
    def make(s):
        rng, d = s.rng, s.d; m = rng.choice(s.w.mgrs); pw = gen.password(rng)
        if rng.randrange(2):
            sd = gen.rbytes(rng, rng.some([64, 64, 0, 1, 16, 32, 63, 65, 128, rng.randrange(200)]))
            judge(s.sh, d, "create from seed", d.call("data_seed", m.id, hx(sd), hx(pw)), [] if len(sd) == 64 else [Why("InvalidSeedSize", [len(sd)], len(sd))], seed=sd)
        else:
            l = rng.randrange(8); ws = gen.phrase(rng, rng.choice([m.words, m.words, rng.choice(list(bip39.SIZES))]), l).split(" ")
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                k = rng.randrange(4)
                if k == 0: ws[rng.randrange(len(ws))] = rng.choice(["zzz", "Wort", "ä", "abandonn", "", "漢", rng.choice(bip39.WORDS[rng.randrange(8)])])
                elif k == 1: ws = ws[:rng.randrange(1, len(ws) + 1)]
                elif k == 2: ws = ws + [rng.choice(bip39.WORDS[l]) for _ in range(rng.randrange(1, 4))]
                else: ws[rng.randrange(len(ws))] = rng.choice(bip39.WORDS[l])
            t = " ".join(ws); judge(s.sh, d, "create from phrase", d.call("data_mn", m.id, hx(t), hx(pw), l), phrase_why(t, l, m.words), phrase=t, language=bip39.LANGS[l], words=m.words)
    def managers(s):
        rng, d = s.rng, s.d; fs = []
        for _ in range(rng.randrange(0, 5)):
            if rng.randrange(2): n = rng.choice(NETS); fs.append((n,) + wallet.MINBITS[n] + ("0:0:%d" % n,))
            else:
                lo = rng.choice([0, 1, 96, 128, 160, 192, 224, 256, 257, 512]); hi = rng.choice([0, 96, 128, 129, 160, 192, 224, 256, 512, 2**40]); n = rng.randrange(1, 9)
                if lo or hi: fs.append((n, lo, hi, "%d:%d:%d" % (lo, hi, n)))
        lo = max([f[1] for f in fs], default=0); hi = min([f[2] for f in fs], default=2**64 - 1)
        why = [] if 0 < lo < hi else [Why("CantCalculateSeedSize", [lo, hi], lo, hi)]
        r = d.call("mgr_custom", ",".join(f[3] for f in fs) or "-")
        if judge(s.sh, d, "create a manager", r, why, factories=fs):
            i = r.f[0]
            if lo in bip39.BITS:
                for l in (-1, 2): judge(s.sh, d, "generate a phrase", d.call("gen_mn", i, l), [], size=lo)
            else: judge(s.sh, d, "generate a phrase", d.call("gen_mn", i, -1), [Why("MnemonicError", [], lo, dbg=("size",))], size=lo)
            d.call("mgr_free", i)
        nets = [rng.choice(NETS + CUST) for _ in range(rng.randrange(4))]; k = set(nets) & set(NETS)
        lo = max([wallet.MINBITS[n][0] for n in k], default=0); hi = min([wallet.MINBITS[n][1] for n in k], default=2**64 - 1)
        r = d.call("mgr_with", csv(nets))
        if judge(s.sh, d, "create a manager of networks", r, [] if k else [Why("CantCalculateSeedSize", [lo, hi], lo, hi)], networks=nets): d.call("mgr_free", r.f[0])
    def parts(s):
        rng, d, sh = s.rng, s.d, s.sh
        for _ in range(10):
            t = pathtext(rng); judge(sh, d, "path text", d.call("kp_parse", hx(t)), text_why(t), text=t)
        for _ in range(3):
            n = rng.choice(NETS); sd = gen.seed64(rng); g = wallet.key_data(n, sd); k = rng.randrange(3); b = g if k == 0 else gen.rbytes(rng, rng.randrange(0, 200)) if k == 1 else wallet.bad_key(rng, n, sd)
            why = []
            if len(b) != len(g): why = [Why("Key", None, len(b))]
            elif not wallet.valid_key(n, b): why = [Why("Key", None, dbg=("key",))]
            judge(sh, d, "key from data", d.call("f_open", n, hx(b)), why, network=n, data=b)
            b = gen.rbytes(rng, rng.some([64, 64, 0, 1, 63, 65, 96, rng.randrange(200)]))
            judge(sh, d, "key data from seed", d.call("f_data", n, hx(b)), [] if len(b) == 64 else [Why("Key", None, len(b))], network=n, seed=b)
        for _ in range(3):
            l = rng.randrange(8); w = rng.choice([rng.choice(bip39.WORDS[l]), rng.choice(bip39.WORDS[rng.randrange(8)]), "zzz", "", "É", gen.rbytes(rng, 3).hex()])
            judge(sh, d, "word", d.call("word_idx", l, hx(w)), [] if w in bip39.INDEX[l] else [Why("LanguageError", None, dbg=(w,) if w.isascii() else ())], word=w)
            i = rng.choice([0, 2047, 2048, 65535, rng.randrange(65536)]); judge(sh, d, "index", d.call("idx_new", i), [] if i < 2048 else [Why("MnemonicOutOfBound", None, i)], index=i)
            n = rng.randrange(0, 100); r = d.call("ent_to_mn", 0, hx(gen.rbytes(rng, n))); judge(sh, d, "entropy", r, [] if n * 8 in bip39.BITS else [Why("WrongKeySize", None, n * 8)], size=n)
            n = rng.randrange(0, 40); judge(sh, d, "type of words", d.call("type_words", n), [] if n in bip39.SIZES else [Why("WrongNumberOfWords", None, n)], words=n)
            n = rng.choice([rng.randrange(0, 400), 96, 128, 160, 192, 224, 256]); judge(sh, d, "type of bits", d.call("type_bits", n), [] if n in bip39.BITS else [Why("WrongKeySize", None, n)], bits=n)
            n = rng.choice([64, rng.randrange(0, 130)]); judge(sh, d, "seed", d.call("seed_slice", hx(gen.rbytes(rng, n))), [] if n == 64 else [Why("InvalidSeedSize", None, n, 64)], size=n)
            w = rng.choice(list(bip39.SIZES)); ix = bip39.indexes(gen.rbytes(rng, bip39.SIZES[w] // 8)); ix[-1] ^= rng.choice([0, 1, 1 << (w // 3 - 1)])
            why = []
            if bip39.entropy(ix) is None: why = [Why("InvalidChecksum", None, dbg=())]
            r = d.call("idx_to_ent", csv(ix)); judge(sh, d, "checksum", r, why, indexes=ix)
            if why and r.k == "E":
                cs = w // 3; got = ix[-1] & (1 << cs) - 1; v = 0
                for x in ix: v = v << 11 | x
                good = bip39.indexes((v >> cs).to_bytes(bip39.SIZES[w] // 8, "big"))[-1] & (1 << cs) - 1
                if not all(re.search(r"(?<!\d)0*%s(?!\d)" % format(x, "b"), r.disp()) for x in (good, got)): sh.bad("checksum error does not name both checksums", d, reply=r, found=bin(got), computed=bin(good))
def c27(run):
    run.build("checked", "release-fast")
    def f(sh):
        if sh.i < 4: soak.c27(sh)
        st = Story(sh, ("checked", "release-fast")[sh.i % 2])
        while sh.more():
            for _ in range(6): st.read()
            st.make(); st.managers(); st.parts()
    run.shards(f)
    for k in ("open: WrongPassword", "open: NotEnoughData", "open: DataError", "open: KeyError", "open: no reason", "change_password: no reason", "change_password: WrongPassword", "add_network: NetworkIsNotSupported", "add_network: KeyAlreadyExist",
              "add_network: SeedIsNotSaved", "add_network: InvalidSeedSize", "add_network: MnemonicError", "add_network: no reason", "add_network: several reasons", "retrieve_mnemonic: SeedIsNotSaved", "create from phrase: MnemonicError", "create from seed: InvalidSeedSize",
              "create a manager: CantCalculateSeedSize", "sign: KeyDoesNotExist", "sign: no reason", "path text: KeyPath", "path text: no reason", "checksum: InvalidChecksum"): run.need(k, 5)
