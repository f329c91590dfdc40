"""C25: every build configuration offers exactly its networks, with the same behaviour. For each feature set the C
library and its header are built as shipped, and a C application is compiled against them; one model of wallets
judges them all, and wallets travel between the builds."""
import os
from ..core import hx, Driver
from ..oracle import bip39, seal as S
from .. import build, gen, wallet
from ..gen import BTC, ETH, ADA, NETS, H, U32
from ..wallet import W, Bad
from . import path as PT
NET = {"bitcoin": BTC, "ethereum": ETH, "cardano": ADA}
CT = {"btc44": (("kp_btc", "44", 44), BTC), "btc49": (("kp_btc", "49", 49), BTC), "btc84": (("kp_btc", "84", 84), BTC), "eth": (("kp_eth",), ETH), "metamask": (("kp_metamask",), ETH), "ada": (("kp_ada",), ADA)}
class App:
    def __init__(s, name, exe, feats): s.rust = name.startswith("rust"); s.name, s.d, s.feats = name, Driver(exe), feats; s.nets = {NET[f] for f in feats if f in NET}; s.backup = "backup" in feats; s.words = wallet.mgr_words(s.nets)
class E:
    def __init__(s, blob, pw, w, ver, hist): s.blob, s.pw, s.w, s.ver, s.hist = blob, pw, w, ver, hist
class World:
    def __init__(s, sh, apps, it):
        s.sh, s.rng, s.it, s.apps, s.pool = sh, sh.rng, it, apps, []
        for a in apps: s.start(a)
        s.live = [a for a in apps if a.words]
    def bad(s, a, what, e=None, **info): s.sh.bad(what, a.d, build="features " + ",".join(a.feats), history=" / ".join(e.hist[-10:]) if e else "", **info)
    def saw(s, kind, *key, sample=None): s.sh.saw(kind, key, sample)
    def start(s, a):
        r = a.d.call("info"); want = sorted("%s:%d" % (f, NET.get(f, 1)) for f in a.feats); s.saw("header features", a.name, sample=repr(r))
        if sorted(r.f) != want: s.bad(a, "the header announces other features or network numbers than were built", reply=r, want=want)
        if a.rust: s.rust(a)
        r = a.d.call("new"); s.saw("manager", a.name)
        if not a.nets:
            if r.err != "CantCalculateSeedSize": s.bad(a, "a manager without networks is not refused", reply=r)
            return
        if not r.ok: s.bad(a, "no manager", reply=r); return
        a.m = r.f[0]
        for n in NETS + [0, 1, 60, 7, U32, H + 1]:
            h = a.d.call("has", a.m, n); s.saw("has network", a.name, n)
            if not h.ok or h.f[0] != str(n in a.nets).lower(): s.bad(a, "the manager supports other networks than were built", reply=h, network=n)
    def rust(s, a):
        r = a.d.call("all"); s.saw("all networks", a.name)
        if sorted(map(int, r.f)) != sorted(a.nets): s.bad(a, "the list of all networks is not what was built", reply=r)
        if a.name.endswith("*"): return
        for k in range(8):
            sub = [n for i, n in enumerate(NETS) if k >> i & 1]
            for lst in (sub, sub + [5, 60, H + 1], sub[::-1] + sub):
                have = {n for n in lst if n in a.nets}; r = a.d.call("with", ",".join(map(str, lst)) or "-"); s.saw("manager of listed networks", a.name, tuple(lst))
                if not have:
                    if r.err != "CantCalculateSeedSize": s.bad(a, "a manager of networks that are not built is not refused", reply=r, networks=lst)
                    continue
                if not r.ok: s.bad(a, "no manager of listed networks", reply=r, networks=lst); continue
                for n in NETS + [5, 60]:
                    h = a.d.call("has", r.f[0], n)
                    if h.f != [str(n in have).lower()] * 2: s.bad(a, "manager of listed networks supports others", reply=h, network=n, networks=lst)
                g = a.d.call("gen", r.f[0], 0)
                if not g.ok or len(g.b(0).split()) != wallet.mgr_words(have): s.bad(a, "phrase of a manager of listed networks has a wrong length", reply=g, networks=lst)
                a.d.call("mgr_free", r.f[0])
        r = a.d.call("factories")
        if r.k != "X":
            s.saw("factories", a.name); want = ",".join(sorted("%d:%d:%d" % ((n,) + wallet.MINBITS[n]) for n in a.nets))
            if r.f != [want, str(bool(a.nets)).lower()]: s.bad(a, "built-in factories are not what was built", reply=r, want=want)
    def dec(s, blob, pw):
        try: x = wallet.open_blob(blob, pw, s.it)
        except Bad as e: return str(e)
        return x or "the password does not open it"
    def pwd(s): return gen.password(s.rng).replace("\0", "")
    def adopt(s, a, blob, pw, want, hist, what):
        x = s.dec(blob, pw); e = E(blob, pw, want, 2, hist)
        if isinstance(x, str): s.bad(a, what + ": independent decoder: " + x[:500], e, blob=blob); return None
        if x[1] != want: s.bad(a, what + ": contents differ", e, got=x[1], want=want); return None
        e.ver = x[0]; s.pool.append(e)
        if len(s.pool) > 30: s.pool.pop(s.rng.randrange(len(s.pool)))
        return e
    def create(s):
        rng = s.rng; a = rng.choice(s.live); pw = s.pwd()
        if rng.randrange(2):
            seed = gen.seed64(rng); r = a.d.call("data_seed", a.m, hx(seed), hx(pw)); w = W(seed); h = "from seed"
        else:
            l = rng.randrange(8); ph = gen.phrase(rng, a.words, l); r = a.d.call("data_mn", a.m, hx(ph), hx(pw), l); w = W(None, ph, l); h = "from %d words" % a.words
        w.keys = {n: wallet.key_data(n, w.root()) for n in a.nets}; hist = ["created by %s %s" % (a.name, h)]; s.saw("create", a.name, repr(w), sample=hist[0])
        if not r.ok: s.bad(a, "creating a wallet fails", reply=r, want=w); return None
        return s.adopt(a, r.b(0), pw, w, hist, "created wallet")
    def generate(s):
        rng = s.rng; a = rng.choice(s.live); l = rng.randrange(8); r = a.d.call("gen", a.m, l); s.saw("generate", a.name, l, r.f[0] if r.ok else "")
        idx = bip39.parse(r.b(0).decode(), l) if r.ok else None
        if idx is None or len(idx) != a.words: s.bad(a, "generated phrase has a wrong length or words", reply=r, want=a.words)
    def external(s):
        rng = s.rng; pw = s.pwd(); ver = rng.choice([1, 2]); w = W()
        for n in rng.sample(NETS, rng.randrange(4)): w.keys[n] = wallet.key_data(n, gen.seed64(rng)) if rng.randrange(5) else wallet.bad_key(rng, n, gen.seed64(rng))
        for n in rng.sample([5, 60, H + 1, U32], rng.randrange(3)): w.keys[n] = gen.rbytes(rng, rng.some([0, 5, 96]))
        if ver == 2:
            k = rng.randrange(3)
            if k == 0: w.seed = gen.seed64(rng)
            if k == 1: w.lang = rng.randrange(8); w.mnemonic = gen.phrase(rng, rng.choice([9, 12, 12, 15, 24]), w.lang)
        e = E(S.seal(wallet.encode(w, ver, rng), pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), s.it), pw, w, ver, ["external V%d %r" % (ver, w)]); s.pool.append(e); s.saw("external", repr(w)); return e
    def pick(s):
        if len(s.pool) < 4 or s.rng.randrange(8) == 0: return s.rng.choice([s.create, s.external])()
        return s.rng.choice(s.pool)
    def open(s, e):
        rng = s.rng; a = rng.choice(s.live); want = {n: k for n, k in e.w.keys.items() if n in a.nets}; mal = [n for n, k in want.items() if not wallet.valid_key(n, k)]
        r = a.d.call("open", a.m, hx(e.blob), hx(e.pw)); s.saw("open", a.name, e.blob[:44], sample="%s by %s" % (sorted(e.w.keys), a.name))
        if mal:
            s.saw("open refused: malformed key", a.name, e.blob[:44])
            if r.err != "KeyError": s.bad(a, "malformed key data of a network of this build are not refused", e, reply=r, malformed=mal)
            if r.ok: a.d.call("kc_free", r.f[0])
            return
        if not r.ok: s.bad(a, "a wallet does not open in this build", e, reply=r, stored=sorted(e.w.keys)); return
        if sorted(map(int, r.f[1:])) != sorted(want): s.bad(a, "opened networks are not the stored ones of this build", e, reply=r, want=sorted(want))
        for _ in range(3): s.use(a, r.f[0], want, e)
        a.d.call("kc_free", r.f[0])
    def use(s, a, kc, keys, e):
        rng = s.rng; n = rng.choice(NETS + sorted(keys) + [rng.choice([5, 60, U32])]); p = gen.path(rng, n if n in NETS else ETH)
        foreign = n in NETS and rng.randrange(5) == 0
        if foreign: p = gen.path(rng, rng.choice(NETS)); p[rng.randrange(5)] ^= rng.choice([1, H])
        ps = ",".join(map(str, p)); msg = gen.message(rng); s.saw("use %s" % ("of a network of the build" if n in keys else "of an absent network"), a.name, n, ps, msg)
        if n not in keys:
            for r in (a.d.call("pk", kc, n, ps), a.d.call("sign", kc, n, ps, hx(msg)), a.d.call("verify", kc, n, ps, hx(msg), hx(bytes(64)))):
                if r.err != "KeyDoesNotExist": s.bad(a, "use of a network that is not there is not refused", e, reply=r, network=n)
            return
        pk, sg = a.d.call("pk", kc, n, ps), a.d.call("sign", kc, n, ps, hx(msg))
        if not wallet.valid_path(n, p):
            for r in (pk, sg, a.d.call("verify", kc, n, ps, hx(msg), hx(bytes(64)))):
                if r.err not in ("KeyError", "KeyPathError"): s.bad(a, "a path of another network is accepted in this build", e, reply=r, network=n, path=ps)
            return
        if not pk.ok or pk.b(0) != wallet.pub(n, keys[n], p): s.bad(a, "another public key than in the other builds", e, reply=pk, network=n, path=ps)
        if not sg.ok or not wallet.sig_ok(n, wallet.node(n, keys[n], p), msg, sg.b(0)): s.bad(a, "no valid signature", e, reply=sg, network=n, path=ps)
        else:
            v = a.d.call("verify", kc, n, ps, hx(msg), sg.f[0]); x = bytearray(sg.b(0)); x[rng.randrange(64)] ^= 1 << rng.randrange(8)
            if not v.ok or v.f[0] != "true": s.bad(a, "own signature is not accepted", e, reply=v, network=n)
            v = a.d.call("verify", kc, n, ps, hx(msg), hx(bytes(x)))
            if v.ok and v.f[0] != "false": s.bad(a, "a changed signature is accepted", e, reply=v, network=n)
    def addnet(s, e):
        rng = s.rng; a = rng.choice(s.live); n = rng.choice(NETS + sorted(a.nets) + [5]); w = e.w; bad = set()
        if n not in a.nets: bad.add("NetworkIsNotSupported")
        if n in w.keys: bad.add("KeyAlreadyExist")
        if w.seed is None:
            if w.mnemonic is None: bad.add("SeedIsNotSaved")
            elif len(w.mnemonic.split()) != a.words: bad.add("MnemonicError")
        r = a.d.call("addnet", a.m, hx(e.blob), hx(e.pw), n); h = e.hist + ["%s adds %d" % (a.name, n)]
        if bad:
            s.saw("add refused: " + "+".join(sorted(bad)), a.name, e.blob[:44], n)
            if r.err not in bad: s.bad(a, "adding a network must be refused with one of %s" % sorted(bad), e, reply=r, network=n)
            return
        s.saw("add", a.name, e.blob[:44], n)
        if not r.ok: s.bad(a, "adding a network of this build fails", e, reply=r, network=n); return
        x = w.copy(); x.keys[n] = wallet.key_data(n, w.root()); s.adopt(a, r.b(0), e.pw, x, h, "wallet with an added network")
    def chpw(s, e):
        a = s.rng.choice(s.live); np = s.pwd(); r = a.d.call("chpw", a.m, hx(e.blob), hx(e.pw), hx(np)); s.saw("password change", a.name, e.blob[:44])
        if not r.ok: s.bad(a, "changing the password fails", e, reply=r); return
        s.adopt(a, r.b(0), np, e.w.copy(), e.hist + ["password changed by " + a.name], "wallet after a password change")
    def backup(s, e):
        rng = s.rng; B = [a for a in s.live if a.backup]
        if not B: return
        a = rng.choice(B); s.saw("backup", a.name, e.blob[:44])
        r = a.d.call("keys_data", a.m, hx(e.blob), hx(e.pw)); want = sorted("%d:%s" % (n, hx(k)) for n, k in e.w.keys.items())
        if not r.ok or sorted(r.f) != want: s.bad(a, "stored keys read back differ", e, reply=r, want=want)
        r = a.d.call("retr_mn", a.m, hx(e.blob), hx(e.pw))
        ok = r.err == "SeedIsNotSaved" if e.w.mnemonic is None or e.w.lang is None else r.ok and r.b(0).decode() == e.w.mnemonic and int(r.f[1]) == e.w.lang
        if not ok: s.bad(a, "phrase read back differs", e, reply=r)
    def wrong(s, e):
        a = s.rng.choice(s.live); pw = gen.other_password(s.rng, e.pw).replace("\0", "")
        if pw == e.pw: return
        for op, x in (("open", ()), ("chpw", (hx("n"),)), ("addnet", (s.rng.choice(sorted(a.nets)),))):
            r = a.d.call(op, a.m, hx(e.blob), hx(pw), *x); s.saw("wrong password", a.name, e.blob[:44], op)
            if r.err != "WrongPassword": s.bad(a, op + " with a wrong password is not refused", e, reply=r)
    def paths(s):
        rng = s.rng; a = rng.choice(s.apps); ops = [] if a.rust else [c for c, (_, n) in CT.items() if n in a.nets]
        if ops and rng.randrange(3):
            c = rng.choice(ops); t, ac, ch, ad = rng.randrange(2), rng.choice([gen.soft(rng), gen.index(rng)]), rng.choice([0, 1, 0, 1, 2, H]), rng.choice([gen.soft(rng), gen.index(rng)])
            if c in ("eth", "metamask"): t = ch = ad = 0; r = a.d.call(c, ac)
            elif c == "ada": t = 0; r = a.d.call(c, ac, ch, ad)
            else: r = a.d.call(c, t, ac, ch, ad)
            w = PT.ctor_want(CT[c][0], t, ac, ch, ad); s.saw("path constructor", a.name, c, t, ac, ch, ad)
            if (not r.ok or r.f[0] != ",".join(map(str, w))) if isinstance(w, list) else r.err != "KeyPathError": s.bad(a, "path constructor differs", call=(c, t, ac, ch, ad), reply=r, want=w)
        else:
            t = PT.text(rng).replace("\0", "")
            kind, w = PT.spelled(t); r = a.d.call("parse", hx(t)); s.saw("path text", a.name, t)
            if kind == "exact" and (not r.ok or r.f[0] != ",".join(map(str, w))): s.bad(a, "path text is read differently", text=repr(t), reply=r, want=w)
            if kind == "refuse" and r.err != "KeyPathError": s.bad(a, "malformed path text is accepted", text=repr(t), reply=r)
            if kind == "maybe" and r.ok and r.f[0] != ",".join(map(str, w)): s.bad(a, "path text is read differently", text=repr(t), reply=r, want=w)
    def step(s):
        k = s.rng.randrange(12)
        if k == 0: return s.create()
        if k == 1: return s.generate()
        if k == 2: return s.paths()
        e = s.pick()
        if e: [s.open, s.open, s.open, s.open, s.addnet, s.addnet, s.chpw, s.backup, s.wrong][k - 3](e)
def c25(run):
    names = list(build.config_sets())
    run.build("checked-fast")
    from concurrent.futures import ThreadPoolExecutor
    def make(full):
        with ThreadPoolExecutor(2) as ex:
            c, r = ex.submit(build.configs, names, full), ex.submit(build.rust_configs, names, full)
            return dict(c.result(), **{"rust " + k: v for k, v in r.result().items()})
    bins = make(False); fulls = make(True) if run.tier == "thorough" else {}
    run.extra["builds"] = {n: {"features": f, "as": "Rust crate" if n.startswith("rust") else "C, shared library" if i % 2 else "C, static library"} for i, (n, (x, f, err)) in enumerate(bins.items())}
    for n, (x, f, err) in list(bins.items()) + list(fulls.items()):
        if err: run.viol.append({"what": "a C application does not build against the header and library of a feature set", "info": {"features": ",".join(f), "gcc": err}, "driver": "?"})
    if run.viol: return
    def main(sh):
        it = wallet.iterations(sh.d("checked-fast"))
        w = World(sh, [App(n, x, f) for n, (x, f, _) in bins.items()], it)
        try:
            while sh.more(): w.step()
        finally:
            for a in w.apps: a.d.close()
    def full(sh):
        # the libraries as shipped (release profile, full key derivation)
        w = World(sh, [App(n, x, f) for n, (x, f, _) in fulls.items()], S.ITER)
        try:
            while sh.more(): w.step()
        finally:
            for a in w.apps: a.d.close()
    if fulls: run.shards(full, budget=run.budget * .4)
    run.shards(main)
    for k, n in (("header features", 34), ("manager", 34), ("manager of listed networks", 300), ("factories", 8), ("create", 100), ("generate", 50), ("external", 30), ("open", 300), ("use of a network of the build", 200), ("use of an absent network", 100), ("add", 30), ("password change", 50), ("backup", 50), ("path constructor", 50), ("open refused: malformed key", 10)): run.need(k, n)
