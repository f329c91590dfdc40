"""C04, C05, C06, C23: wallet histories against an executable wallet model.
Every blob the library emits is decoded by the independent decoder; every step is judged
by the property it belongs to (the other properties' steps are adopted as observed)."""
import base64, itertools, json
from ..core import csv, hx, Rep
from ..oracle import seal as S, bip39, secp, ed
from .. import gen, wallet
from . import soak
from ..wallet import W, Bad
from ..gen import BTC, ETH, ADA, NETS, H
WIDE = [17, 33, 65, 129, 257, 300, 600, 1025, 1100, 2049, 4100]
CUST = [5, 7, 0, 0xffffffff, 0x80000001, 60]
class Mgr:
    def __init__(s, id, nets, words, custom=()): s.id, s.nets, s.words, s.custom = id, set(nets), words, set(custom)
    def key_data(s, n, seed): return wallet.custom_data(n, seed) if n in s.custom else wallet.key_data(n, seed)
class E:
    """a wallet blob with its password and contents by the model"""
    def __init__(s, blob, pw, w, ver, hist): s.blob, s.pw, s.w, s.ver, s.hist = blob, pw, w, ver, hist
class World:
    def __init__(s, sh, flavor, prop):
        s.sh, s.prop, s.rng, s.d = sh, prop, sh.rng, sh.d(flavor)
        s.it = wallet.iterations(s.d); s.pool = []; s.mgrs = []; s.kcs = []
        if s.it is None: raise RuntimeError("sealed form of the probe is not the documented one (C01)")
        for n in (1, 2, 3):
            for nets in itertools.combinations(NETS, n):
                r = s.d.call("mgr_with", ",".join(map(str, nets)))
                if r.ok: s.mgrs.append(Mgr(r.f[0], nets, wallet.mgr_words(nets)))
        s.mgrs.append(Mgr(s.d.call("mgr_new").f[0], NETS, 12))
        for nets, cust, lo, hi in [((BTC, ETH), (5,), 128, 256), ((ADA,), (0, 7), 96, 256), ((), (0xffffffff, 0x80000001), 160, 256), ((BTC, ADA), (60,), 256, 512), (NETS, CUST, 128, 200), ((), (5,), 192, 200), ((ETH,), (7,), 224, 512)]:
            r = s.d.call("mgr_custom", ",".join(["0:0:%d" % n for n in nets] + ["%d:%d:%d" % (lo, hi, n) for n in cust]))
            if r.ok: s.mgrs.append(Mgr(r.f[0], set(nets) | set(cust), max([lo] + [wallet.MINBITS[n][0] for n in nets]) // 32 * 3, cust))
        if s.rng.randrange(2):          # a manager of many networks
            cust = [c for c in s.rng.sample(range(1, 1 << 31), soak.many(s.rng, s.rng.choice(WIDE[:7])) % 1500 + 1) if c not in NETS]
            r = s.d.call("mgr_custom", ",".join(["128:256:%d" % n for n in cust] + ["0:0:%d" % n for n in NETS]))
            if r.ok: s.mgrs.append(Mgr(r.f[0], set(NETS) | set(cust), 12, cust))
            s.saw("manager of many networks", len(cust))
        s.bynets = {frozenset(m.nets): m for m in s.mgrs}
    # -- helpers
    def bad(s, prop, what, e=None, **info):
        if prop == s.prop: s.sh.bad(what, s.d, history=" / ".join(e.hist[-12:]) if e else "", password=repr(e.pw) if e else "", **info)
        else: s.sh.counts["steps off the model belonging to " + prop] += 1
    def saw(s, kind, key=None, sample=None): s.sh.saw(kind, key, sample)
    def dec(s, blob, pw):
        """(version, W), or a string telling what is wrong"""
        try: x = wallet.open_blob(blob, pw, s.it)
        except Bad as e: return "payload: %s" % e
        return x if x else "the password does not open it"
    def new(s, blob, pw, want, hist, prop, what):
        """judge and adopt an emitted blob"""
        x = s.dec(blob, pw); e = E(blob, pw, want, 2, hist)
        if isinstance(x, str): s.bad(prop, what + ": independent decoder: " + x, e, blob=blob, want=want); return None
        if x[1] != want: s.bad(prop, what + ": contents differ", e, got=x[1], want=want)
        e.ver, e.w = x
        s.pool.append(e)
        if len(s.pool) > 24: s.pool.pop(s.rng.randrange(len(s.pool)))
        return e
    # -- making wallets
    def create(s):
        rng = s.rng; m = rng.choice(s.mgrs); pw = gen.password(rng)
        if rng.randrange(2):
            seed = gen.seed64(rng); r = s.d.call("data_seed", m.id, hx(seed), hx(pw))
            want = W(seed, keys={n: m.key_data(n, seed) for n in m.nets}); hist = ["create from seed for %s" % sorted(m.nets)]
        else:
            lang = rng.randrange(-1, 8); l = max(lang, 0); ph = gen.phrase(rng, m.words, l)
            r = s.d.call("data_mn", m.id, hx(ph), hx(pw), lang); sd = bip39.seed(ph)
            want = W(None, ph, l, {n: m.key_data(n, sd) for n in m.nets}); hist = ["create from %d words in %s for %s" % (m.words, bip39.NAMES[l], sorted(m.nets))]
        s.saw("create", (m.id, repr(want)[:200], pw), hist[0])
        if not r.ok: s.bad("C06", "creating a wallet fails", E(b"", pw, want, 2, hist), reply=r, want=want); return None
        x = s.dec(r.b(0), pw)
        if not isinstance(x, str) and x[0] != 2: s.bad("C06", "written wallet is not version 2", None, version=x[0])
        return s.new(r.b(0), pw, want, hist, "C06", "created wallet")
    def external(s, ver=None):
        rng = s.rng; pw = gen.password(rng); ver = ver or rng.choice([1, 2, 2])
        keys = {}
        for n in rng.sample(NETS, rng.randrange(4)): keys[n] = wallet.key_data(n, gen.seed64(rng))
        if rng.randrange(6) == 0: n = rng.choice(NETS); keys[n] = wallet.bad_key(rng, n, gen.seed64(rng))
        for n in rng.sample(CUST + [rng.getrandbits(32), 99], rng.randrange(4)):
            if n not in keys and n not in NETS: keys[n] = gen.rbytes(rng, rng.some([0, 1, 5, 77, 96, 200]))
        if rng.randrange(60) == 0:
            k = min(soak.many(rng, rng.choice(WIDE)), 20000)
            for n in rng.sample(range(1 << 32), k):
                if n not in keys and n not in NETS: keys[n] = gen.rbytes(rng, rng.choice([0, 1, 5, 40]))
            s.saw("wallet of many keys", len(keys))
        w = W(keys=keys)
        if ver == 2:
            k = rng.randrange(6)
            if k in (0, 1, 5): w.seed = gen.seed64(rng)
            if k in (2, 3, 5): w.lang = rng.randrange(8); w.mnemonic = gen.phrase(rng, rng.choice([9, 12, 12, 12, 15, 18, 21, 24]), w.lang)
            if k == 3 and rng.randrange(4) == 0: w.mnemonic = rng.choice(["", "not a phrase", w.mnemonic + " ", w.mnemonic.replace(" ", "  ", 1), "é" * 40, w.mnemonic.rsplit(" ", 1)[0]])
            if k == 2 and rng.randrange(6) == 0: w.lang = None
            if k == 1 and rng.randrange(4) == 0: w.seed = gen.rbytes(rng, rng.some([0, 1, 32, 63, 65, 128]))
        plain = wallet.encode(w, ver, rng if rng.randrange(3) else None)
        e = E(S.seal(plain, pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), s.it), pw, w, ver, ["externally encoded V%d %r" % (ver, w)])
        s.pool.append(e); s.saw("external V%d" % ver, repr(w)); return e
    def pick(s):
        if len(s.pool) < 3 or s.rng.randrange(12) == 0: return s.rng.choice([s.create, s.external])()
        return s.rng.choice(s.pool)
    # -- judged observations of one wallet
    def nets(s, e, m):
        """the stored keys an opened keychain uses"""
        out = {}
        for n in e.w.keys:
            if n in m.nets: out[n] = e.w.keys[n]
        return out
    def malformed(s, e, m): return [n for n, v in s.nets(e, m).items() if n in NETS and n not in m.custom and not wallet.valid_key(n, v)]
    def open(s, e, prop, m=None, use=True):
        rng = s.rng; m = m or rng.choice(s.mgrs); r = s.d.call("open", m.id, hx(e.blob), hx(e.pw)); want = s.nets(e, m)
        s.saw("open", (e.blob[:44], m.id), "%s opened for %s" % (sorted(e.w.keys), sorted(m.nets)))
        mal = s.malformed(e, m)
        if mal:
            s.saw("open refused: malformed key", (e.blob[:44], m.id))
            if r.ok: s.d.call("kc_free", r.f[0])
            if r.err != "KeyError" or not any(str(n) in r.dbg() for n in mal): s.bad(prop, "a wallet with malformed key data of a supported network does not fail with its key error", e, reply=r, malformed=mal, model=e.w, manager=sorted(m.nets))
            return None
        if not r.ok: s.bad(prop, "wallet does not open", e, reply=r, model=e.w, manager=sorted(m.nets)); return None
        got = set(map(int, r.f[1].split(","))) if r.f[1] != "-" else set()
        if got != set(want): s.bad(prop, "opened networks differ", e, got=sorted(got), want=sorted(want), stored=sorted(e.w.keys), manager=sorted(m.nets))
        kc = r.f[0]
        for n in NETS + rng.sample(CUST, 2) + [rng.getrandbits(32)]:
            h = s.d.call("kc_has", kc, n)
            if h.f[0] != str(n in want).lower(): s.bad(prop, "has_network is wrong", e, network=n, got=h.f[0], stored=sorted(e.w.keys), manager=sorted(m.nets))
        if use: s.use(e, m, kc, want, prop)
        s.d.call("kc_free", kc)
        return True
    def use(s, e, m, kc, want, prop, n_ops=3):
        rng = s.rng; d = s.d
        for _ in range(n_ops):
            n = rng.choice(sorted(want)) if want and rng.randrange(4) else rng.choice(NETS + CUST + [rng.getrandbits(32)])
            p = gen.path(rng, n) if n in NETS else gen.path(rng, ETH); ps = ",".join(map(str, p)); msg = gen.message(rng)
            op = rng.choice(["pk", "sign", "verify"])
            if op == "pk": r = d.call("pk", kc, n, ps)
            elif op == "sign": r = d.call("sign", kc, n, ps, hx(msg))
            else: r = d.call("verify", kc, n, ps, hx(msg), hx(bytes(64)))
            s.saw("use %s %s" % (op, "stored" if n in want else "absent"), (e.blob[:44], n, ps, msg))
            if n not in want:
                if r.err != "KeyDoesNotExist" or str(n) not in r.dbg():
                    s.bad(prop, "%s on an absent network: no KeyDoesNotExist naming it" % op, e, reply=r, network=n)
                continue
            kd = want[n]
            if n in m.custom: ex = {"pk": kd, "sign": msg, "verify": None}[op]
            elif op == "pk": ex = wallet.pub(n, kd, p)
            elif op == "sign":
                q = d.call("f_sign", n, hx(kd), ps, hx(msg)); ex = q.b(0) if q.ok else None
            else: ex = None
            if op == "verify":
                if not r.ok or r.f[0] != str(n in m.custom and msg == bytes(64)).lower(): s.bad(prop, "an all-zero signature is judged wrongly", e, reply=r, network=n)
            elif not r.ok or r.b(0) != ex: s.bad(prop, "%s does not use the network's own stored key" % op, e, reply=r, want=ex, network=n, path=ps)
            if op == "sign" and r.ok and n not in m.custom:
                v = d.call("verify", kc, n, ps, hx(msg), r.f[0])
                if not v.ok or v.f[0] != "true": s.bad(prop, "own signature is not accepted", e, reply=v, network=n)
    def refusals(s, e):
        """a run of refused calls on a manager and on one keychain changes nothing for what comes after"""
        rng = s.rng; d = s.d; m = rng.choice(s.mgrs)
        if s.malformed(e, m): return
        for _ in range(rng.choice([0, 0, 3, 5, 9])): d.call("open", m.id, hx(e.blob), hx(gen.other_password(rng, e.pw)))
        r = d.call("open", m.id, hx(e.blob), hx(e.pw)); want = s.nets(e, m)
        if not r.ok: return s.bad("C23", "wallet does not open after refused attempts", e, reply=r)
        kc = r.f[0]; n = rng.choice(sorted(want) or NETS)
        for _ in range(2):
            op = rng.choice(["sign", "sign", "pk", "verify", "mixed"]); how = rng.choice(["path", "path", "network", "mixed"]); k = rng.choice([1, 3, 4, 5, 6, 8, 10, 11, 12, 16, 17, 33, 70]); refused = 0
            for _ in range(k):
                o = rng.choice(["sign", "pk", "verify"]) if op == "mixed" else op; h = rng.choice(["path", "network"]) if how == "mixed" else how
                q = [7, 0, 0, 0, 0] if h == "path" else gen.path(rng, n) if n in NETS else gen.path(rng, ETH); x = n if h == "path" else rng.choice([1234567, 99, 3])
                r = d.call(o, kc, x, csv(q), *({"sign": [hx(b"m")], "verify": [hx(b"m"), hx(bytes(64))], "pk": []}[o])); refused += r.k == "E"
            s.saw("refused calls in a row", (e.blob[:44], op, how, k, refused))
            s.use(e, m, kc, want, "C23", rng.choice([1, 4]))
        d.call("kc_free", kc)
    def keys_data(s, e, prop):
        r = s.d.call("keys_data", s.rng.choice(s.mgrs).id, hx(e.blob), hx(e.pw)); s.saw("keys_data", (e.blob[:44], 1))
        want = ["%d:%s" % (n, hx(v)) for n, v in sorted(e.w.keys.items())]
        if not r.ok or r.f != want: s.bad(prop, "stored keys read back differ", e, reply=r, want=want)
    def retr(s, e, prop):
        r = s.d.call("retr_mn", s.rng.choice(s.mgrs).id, hx(e.blob), hx(e.pw)); s.saw("retr_mn", (e.blob[:44], 2))
        if e.w.mnemonic is None or e.w.lang is None: ok = r.err == "SeedIsNotSaved"
        else: ok = r.ok and r.b(0).decode() == e.w.mnemonic and int(r.f[1]) == e.w.lang
        if not ok: s.bad(prop, "phrase read back differs", e, reply=r, model=e.w)
    # -- steps
    def chpw(s, e):
        rng = s.rng; m = rng.choice(s.mgrs); np = rng.choice([gen.password(rng), gen.other_password(rng, e.pw), e.pw, ""])
        r = s.d.call("chpw", m.id, hx(e.blob), hx(e.pw), hx(np)); s.saw("change password", (e.blob[:44], np), "%r -> %r" % (e.pw[:40], np[:40]))
        h = e.hist + ["password %r -> %r" % (e.pw[:30], np[:30])]
        if not r.ok: s.bad("C04", "changing the password fails", e, reply=r, new=repr(np)); return
        n = s.new(r.b(0), np, e.w.copy(), h, "C04", "wallet after a password change")
        if n and np.encode().rstrip(b"\0") != e.pw.encode().rstrip(b"\0"):
            for op, a in (("open", ()), ("keys_data", ())):
                q = s.d.call(op, m.id, hx(n.blob), hx(e.pw)); s.saw("old password refused", (n.blob[:44], op))
                if q.err != "WrongPassword": s.bad("C04", "the old password still works", n, reply=q, old=repr(e.pw))
            q = s.d.call("open", m.id, hx(e.blob), hx(e.pw))
            if q.err == "WrongPassword": s.bad("C04", "the input data no longer opens with the old password", e, reply=q)
            elif q.ok: s.d.call("kc_free", q.f[0])
        return n
    def chpw_wrong(s, e):
        rng = s.rng; wp = gen.other_password(rng, e.pw); np = rng.choice([e.pw, wp, gen.password(rng)])
        r = s.d.call("chpw", rng.choice(s.mgrs).id, hx(e.blob), hx(wp), hx(np)); s.saw("change with wrong password", (e.blob[:44], wp))
        if r.err != "WrongPassword": s.bad("C04", "password change with a wrong old password does not fail", e, reply=r, given=repr(wp), new=repr(np))
    def twin(s, a, b):
        """later abilities: the same step on the wallet before and after a password change"""
        rng = s.rng; m = rng.choice(s.mgrs); n = rng.choice(NETS + CUST); d = s.d
        s.saw("same step before and after", (a.blob[:44], b.blob[:44], m.id, n))
        for op in ("open", "keys_data", "retr_mn", "addnet"):
            ra, rb = [d.call(op, m.id, hx(e.blob), hx(e.pw), *([n] if op == "addnet" else [])) for e in (a, b)]
            if op == "open": xa, xb = [(r.err, r.ok and r.f[1]) for r in (ra, rb)]
            elif op == "addnet":
                xa, xb = [(r.err, repr(s.dec(r.b(0), e.pw)) if r.ok else 0) for r, e in ((ra, a), (rb, b))]
            else: xa, xb = [(r.err, r.f if r.ok else 0) for r in (ra, rb)]
            if xa != xb: s.bad("C04", "%s differs before and after a password change" % op, b, before=xa, after=xb, manager=sorted(m.nets), network=n)
            if op == "open" and ra.ok and rb.ok:
                for net in sorted(s.nets(a, m)):
                    ps = ",".join(map(str, gen.path(rng, net if net in NETS else BTC)))
                    pa, pb = d.call("pk", ra.f[0], net, ps), d.call("pk", rb.f[0], net, ps)
                    if pa.f != pb.f or pa.k != pb.k: s.bad("C04", "keys differ before and after a password change", b, before=pa, after=pb, network=net)
            if op == "open":
                for r in (ra, rb):
                    if r.ok: d.call("kc_free", r.f[0])
    def addnet(s, e):
        rng = s.rng; m = rng.choice(s.mgrs); w = e.w
        fresh = sorted(m.nets - set(w.keys)); n = rng.choice(fresh) if fresh and rng.randrange(4) else rng.choice(NETS + CUST + [rng.getrandbits(32)])
        pw = e.pw; bad = set()
        if rng.randrange(10) == 0: pw = gen.other_password(rng, e.pw); bad.add("WrongPassword")
        if n not in m.nets: bad.add("NetworkIsNotSupported")
        if n in w.keys:
            bad.add("KeyAlreadyExist")
            if n in m.nets and n in NETS and not wallet.valid_key(n, w.keys[n]): s.saw("add over a malformed key", (e.blob[:44], n, m.id))
        seed = None
        if w.seed is not None:
            if len(w.seed) == 64: seed = w.seed
            else: bad.add("InvalidSeedSize")
        elif w.mnemonic is not None and w.lang is not None:
            idx = bip39.parse(w.mnemonic, w.lang)
            if idx is None or len(idx) != m.words: bad.add("MnemonicError")
            else: seed = bip39.seed(w.mnemonic)
        else: bad.add("SeedIsNotSaved")
        r = s.d.call("addnet", m.id, hx(e.blob), hx(pw), n)
        h = e.hist + ["add %d by manager of %s" % (n, sorted(m.nets))]
        if bad:
            s.saw("add refused: " + "+".join(sorted(bad)), (e.blob[:44], n, m.id))
            if r.k != "E" or r.err not in bad: s.bad("C05", "adding must be refused with one of %s" % sorted(bad), e, reply=r, network=n, manager=sorted(m.nets), model=w)
            elif r.err in ("NetworkIsNotSupported", "KeyAlreadyExist") and str(n) not in r.dbg(): s.bad("C05", "refusal does not name the network", e, reply=r, network=n)
            return
        s.saw("add", (e.blob[:44], n, m.id), "%d to %s" % (n, sorted(w.keys)))
        if not r.ok: s.bad("C05", "adding a network fails", e, reply=r, network=n, manager=sorted(m.nets), model=w); return
        want = w.copy(); want.keys[n] = m.key_data(n, seed)
        x = s.new(r.b(0), e.pw, want, h, "C05", "wallet after adding a network")
        if x and s.prop == "C05":
            # the relational form: created with that network from the start
            c = s.bynets.get(frozenset(want.keys))
            own = {k: (v == (c.key_data(k, seed) if c else None)) for k, v in want.keys.items()}
            if c and all(own.values()) and (w.seed is None) != (w.mnemonic is None):
                if w.seed is not None: q = s.d.call("data_seed", c.id, hx(w.seed), hx(e.pw))
                elif c.words == m.words: q = s.d.call("data_mn", c.id, hx(w.mnemonic), hx(e.pw), w.lang)
                else: return x
                s.saw("compared with created from the start", (e.blob[:44], n))
                if q.ok:
                    y = s.dec(q.b(0), e.pw)
                    if isinstance(y, str) or y[1] != x.w: s.bad("C05", "differs from a wallet created with the network from the start", x, created=y, added=x.w)
            if s.rng.randrange(3) == 0: s.open(x, "C05", m)
        return x
def go(run, prop, steps, fast=0.75, extra=None):
    run.build("checked", "release-fast")
    def hist(flavor):
        def f(sh):
            if extra and flavor == "release-fast": extra(sh)
            while sh.more():
                w = World(sh, flavor, prop)
                for _ in range(400 if flavor != "checked" else 40):
                    if not sh.more(): break
                    steps(w)
                sh.d(flavor).close(); del sh.drv[flavor]
        return f
    run.shards(hist("release-fast"), budget=run.budget * fast)
    run.shards(hist("checked"), budget=run.budget * (1 - fast))
# ------------------------------------------------------------------ C04
def c04(run):
    def steps(w):
        e = w.pick(); k = w.rng.randrange(10)
        if e is None: return
        if k < 5:
            n = w.chpw(e)
            if n and w.rng.randrange(2): w.twin(e, n)
        elif k == 5: w.chpw_wrong(e)
        elif k < 8: w.addnet(e)
        else: w.open(e, "C04"); w.keys_data(e, "C04"); w.retr(e, "C04")
    go(run, "C04", steps)
    for k, n in (("change password", 100), ("old password refused", 50), ("change with wrong password", 20), ("same step before and after", 20)): run.need(k, n)
# ------------------------------------------------------------------ C05
def c05(run):
    def steps(w):
        e = w.pick(); k = w.rng.randrange(10)
        if e is None: return
        if k < 8: w.addnet(e)
        elif k == 8: w.chpw(e)
        else: w.create()
    go(run, "C05", steps)
    for k, n in (("add", 100), ("compared with created from the start", 10), ("add refused: KeyAlreadyExist", 5), ("add refused: NetworkIsNotSupported", 5), ("add refused: SeedIsNotSaved", 5), ("add refused: WrongPassword", 5)): run.need(k, n)
# ------------------------------------------------------------------ C23
def c23(run):
    def steps(w):
        rng = w.rng; e = w.pick(); k = rng.randrange(13)
        if e is None: return
        if k < 7: w.open(e, "C23")
        elif k == 12: w.refusals(e)
        elif k == 7:   # two keychains open at once, used in turn, wallet untouched
            m1, m2 = rng.choice(w.mgrs), rng.choice(w.mgrs); e2 = w.pick()
            if e2 is None: return
            r1, r2 = w.d.call("open", m1.id, hx(e.blob), hx(e.pw)), w.d.call("open", m2.id, hx(e2.blob), hx(e2.pw))
            if w.malformed(e, m1) or w.malformed(e2, m2):
                for r in (r1, r2):
                    if r.ok: w.d.call("kc_free", r.f[0])
                return w.saw("malformed key in one of two", None)
            if not r1.ok or not r2.ok: return w.bad("C23", "wallet does not open", e, r1=r1, r2=r2)
            for _ in range(3):
                w.use(e, m1, r1.f[0], w.nets(e, m1), "C23", 1); w.use(e2, m2, r2.f[0], w.nets(e2, m2), "C23", 1)
            w.saw("two keychains interleaved", (e.blob[:44], e2.blob[:44], m1.id, m2.id))
            w.d.call("kc_free", r1.f[0]); w.d.call("kc_free", r2.f[0])
        elif k == 8: w.keys_data(e, "C23")
        elif k == 9:   # unsupported keys survive operations
            n = w.addnet(e) or w.chpw(e)
            if n:
                w.saw("unsupported keys survive", n.blob[:44])
                lost = {x for x in e.w.keys if n.w.keys.get(x) != e.w.keys[x]}
                if lost: w.bad("C23", "keys lost or changed by an operation", n, networks=sorted(lost))
        elif k == 10: w.external()
        else: w.create()
    def subsets(sh):
        """all stored subsets x all supported subsets of the built-in networks"""
        w = World(sh, "release-fast", "C23"); rng = sh.rng
        allm = [m for m in w.mgrs if not m.custom]
        for i, st in enumerate(c for n in range(4) for c in itertools.combinations(NETS, n)):
            if not sh.mine(i): continue
            wl = W(keys={n: wallet.key_data(n, gen.seed64(rng)) for n in st}); wl.keys[99] = b"unknown"
            for ver in (1, 2):
                e = E(S.seal(wallet.encode(wl, ver), b"pw", gen.rbytes(rng, 32), gen.rbytes(rng, 12), w.it), "pw", wl, ver, ["V%d %s" % (ver, st)])
                for m in allm: w.saw("stored x supported subsets", (st, tuple(sorted(m.nets)), ver)); w.open(e, "C23", m)
    go(run, "C23", steps, extra=subsets)
    run.shards(soak.crowd, budget=run.budget * .35)
    for k in ("all alive", "half dropped", "managers dropped"): run.need("one of many keychains, " + k, 20)
    for k, n in (("open", 100), ("use pk stored", 50), ("use sign stored", 50), ("use pk absent", 20), ("two keychains interleaved", 10), ("unsupported keys survive", 10), ("refused calls in a row", 20), ("stored x supported subsets", 100)): run.need(k, n)
# ------------------------------------------------------------------ C06
B = lambda b: base64.b64encode(b).decode()
NAMES = bip39.NAMES
OTHER_NAMES = [x for x in [f(n) for n in NAMES for f in (str.lower, str.upper, lambda n: n + " ", lambda n: " " + n, lambda n: n + "\0", lambda n: n[:-1], lambda n: n[:2].lower(), lambda n: n[:3], lambda n: n[0].lower() + n[1:], lambda n: n.replace("C", "C_", 1))] + bip39.LANGS
    + ["", "en", "fr", "ja", "jp", "ko", "zh", "cn", "it", "es", "zh-Hans", "zh-Hant", "zh_CN", "zh_TW", "en_US", "Chinese", "Chinese Simplified", "Chinese Traditional", "Simplified Chinese", "Traditional Chinese", "chinese-simplified", "chinese-traditional", "SimplifiedChinese", "TraditionalChinese", "chineseSimplified", "chineseTraditional",
       "Castellano", "Espa\u00f1ol", "Fran\u00e7ais", "Francais", "Italiano", "Nihongo", "\u65e5\u672c\u8a9e", "\ud55c\uad6d\uc5b4", "\u4e2d\u6587", "Default", "default", "None", "null", "0", "1", "7", "8", "Portuguese", "Czech", "Russian", "German"]
    + [0, 1, 7, True, False, ["English"], {"Spanish": 1}, {"name": "English"}, 1.0, [], {}] if x not in NAMES]
def malformed(rng, w, ver):
    """(name, payload) which must be refused with DataError by everything that reads contents"""
    inner = json.loads(wallet.encode_inner(w, ver)); sep = rng.choice([(", ", ": "), (",", ":")]); J = lambda o: json.dumps(o, separators=sep).encode()
    outer = lambda v, d: J({"version": v, "data": B(d)})
    good = J(inner); k = rng.randrange(41)
    def without(*ks): return J({a: b for a, b in inner.items() if a not in ks})
    def with_(**kv): return J(dict(inner, **kv))
    if k == 0: return "empty payload", b""
    if k == 1: return "version 0", outer(0, good)
    if k == 2: return ("version 3", outer(3, good)) if rng.randrange(2) else ("other version", outer(rng.choice([4, 5, 9, 10, 12, 20, 21, 22, 100, 101, 102, 127, 128, 255, 256, 257, 258, 32767, 32768, 65535, 65536, 131073, 2**31 + 1, 2**32 + 1, 2**32 + 2, 2**63, 2**64 + 1, 2**64 + 2, -2, -65534, True, False, [ver], {"V2": 2}, "V%d" % ver, float(ver)]), good))
    if k == 3: return "version text", J({"version": str(ver), "data": B(good)})
    if k == 4: return "version negative", outer(-1, good)
    if k == 5: return "version + 65536", outer(65536 + ver, good)
    if k == 6: return "version float", J({"version": ver + 0.5, "data": B(good)})
    if k == 7: return "version null", J({"version": None, "data": B(good)})
    if k == 8: return "no version", J({"data": B(good)})
    if k == 9: return "no data", J({"version": ver})
    if k == 10: return "data null", J({"version": ver, "data": None})
    if k == 11: return "data object", J({"version": ver, "data": inner})
    if k == 12: p = outer(ver, good); return "truncated outer", p[:rng.randrange(len(p))]
    if k == 13: return "truncated inner", outer(ver, good[:rng.randrange(len(good))])
    if k == 14: return "garbage after outer", outer(ver, good) + rng.choice([b"x", b"{}", b"\0", b"]", outer(ver, good)])
    if k == 15: return "garbage after inner", outer(ver, good + rng.choice([b"x", b"{}", b"\0", good]))
    if k == 16: return "bad base64", J({"version": ver, "data": B(good)[:-2] + "!!"})
    if k == 17: return "base64 cut", J({"version": ver, "data": B(good).rstrip("=")[:-1] if len(B(good).rstrip("=")) % 4 == 2 else B(good).rstrip("=")[: (len(B(good).rstrip("=")) // 4) * 4 + 1] or "A"})
    if k == 18: return "not UTF-8 inner", outer(ver, good.replace(b"keys", b"ke\xffs"))
    if k == 19: return "no keys", outer(ver, without("keys"))
    if k == 20: return "keys null", outer(ver, with_(keys=None))
    if k == 21: return "keys object", outer(ver, with_(keys={"1": "aa"}))
    if k == 22: return "key not base64", outer(ver, with_(keys=inner["keys"] + [[3, "*"]]))
    if k == 23: return "key network 2^32", outer(ver, with_(keys=inner["keys"] + [[2**32, ""]]))
    if k == 24: return "key network negative", outer(ver, with_(keys=inner["keys"] + [[-1, ""]]))
    if k == 25: return "key network text", outer(ver, with_(keys=inner["keys"] + [["1", ""]]))
    if k == 26: return "key entry of one", outer(ver, with_(keys=inner["keys"] + [[1]]))
    if k == 27: return "key entry of three", outer(ver, with_(keys=inner["keys"] + [[1, "", 1]]))
    if k == 28: return "key null", outer(ver, with_(keys=inner["keys"] + [[1, None]]))
    if k == 29: return "inner array", outer(ver, J([inner]))
    if k == 30: return "inner text", outer(ver, J("x"))
    if k == 31: return "outer array", J([3, B(good)])
    if k == 32: return "inner empty", outer(ver, b"")
    if ver == 2:
        if k == 33: return "unknown language", outer(2, with_(dictionary="Klingon"))
        if k == 40: return "other spelling of a language", outer(2, with_(dictionary=rng.choice(OTHER_NAMES)))
        if k == 34: return "language number", outer(2, with_(dictionary=0))
        if k == 35: return "seed not base64", outer(2, with_(seed="*"))
        if k == 36: return "seed number", outer(2, with_(seed=5))
        if k == 37: return "no seed", outer(2, without("seed"))
        if k == 38: return "phrase number", outer(2, with_(mnemonic=5))
        if k == 39: return "V2 with V1 contents", outer(2, J({"keys": inner["keys"]}))
    else:
        if k > 36: return "keys text", outer(1, with_(keys="x"))
    return "version 7", outer(7, good)
def c06(run):
    def steps(w):
        rng = w.rng; k = rng.randrange(10)
        if k < 3: w.create()
        elif k < 6:
            e = w.external(); w.keys_data(e, "C06"); w.retr(e, "C06"); w.open(e, "C06")
            n = w.addnet(e)
            if n: w.keys_data(n, "C06")
        elif k < 9:
            ver = rng.choice([1, 2]); kw = W(keys={n: wallet.key_data(n, gen.seed64(rng)) for n in rng.sample(NETS, rng.randrange(4))})
            if ver == 2: kw.seed = gen.seed64(rng) if rng.randrange(2) else None
            if ver == 2 and kw.seed is None: kw.lang = rng.randrange(8); kw.mnemonic = gen.phrase(rng, 12, kw.lang)
            what, p = malformed(rng, kw, ver)
            try:
                if wallet.decode(p): return                  # the change happens to be harmless
            except Bad: pass
            pw = gen.password(rng); b = S.seal(p, pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), w.it); m = rng.choice(w.mgrs)
            op = rng.choice(["open", "keys_data", "retr_mn", "addnet"])
            r = w.d.call(op, m.id, hx(b), hx(pw), *([rng.choice(sorted(m.nets))] if op == "addnet" else []))
            w.saw("malformed refused: " + what, (op, p, pw), p[:200])
            if r.err != "DataError": w.bad("C06", "malformed contents (%s, V%d) not refused with a data error by %s" % (what, ver, op), E(b, pw, kw, ver, []), reply=r, payload=p)
        else:
            e = w.pick()
            if e: w.keys_data(e, "C06"); w.retr(e, "C06"); w.open(e, "C06")
    go(run, "C06", steps)
    for k, n in (("create", 100), ("external V1", 20), ("external V2", 20), ("keys_data", 50), ("retr_mn", 50), ("malformed refused: version 3", 1), ("malformed refused: garbage after outer", 1)): run.need(k, n)
