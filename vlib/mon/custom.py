"""C24: networks supplied by the application are treated like built-in ones.
The application's factories and keys (harness/kdrv/src/rec.rs) record every call they get and behave as they
are told to: return data of any size, fail with any error, panic, call back into the library."""
import itertools
from ..core import hx, unhx
from ..oracle import seal as S, bip39
from .. import gen, novel, wallet
from . import soak
from ..wallet import W, Bad
from ..gen import BTC, ETH, ADA, NETS
POOL = [0, 1, 5, 7, 60, 0x717, 0x7fffffff, 0x80000001, 0x80000002, 0x8000003d, 0xfffffffe, 0xffffffff]
POOL += [n for n in novel.NUMS[:40] if n not in NETS and n not in POOL]
TEXTS = ["x", "boom", "Ünïcode✓", "a b c", "WrongPassword", "0"]
def failure(rng, kinds=("size", "data", "sign", "sigsize", "panic")):
    k = rng.choice(kinds)
    if k in ("size", "sigsize"): return "%s:%d:%d" % (k, rng.choice([0, 7, 64, 2**40]), rng.choice([0, 9, 96]))
    return k if k == "panic" else "%s:%s" % (k, rng.choice(TEXTS))
def cause(net, how):
    k, _, x = how.partition(":")
    return "%d|%s:%s" % (net, k, x if k in ("size", "sigsize") else "app=" + x)
def fails(how): return how.split(":")[0] in ("size", "sigsize", "data", "sign", "panic")
class App:
    """one application: its networks, how they behave, one manager"""
    def __init__(s, sh, flavor):
        s.sh, s.rng, s.d = sh, sh.rng, sh.d(flavor)
        s.it = wallet.iterations(s.d); s.hist = []
        if s.it is None: raise RuntimeError("sealed form of the probe is not the documented one (C01)")
    def bad(s, what, **info): s.sh.bad(what, s.d, history=" / ".join(s.hist[-14:]), behaviour=s.how, networks=s.nets, **info)
    def saw(s, kind, key=None, sample=None): s.sh.saw(kind, key, sample)
    def set(s, net, what, how):
        s.how[net, what] = how; s.d.call("rec_set", net, what, how)
    def rec(s, op, *a):
        """(reply, calls the application saw)"""
        r = s.d.call("rec", op, *a); c = [x.split(":") for x in s.d.call("rec_calls").f]
        s.hist.append(op + " -> " + repr(r)[:60])
        for x in c:
            if x[0] == "R":
                s.saw("call back into the library from " + op, tuple(x))
                ok = {"mgr": lambda: x[2] == str(s.words), "chpw": lambda: x[2] == "true", "kc": lambda: x[3] == "true", "key": lambda: x[3] == "true", "wallet": lambda: x[2] == "true"}[x[1]]()
                if not ok: s.bad("a call made by the application from inside an operation goes wrong", call=x)
        return r, [x for x in c if x[0] != "R"]
    def fresh(s):
        rng = s.rng; d = s.d; s.how = {}; s.hist = []
        d.call("rec_reset"); l = d.call("rec_live").f
        if l != ["0", "0"]:
            s.bad("factories or keys of the application are kept after everything was dropped", live=l)
        s.cust = rng.sample(POOL, rng.choice([1, 1, 2, 2, 3, 4])); s.built = rng.sample(NETS, rng.choice([0, 0, 1, 2, 3]))
        if rng.randrange(25) == 0: s.cust = POOL[:]; s.built = NETS[:]
        if rng.randrange(60) == 0 and s.it < 1000:
            s.cust = [n for n in rng.sample(range(1 << 32), min(soak.many(rng, rng.choice([17, 33, 65, 129, 257, 300, 600])), 3000)) if n not in NETS]; s.saw("many networks of the application", len(s.cust))
        lo = rng.choice([96, 128, 128, 160, 192]); s.nets = s.cust + s.built
        spec = ["%d:%d:%d" % (n, lo, rng.choice([256, 256, 200, 512])) for n in s.cust] + ["b:%d" % n for n in s.built]; rng.shuffle(spec)
        s.words = max([lo] + [wallet.MINBITS[n][0] for n in s.built]) // 32 * 3
        r = d.call("rec_mgr", ",".join(spec)); s.hist.append("manager of " + ",".join(spec))
        if not r.ok: s.bad("a manager of the application's networks is refused", reply=r); return False
        s.m = r.f[0]; return True
    def release(s):
        s.d.call("mgr_free", s.m); l = s.d.call("rec_live").f
        s.saw("released", tuple(s.nets))
        if l != ["0", "0"]: s.bad("factories or keys of the application are kept after their manager and keychains were dropped", live=l)
    def live(s, keys, when):
        l = s.d.call("rec_live").f
        if l[1] != str(keys): s.bad("number of live keys of the application is wrong " + when, live=l, want=keys)
    # -- creation
    def behave(s):
        rng = s.rng; huge = 0
        for n in s.cust:
            k = rng.randrange(8 if len(s.cust) < 40 or rng.randrange(100) == 0 else 5)
            s.set(n, "data", "ok" if k < 3 else "bytes:" + hx(gen.rbytes(rng, rng.some([0, 1, 2, 3, 31, 64, 96, 78, 200]))) if k < 5 else (rng.choice(["long:2000", "long:70000"]) if huge < 3 else "long:2000") if k == 5 else "fresh" if k == 6 else "reenter"); huge += s.how.get((n, "data")) == "long:70000"
        if rng.randrange(4) == 0:
            for n in rng.sample(s.cust, rng.randrange(1, len(s.cust) + 1)): s.set(n, "data", failure(rng))
    def source(s):
        rng = s.rng; pw = gen.password(rng)
        if rng.randrange(2): seed = gen.seed64(rng); return pw, seed, W(seed), ("data_seed", s.m, hx(seed), hx(pw))
        lang = rng.randrange(-1, 8); ph = gen.phrase(rng, s.words, max(lang, 0))
        return pw, bip39.seed(ph), W(None, ph, max(lang, 0)), ("data_mn", s.m, hx(ph), hx(pw), lang)
    def refused(s, r, bad, what):
        """an operation that had to fail because of the networks in bad (net -> behaviour)"""
        s.saw(what + " fails", (tuple(sorted(bad.items())), tuple(s.nets)), "%s: %r" % (bad, r))
        if r.k == "P":
            if "panic" not in bad.values() or "application panics" not in unhx(r.f[0]).decode(errors="replace"): s.bad(what + ": panics", reply=r, failing=bad)
        elif r.k != "E" or r.err != "KeyError" or r.dbg() not in [cause(n, h) for n, h in bad.items() if h != "panic"]:
            s.bad(what + ": the application's failure does not come back as its network's key error", reply=r, carried=r.dbg() if r.k == "E" else "", want=[cause(n, h) for n, h in bad.items() if h != "panic"])
    def seeds(s, calls, seed, nets, what):
        for c in calls:
            if c[0] == "K" and unhx(c[2]) != seed: s.bad(what + ": the application is given another seed", network=c[1], got=c[2], want=seed)
            if c[0] in "PSV": s.bad(what + " uses a key of the application", call=c[:3])
    def made(s, calls, n): return [unhx(c[3]) for c in calls if c[0] == "K" and int(c[1]) == n and c[3] != "!"]
    def judge_keys(s, got, calls, nets, seed, what):
        for n in nets:
            if n in NETS and n not in s.cust: ok = got.get(n) == wallet.key_data(n, seed)
            else: ok = got.get(n) in s.made(calls, n)
            if not ok: s.bad(what + ": stored key data are not what the network made of the seed", network=n, got=got.get(n), calls=[c for c in calls if c[1] == str(n)])
    def decode(s, blob, pw, what, ver=2):
        try: x = wallet.open_blob(blob, pw, s.it)
        except Bad as e: s.bad(what + ": independent decoder", problem=e); return None
        if x is None: s.bad(what + ": the password does not open it"); return None
        if ver and x[0] != ver: s.bad(what + ": not version 2")
        return x[1]
    def create(s):
        pw, seed, w, call = s.source(); r, calls = s.rec(*call)
        bad = {n: s.how.get((n, "data"), "ok") for n in s.cust if fails(s.how.get((n, "data"), "ok"))}
        s.seeds(calls, seed, s.cust, "creating")
        if bad:
            s.refused(r, bad, "creating")
            for n in bad: s.set(n, "data", "ok")
            r, calls = s.rec(*call); s.seeds(calls, seed, s.cust, "creating")
        s.saw("create", (tuple(s.nets), tuple(sorted(s.how.items())), seed), "%s %s" % (s.nets, s.how))
        if not r.ok: s.bad("creating fails", reply=r); return None
        g = s.decode(r.b(0), pw, "created wallet")
        if g is None: return None
        if set(g.keys) != set(s.nets): s.bad("created wallet: other networks", got=sorted(g.keys))
        s.judge_keys(g.keys, calls, s.nets, seed, "created wallet")
        if (g.seed, g.mnemonic, g.lang) != (w.seed, w.mnemonic, w.lang): s.bad("created wallet: seed, phrase or language differ", got=g, want=w)
        return r.b(0), pw, g
    def external(s):
        rng = s.rng; pw = gen.password(rng); w = W()
        for n in rng.sample(s.cust, rng.randrange(len(s.cust) + 1)): w.keys[n] = gen.rbytes(rng, rng.some([0, 0, 1, 5, 64, 77, 96, 78, 300, 5000, 70000]))
        for n in rng.sample(s.built, rng.randrange(len(s.built) + 1)): w.keys[n] = wallet.key_data(n, gen.seed64(rng))
        for n in rng.sample([x for x in POOL + [99, 1234567] if x not in s.cust], 1): w.keys.setdefault(n, gen.rbytes(rng, rng.some([0, 3, 96])))
        ver = rng.choice([1, 2])
        if ver == 2:
            if rng.randrange(2): w.seed = gen.seed64(rng)
            else: w.lang = rng.randrange(8); w.mnemonic = gen.phrase(rng, s.words, w.lang)
        b = S.seal(wallet.encode(w, ver, rng), pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), s.it)
        s.saw("external", repr(w)[:400]); s.hist.append("external V%d of %s" % (ver, sorted(w.keys)))
        return b, pw, w
    # -- opening and use
    def open(s, b, pw, w, keys0=0):
        rng = s.rng
        stored = [n for n in s.cust if n in w.keys]
        for n in s.cust: s.set(n, "open", "ok")
        bad = {}
        if stored and rng.randrange(4) == 0:
            for n in rng.sample(stored, rng.randrange(1, len(stored) + 1)): bad[n] = failure(rng); s.set(n, "open", bad[n])
        for n in s.cust:
            if n not in w.keys and rng.randrange(3) == 0: s.set(n, "open", failure(rng))    # must not matter
        if stored and rng.randrange(5) == 0: s.set(stored[0], "open", bad.get(stored[0], "reenter"))
        want = sorted(n for n in s.nets if n in w.keys)
        for again in (0, 1):
            r, calls = s.rec("open", s.m, hx(b), hx(pw))
            for c in calls:
                if c[0] == "F" and unhx(c[2]) != w.keys.get(int(c[1])): s.bad("the application is given other key data than stored for its network", network=c[1], got=c[2][:400], want=hx(w.keys.get(int(c[1]), b"?"))[:400])
                if c[0] in "PSV": s.bad("opening uses a key of the application", call=c[:3])
            if not bad or again: break
            s.refused(r, bad, "opening")
            if not keys0: s.live(0, "after a failed opening")
            if r.ok: return None
            for n in bad: s.set(n, "open", "ok")
        s.saw("open", (b[:44], tuple(s.nets)), "stored %s, opened for %s" % (sorted(w.keys), s.nets))
        if not r.ok: s.bad("opening fails", reply=r); return None
        if r.f[1] != (",".join(map(str, want)) or "-"): s.bad("opened networks differ", got=r.f[1], want=want)
        return r.f[0], {n: w.keys[n] for n in want}
    def use(s, kc, keys, cust):
        rng = s.rng
        n = rng.choice(sorted(keys)) if keys and rng.randrange(6) else rng.choice(POOL + NETS)
        p = [gen.index(rng) if rng.randrange(3) else rng.choice(gen.EDGE) for _ in range(5)]
        if n in NETS and n not in cust: p = gen.path(rng, n)
        ps, pd = ",".join(map(str, p)), ".".join(map(str, p)); msg = gen.message(rng); op = rng.choice(["pk", "sign", "verify"]); what = {"pk": "pub", "sign": "sig", "verify": "ver"}[op]
        sig = gen.rbytes(rng, rng.some([0, 1, 64, 65, 200]))
        if n in keys and op == "verify" and rng.randrange(2):
            sig = b"sig" + keys[n] + pd.encode() + msg
        for x in cust: s.set(x, what, rng.choice(["ok", "ok", "fresh", "reenter", "bytes:" + hx(gen.rbytes(rng, rng.some([0, 1, 40]))), "long:70000", failure(rng)]) if what != "ver" else rng.choice(["ok", "ok", "true", "false", "reenter", failure(rng)]))
        a = [kc, n, ps] + ([hx(msg)] if op != "pk" else []) + ([hx(sig)] if op == "verify" else [])
        r, calls = s.rec(op, *a)
        if n not in cust or n not in keys:
            if calls: s.bad("%s on network %d reaches a key of another network" % (op, n), calls=[c[:3] for c in calls])
            if n not in keys:
                s.saw("use of an absent network", (n, tuple(sorted(keys))))
                if r.err != "KeyDoesNotExist": s.bad(op + " on an absent network is not refused", reply=r, network=n)
            else:
                s.saw("use of a built-in network next to the application's", (n, ps, msg, op))
                if op == "pk": ok = r.ok and r.b(0) == wallet.pub(n, keys[n], p)
                elif op == "sign": ok = r.ok and wallet.sig_ok(n, wallet.node(n, keys[n], p), msg, r.b(0))
                else: ok = True
                if not ok: s.bad("a built-in network works differently next to the application's networks", op=op, reply=r, network=n)
            return
        how = s.how[n, what]; s.saw("%s by the application's key" % op, (n, keys[n][:40], ps, msg, how), "%s: %r" % (how, r))
        head = [{"pk": "P", "sign": "S", "verify": "V"}[op], str(n), hx(keys[n]), pd] + ([hx(msg)] if op != "pk" else []) + ([hx(sig)] if op == "verify" else [])
        for c in calls:
            if c[:len(head)] != head: s.bad("%s gives the application's key something else than asked" % op, call=[x[:200] for x in c], want=[x[:200] for x in head])
        if fails(how): s.refused(r, {n: how}, op); return
        if not calls: s.bad(op + " does not reach the application's key", reply=r); return
        res = [c[len(head)] for c in calls]
        if not r.ok or r.f[0] not in res: s.bad("%s does not return the application's result" % op, reply=r, results=[x[:200] for x in res])
        if op == "verify" and how in ("ok", "reenter", "true", "false"):
            want = how == "true" or (how != "false" and sig == b"sig" + keys[n] + pd.encode() + msg)
            if r.ok and r.f[0] != str(want).lower(): s.bad("the application's verdict on a signature comes back changed", reply=r, want=want)
    def addnet(s, b, pw, w):
        rng = s.rng; free = [n for n in s.cust if n not in w.keys]
        if not free or (w.seed is None and w.mnemonic is None): return None
        n = rng.choice(free); seed = w.root(); s.set(n, "data", rng.choice(["ok", "fresh", "reenter", "long:2000", "bytes:-", failure(rng), failure(rng)]))
        for x in s.cust:
            if x != n: s.set(x, "data", rng.choice(["ok", failure(rng)]))     # only the added network matters
            if rng.randrange(3) == 0: s.set(x, "open", failure(rng))          # nothing is opened
        for again in (0, 1):
            r, calls = s.rec("addnet", s.m, hx(b), hx(pw), n); s.seeds(calls, seed, s.cust, "adding")
            if not fails(s.how[n, "data"]): break
            s.refused(r, {n: s.how[n, "data"]}, "adding"); s.set(n, "data", "ok")
        s.saw("add", (b[:44], n)); s.hist.append("added %d" % n)
        if not r.ok: s.bad("adding an application's network fails", reply=r, network=n); return None
        g = s.decode(r.b(0), pw, "wallet with an added network")
        if g is None: return None
        s.judge_keys(g.keys, calls, [n], seed, "wallet with an added network")
        want = w.copy(); want.keys[n] = g.keys.get(n)
        if g != want: s.bad("adding changes something else", got=g, want=want)
        return r.b(0), pw, g
    def factory(s):
        rng = s.rng; n = rng.choice(s.nets + [rng.choice(POOL)]); seed = gen.rbytes(rng, rng.some([64, 64, 0, 1, 63, 65]))
        if n in s.cust: s.set(n, "data", rng.choice(["ok", "fresh", failure(rng, ("size", "data", "sign"))]))
        r = s.d.call("rec_fact", s.m, n, hx(seed)); calls = [x.split(":") for x in s.d.call("rec_calls").f]
        s.saw("factory handed out", (tuple(s.nets), n, seed))
        if n not in s.nets:
            if not r.ok or r.f[0] != "none": s.bad("a factory is handed out for a network the manager does not have", reply=r, network=n)
        elif n in s.cust:
            how = s.how[n, "data"]
            if [(c[0], c[1], unhx(c[2])) for c in calls] != [("K", str(n), seed)]: s.bad("the factory handed out is not the application's", reply=r, network=n, calls=calls)
            if fails(how):
                if r.err != "Key" or r.dbg() != cause(n, how).split("|", 1)[1]: s.bad("the application's error is changed", reply=r, want=cause(n, how))
            elif not r.ok or r.f[3] != calls[0][3]: s.bad("the application's key data are changed", reply=r, network=n)
        elif calls: s.bad("the factory of a built-in network is not the built-in one", network=n, reply=r)
    def direct(s):
        """a keychain made by the application itself of its own keys"""
        rng = s.rng; nets = rng.sample(POOL, rng.randrange(0, 5)); keys = {n: gen.rbytes(rng, rng.some([0, 1, 64, 500])) for n in nets}
        r = s.d.call("rec_kc", ",".join("%d:%s" % (n, hx(k)) for n, k in keys.items()) or "-"); s.saw("keychain of own keys", tuple(sorted(keys)))
        if not r.ok: s.bad("a keychain of the application's keys is refused", reply=r); return
        kc = r.f[0]; g = s.d.call("kc_nets", kc).f[0]
        if g != (",".join(map(str, sorted(keys))) or "-"): s.bad("networks of a keychain of the application's keys", got=g, want=sorted(keys))
        for _ in range(4): s.use(kc, keys, nets)
        s.d.call("kc_free", kc); s.live(0, "after dropping a keychain of own keys")
        # several keys for one network: one of them answers, all are released
        dup = [rng.choice(list(keys) or POOL) for _ in range(rng.randrange(2, 6))] + list(keys)
        r = s.d.call("rec_kc", ",".join("%d:%s" % (n, hx(gen.rbytes(rng, 9))) for n in dup)); s.saw("keychain of keys that share networks", tuple(dup))
        if r.ok:
            g = s.d.call("kc_nets", r.f[0]).f[0]
            if set(g.split(",")) != set(map(str, dup)): s.bad("networks of a keychain of keys that share networks", got=g, want=sorted(set(dup)))
            s.d.call("kc_free", r.f[0])
        s.live(0, "after dropping a keychain of keys that share networks")
    def story(s):
        rng = s.rng
        if not s.fresh(): return
        if rng.randrange(4) == 0: s.direct()
        s.behave()
        e = s.create() if rng.randrange(3) else s.external()
        if e:
            for _ in range(rng.choice([1, 2, 3])):
                e2 = s.addnet(*e)
                if e2: e = e2
                k = s.open(*e)
                if k:
                    for _ in range(rng.choice([2, 4, 6])): s.use(k[0], k[1], s.cust)
                    if rng.randrange(3) == 0:
                        n0 = sum(n in k[1] for n in s.cust); k2 = s.open(*e, keys0=n0)          # two keychains of the same wallet
                        if k2:
                            for _ in range(3): s.use(*(k + (s.cust,)) if rng.randrange(2) else k2 + (s.cust,))
                            s.d.call("kc_free", k2[0])
                            s.use(*k, s.cust)
                    s.d.call("kc_free", k[0]); s.live(0, "after dropping a keychain")
                if rng.randrange(3) == 0:
                    np = gen.password(rng); r, calls = s.rec_chpw(e, np)
                    if r is not None: e = (r, np, e[2])
        s.factory(); s.release()
    def rec_chpw(s, e, np):
        r = s.d.call("chpw", s.m, hx(e[0]), hx(e[1]), hx(np)); calls = s.d.call("rec_calls").f; s.hist.append("password changed"); s.saw("password change", e[0][:44])
        if not r.ok: s.bad("changing the password fails", reply=r); return None, calls
        g = s.decode(r.b(0), np, "wallet after a password change", None)
        if g is not None and g != e[2]: s.bad("a password change alters the wallet", got=g, want=e[2]); return None, calls
        return (r.b(0) if g is not None else None), calls
def c24(run):
    run.build("checked-fast", "checked")
    def main(sh):
        a = App(sh, "checked-fast")
        while sh.more(): a.story()
    def full(sh):
        a = App(sh, "checked"); n = 0
        while sh.more() and n < (40 if sh.thorough else 2): a.story(); n += 1
    run.shards(full, budget=run.budget * .2); run.shards(main)
    for k, n in (("create", 100), ("external", 50), ("open", 100), ("creating fails", 20), ("opening fails", 20), ("adding fails", 10), ("add", 50), ("sign by the application's key", 50), ("verify by the application's key", 50), ("pk by the application's key", 50),
                 ("use of a built-in network next to the application's", 20), ("factory handed out", 50), ("keychain of own keys", 10), ("keychain of keys that share networks", 10), ("many networks of the application", 1), ("released", 100), ("call back into the library from sign", 5), ("call back into the library from data_seed", 1)): run.need(k, n)
