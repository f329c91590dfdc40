"""C18, C19, C20: the C interface. Monitors in the driver itself (harness/kcapi): guard bytes around
results, result xor error, inputs unchanged, block accounting. Here: comparison with the Rust API
and the models, object histories, concurrent use."""
import json, os, subprocess
from ..core import hx, unhx, Driver, Died, Inconclusive
from ..oracle import bip39, seal as S
from .. import around, gen, wallet, rngctl, build
from ..gen import BTC, ETH, ADA, NETS, H, U32
from ..wallet import W
from . import keys as K, mnem as M, path as PT, fuzz as FZ, soak
CODE = {"WrongPassword": 0, "NotEnoughData": 1, "SeedIsNotSaved": 2, "CantCalculateSeedSize": 3, "DataError": 4, "InvalidSeedSize": 5, "KeyDoesNotExist": 6,
        "KeyAlreadyExist": 7, "NetworkIsNotSupported": 8, "KeyError": 9, "KeyPath": 10, "KeyPathError": 10, "MnemonicError": 11, "panic": -1}
NAME = {v: k for k, v in CODE.items() if k != "KeyPath"}
BADUTF = [b"\xff", b"a\x80", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"pass\xc0\xafword", b"\xf4\x90\x80\x80"]
def san(sh, flavor, wrap=(), **kw):
    """driver of a C interface flavor"""
    p = os.path.join(build.B, "err-%s-%s-%d" % (sh.run.prop, flavor + ("-vg" if wrap else ""), sh.i))
    b = sh.run.bins[flavor]; argv = list(wrap) + [b]
    if "tsan" in flavor or wrap: argv.append("--notrack")
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:symbolize=0", "TSAN_OPTIONS": "exitcode=97:halt_on_error=1:second_deadlock_stack=1:symbolize=0"}
    if not wrap and "san" not in flavor and not kw.get("env"): e, what = around.of(sh.run.prop, sh.run.seed, sh.i, flavor); env.update(e); sh.counts["processes, surroundings: " + what] += 1
    env.update(kw.get("env") or {})
    d = Driver(b, env, argv=argv, errfile=p if ("san" in flavor or wrap) else None)
    d.CPU_LIMIT = 240.0
    return d
class C:
    """calls through the C interface with the driver's verdicts and block accounting judged"""
    def __init__(s, sh, d): s.sh, s.d = sh, d
    def __call__(s, *a):
        r = s.d.call(*a)
        if r.k == "V": s.sh.bad("C interface: " + unhx(r.f[0]).decode(errors="replace"), s.d, call="\t".join(map(str, a))); return None
        r.res = tuple(map(int, r.f.pop().split(":"))) if r.k in "OE" else (0, 0)
        return r
def nonul(s): return s.replace("\0", "")
def strarg(rng, s):
    """a text argument; sometimes not UTF-8 -> (bytes, text or None)"""
    if rng.randrange(40) == 0:
        b = rng.choice(BADUTF)
        return (b, None) if rng.randrange(2) else (nonul(s).encode() + b, None)
    return nonul(s).encode(), nonul(s)
def rndpath(rng, n):
    p = gen.path(rng, n); k = rng.randrange(6)
    if k == 0: p[rng.randrange(5)] = rng.choice(gen.EDGE)
    if k == 1: p = [rng.choice(gen.EDGE) for _ in range(5)]
    return p
class World:
    """inputs for calls: wallets of many forms known with their password"""
    def __init__(s, rng, it):
        s.rng, s.it, s.pool = rng, it, []
        for _ in range(14): s.pool.append(s.wallet())
        sd = gen.seed64(rng); s.full = (S.seal(wallet.encode(W(sd, keys={n: wallet.key_data(n, sd) for n in NETS}), 2), b"full", gen.rbytes(rng, 32), gen.rbytes(rng, 12), it), "full"); s.pool.append(s.full)
    def wallet(s):
        rng = s.rng; pw = nonul(gen.password(rng)); k = rng.randrange(12)
        keys = {n: wallet.key_data(n, gen.seed64(rng)) for n in rng.sample(NETS, rng.choice([0, 1, 2, 3, 3, 3]))}
        if rng.randrange(4) == 0: keys[rng.choice([5, 7, U32])] = gen.rbytes(rng, rng.some([0, 1, 77, 200]))
        w = W(keys=keys); ver = 2
        if k < 3: w.seed = gen.seed64(rng)
        elif k < 6: w.lang = rng.randrange(8); w.mnemonic = gen.phrase(rng, rng.choice([9, 12, 24]), w.lang)
        elif k == 6: ver = 1
        elif k == 7: w.lang = 0; w.mnemonic = rng.choice(["abandon \0about", "\0", "\0\0", "abandon \0ab\0out", "\0a\0b\0c\0 about", "abandon " + "\0" * rng.randrange(1, 600), "x\0" * rng.randrange(1, 300), "é\0漢\0" * rng.randrange(1, 90)])
        elif k == 8 and keys: n = rng.choice(list(keys)); keys[n] = FZ.keyblob(rng, n); w = W(keys=keys)
        plain = wallet.encode(w, ver)
        if k == 9: plain = FZ.plaintext(rng)
        if k == 10: plain = json.dumps({"version": 2, "data": wallet.b64(json.dumps({"seed": None, "mnemonic": "a b", "dictionary": rng.choice(["a\0b", "\0", "é\0", "Klingon", "\0\0", "a\0b\0c", "\0" * rng.randrange(2, 300)]), "keys": []}).encode())}).encode()
        return S.seal(plain, pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), s.it), pw
    def blob(s):
        rng = s.rng
        if rng.randrange(10) == 0: s.pool[rng.randrange(len(s.pool))] = s.wallet()
        b, pw = rng.choice(s.pool); k = rng.randrange(14)
        if k == 0: b = FZ.mutate(rng, b)
        elif k == 1: b = b[:rng.choice([0, 1, 43, 44, 59, 60, 61])]
        elif k == 2: pw = nonul(gen.other_password(rng, pw))
        return b, pw
    def buf(s, b): return "null:0" if not b and s.rng.randrange(2) else hx(b)
    def call(s, kcs):
        """-> (op, C arguments, Rust arguments or None if only a panic error is right, info); kcs: keychains as (C slot, Rust id)"""
        rng = s.rng; op = rng.choice(["mgr_has", "gen_mn", "data_seed", "data_mn", "open", "addnet", "chpw", "keys_data", "retr_mn", "kc_nets", "pk", "pk", "sign", "sign", "verify", "verify", "kp_parse", "kp_btc", "kp_ada", "kp_eth", "kp_metamask"])
        bad = False; M0 = "$m"
        if rng.randrange(40) == 0 and not op.startswith("kp_"): M0 = "null"; bad = True
        def st(t):
            nonlocal bad
            b, t2 = strarg(rng, t)
            if t2 is None: bad = True
            return hx(b)
        if op == "mgr_has": a = (M0, rng.choice(NETS + [0, 5, U32, rng.getrandbits(32)]))
        elif op == "gen_mn": a = (M0, rng.randrange(8))
        elif op == "data_seed": sd = rng.choice([gen.seed64(rng), gen.seed64(rng), gen.data(rng)]); a = (M0, s.buf(sd), st(gen.password(rng)))
        elif op == "data_mn":
            l = rng.randrange(8); a = (M0, st(gen.phrase(rng, 12, l) if rng.randrange(3) else M.bad_phrase(rng, 12, l)[1]), st(gen.password(rng)), l)
        elif op in ("open", "keys_data", "retr_mn", "addnet", "chpw"):
            b, pw = s.blob(); a = (M0, s.buf(b), st(pw))
            if op == "addnet": a += (rng.choice(NETS + NETS + [5, 0, U32]),)
            if op == "chpw": a += (st(gen.password(rng)),)
        elif op.startswith("kp_"):
            n = lambda: rng.choice([rng.choice(gen.EDGE), rng.choice(gen.EDGE), rng.getrandbits(32), gen.soft(rng)])
            if op == "kp_parse": a = (st(PT.text(rng)),)
            elif op == "kp_btc": a = (rng.choice(["44", "49", "84"]), rng.randrange(2), n(), rng.choice([0, 1, 1, 2, U32]), n())
            elif op == "kp_ada": a = (n(), rng.choice([0, 1, 2, H]), n())
            else: a = (n(),)
        else:
            kc = rng.choice(kcs) if kcs and not bad else None
            if kc is None: kc = ("null", "null"); bad = True
            n = rng.choice(NETS) if rng.randrange(10) else rng.choice([0, 5, U32])
            a = (kc,)
            if op != "kc_nets":
                a += (n, ",".join(map(str, rndpath(rng, n if n in NETS else ETH))))
                if op in ("sign", "verify"): a += (s.buf(gen.message(rng)),)
                if op == "verify": a += (s.buf(rng.choice([FZ.sigb(rng), gen.rbytes(rng, 64), gen.rbytes(rng, 65)])),)
        return op, a, bad
def subst(a, side, m):
    o = []
    for x in a:
        if x == "$m": x = m
        elif isinstance(x, tuple): x = x[side]
        elif side == 1 and x == "null:0": x = "-"
        o.append(x)
    return o
def judge(sh, op, a, c, k, it, info):
    """C reply against the Rust reply for the same inputs"""
    d = info.pop("drv"); again = info.pop("again")
    if k.k == "P": k_err, disp = "panic", ""
    elif k.k == "E": k_err, disp = k.err, k.disp()
    else: k_err = None
    if op.startswith("kp_") and k_err == "KeyPath": disp = "Key path error " + disp
    if k_err is not None:
        code = CODE.get(k_err)
        if c.k != "E" or int(c.f[0]) != code: return sh.bad("C %s: error code is not that of the Rust error" % op, d, c=c, rust=k, want_code=code, **info)
        if k_err != "panic" and "\0" not in disp and unhx(c.f[1]).decode() != disp:
            # with several malformed keys either may be named: see whether the Rust call ever gives this message
            if any(x.k == "E" and ("Key path error " if op.startswith("kp_") else "") + x.disp() == unhx(c.f[1]).decode() for x in (again() for _ in range(60))): return
            return sh.bad("C %s: message is not the Rust error's" % op, d, c=c, rust=k, want=disp, got=unhx(c.f[1]).decode(), **info)
        if "\0" in disp and not c.f[1]: return sh.bad("C %s: no message" % op, d, c=c, **info)
        return
    if op == "retr_mn" and b"\0" in k.b(0):     # a phrase a C string can't hold must be reported
        if c.k != "E": sh.bad("C retr_mn: a phrase holding NUL is returned cut off", d, c=c, rust=k, **info)
        return
    if c.k != "O": return sh.bad("C %s fails where the Rust call succeeds" % op, d, c=c, rust=k, **info)
    f = c.f if op in ("mgr_has", "verify") or op.startswith("kp_") else c.f[1:]
    if op == "gen_mn":
        ph = unhx(f[0]).decode(); ix = bip39.parse(ph, int(a[1]))
        if ix is None or bip39.entropy(ix) is None or len(ix) != len(bip39.parse(k.b(0).decode(), int(a[1]))): sh.bad("C gen_mn: not a valid phrase of the Rust call's length", d, c=ph, rust=k, **info)
    elif op in ("data_seed", "data_mn", "addnet", "chpw"):
        pw = unhx(a[{"data_seed": 2, "data_mn": 2, "addnet": 2, "chpw": 3}[op]]).decode()
        x, y = S.unseal(unhx(f[0]), pw.encode(), it), S.unseal(k.b(0), pw.encode(), it)
        if x is None: return sh.bad("C %s: result does not open" % op, d, c=c, rust=k, **info)
        try: x, y = wallet.decode(x), wallet.decode(y)
        except wallet.Bad: pass                  # neither by the strict decoder: compare as they are
        if x != y: sh.bad("C %s: contents differ from the Rust call's" % op, d, c=x, rust=y, **info)
    else:
        if op == "open": return
        w = k.f[:1] if op in ("kp_parse",) or op.startswith("kp_") else k.f
        if op == "kc_nets": f = [",".join(map(str, sorted(map(int, f[0].split(",")))))] if f[0] != "-" else f; w = [",".join(map(str, sorted(map(int, w[0].split(",")))))] if w[0] != "-" else w
        if op == "keys_data": w = [norm(w)]
        if op == "mgr_has": w = w[:1]
        if f != w[:len(f)]: sh.bad("C %s: result differs from the Rust call's" % op, d, c=f, rust=w, **info)
def norm(w):
    """backup entries as the C driver prints them"""
    e = sorted((int(x.split(":")[0]), x.split(":")[1]) for x in w)
    return ",".join("%d:%s" % x for x in e) or "-"

def c18(run):
    build.shim(); run.build("capi-fast", "checked-fast", "capi-release")
    def diff(sh):
        """the same calls through C and Rust"""
        rng = sh.rng; k = sh.d("checked-fast"); it = wallet.iterations(k)
        if it is None: raise RuntimeError("sealed form of the probe is not the documented one (C01)")
        while sh.more():
            d = san(sh, rng.choice(["capi-fast", "capi-release"])); sh.drv["c"] = d; c = C(sh, d); kcs = []
            if rng.randrange(2): c("init")
            n = c("nets")
            if n and n.f[0] != "%d,%d,%d" % (BTC, ADA, ETH): sh.bad("network constants differ", d, got=n)
            cm = c("mgr_new").f[0]; km = k.call("mgr_new").f[0]; w = World(rng, it)
            for i in range(300):
                if not sh.more(): break
                op, a, bad = w.call(kcs); ca, ka = subst(a, 0, cm), subst(a, 1, km)
                r = c(op, *ca)
                if r is None: return
                info = {"drv": d, "call": op + " " + " ".join(map(str, ca))[:3000], "again": lambda: k.call(op, *ka)}
                if bad:
                    sh.saw("C %s with null handle or invalid UTF-8" % op, ca)
                    if r.k != "E" or r.f[0] != "-1" or not r.f[1]: del info["drv"], info["again"]; sh.bad("C %s: null handle or invalid UTF-8 is not reported as a panic error" % op, d, c=r, **info)
                    if r.k == "O" and op == "open": continue
                    continue
                kr = k.call(op, *ka)
                sh.saw("C %s: %s" % (op, "result" if r.k == "O" else NAME.get(int(r.f[0]), r.f[0])), ca, "%s -> %r" % (info["call"][:200], r))
                judge(sh, op, ca, r, kr, it, info)
                if op == "open" and r.k == "O" and kr.k == "O":
                    kcs.append((r.f[0], kr.f[0]))
                    nets = c("kc_nets", r.f[0])
                    if nets.k != "O": sh.bad("C kc_nets fails", d, reply=nets)
                    else:
                        g = sorted(map(int, nets.f[1].split(","))) if nets.f[1] != "-" else []
                        wnt = sorted(map(int, kr.f[1].split(","))) if kr.f[1] != "-" else []
                        sh.eq(g, wnt, "C kc_nets differs from Rust", d)
                        c("del", nets.f[0]); c("forget", nets.f[0])
                    if len(kcs) > 6:
                        x = kcs.pop(rng.randrange(len(kcs))); c("del", x[0]); c("forget", x[0]); k.call("kc_free", x[1])
                elif r.k == "O" and op not in ("mgr_has", "verify") and not op.startswith("kp_") and rng.randrange(2): c("del", r.f[0]); c("forget", r.f[0])
            k.call("mgr_free", km)
            for x in kcs: k.call("kc_free", x[1])
            d.close(); sh.drv.pop("c")
    def faults(sh):
        """randomness failing inside the library: reported, and the library stays usable"""
        rng = sh.rng; k = sh.d("checked-fast"); it = wallet.iterations(k); km = k.call("mgr_new").f[0]
        while sh.more():
            rg = rngctl.Rng(rng.getrandbits(64)); d = san(sh, "capi-release", env=rg.env()); sh.drv["f"] = d; c = C(sh, d)
            try:
                dev = rng.randrange(4) == 0     # device files instead of the system call; their first opening is left
                if dev: rg.probe(38)            # alone: getrandom 0.1.6 (a dependency) remembers a failed opening for ever
                first = not dev and rng.randrange(3) == 0
                if first: rg.fault(rng.choice([5, 6, 9, 11]), rng.randrange(3), rng.choice([1, 2, 1 << 40]))
                m = c("mgr_new")
                if m.k != "O":
                    sh.saw("fault: mgr_new refused", None); rg.nofault(); m = c("mgr_new")
                    if m.k != "O": sh.bad("manager can't be made after a randomness failure that passed", d, reply=m); return
                if not first: c("gen_mn", m.f[0], 0)
                w = World(rng, it)
                for i in range(40):
                    if not sh.more(): break
                    if not (first and i == 0): rg.fault(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13]), rg.calls + rng.randrange(3), rng.choice([1, 1, 2, 3, 200]))
                    h0 = rg.hits
                    while True:
                        op, a, bad = w.call([])
                        if not bad and op in ("gen_mn", "data_seed", "data_mn", "addnet", "chpw"): break
                    ca, ka = subst(a, 0, m.f[0]), subst(a, 1, km)
                    r = c(op, *ca); hit = rg.hits > h0; kr = k.call(op, *ka)
                    if r is None: return
                    sh.saw("fault %s: %s" % ("hit" if hit else "missed", "panic error" if r.k == "E" and r.f[0] == "-1" else "result" if r.k == "O" else "other error"), (op, i, rg.calls, ca[1:]) if hit else None, op)
                    info = {"drv": d, "call": op + " " + " ".join(map(str, ca))[:3000], "again": lambda: k.call(op, *ka)}
                    if r.k == "E" and r.f[0] == "-1":
                        if not hit: sh.bad("C %s reports a panic although nothing failed (library unusable after a reported error?)" % op, d, reply=r, earlier_faults=h0, call=info["call"])
                    else: judge(sh, op, ca, r, kr, it, info)
                    rg.nofault()
                    # usable again
                    r = c("gen_mn", m.f[0], rng.randrange(8)); sh.saw("use after fault", (i, rg.calls) if hit else None)
                    if r is None or r.k != "O": sh.bad("library unusable after a reported error", d, reply=r); return
                    c("del", r.f[0])
                    r = c("data_seed", m.f[0], hx(bytes(64)), hx("p"))
                    if r is None or r.k != "O": sh.bad("library unusable after a reported error", d, reply=r); return
            finally:
                d.close(); sh.drv.pop("f", None); rg.close()
    q = run.tier == "quick"
    run.shards(diff, budget=run.budget * (0.7 if q else 0.75)); run.shards(faults, budget=run.budget * (0.3 if q else 0.25)); run.shards(soak.crowd_c(["capi-release", "capi-fast"]), budget=run.budget * .25); run.need("C: one of many keychains, all alive", 20)
    for x in ("C open: result", "C sign: result", "C verify: result", "C data_seed: result", "C chpw: result", "C addnet: result", "C keys_data: result", "C retr_mn: result", "C gen_mn: result", "C data_seed with null handle or invalid UTF-8", "fault hit: panic error", "use after fault"): run.need(x, 1)
    for e in ("WrongPassword", "NotEnoughData", "SeedIsNotSaved", "DataError", "InvalidSeedSize", "KeyDoesNotExist", "KeyAlreadyExist", "NetworkIsNotSupported", "KeyError", "KeyPathError", "MnemonicError"):
        if not any(k.endswith(": " + e) for k in run.counts): run.errors.append("error code never seen: " + e) if not run.viol else None

DELNULL = "mgr kc data datalen str nets backup info error".split()
MAKES = {"gen_mn": "str", "data_seed": "data", "data_mn": "data", "open": "kc", "addnet": "data", "chpw": "data", "keys_data": "backup", "retr_mn": "info", "kc_nets": "nets", "pk": "data", "sign": "data"}
class Hist:
    """random create/use/delete histories of one process; the driver's allocator accounts for every block"""
    def __init__(s, sh, d, it):
        s.sh, s.c, s.d, s.rng = sh, C(sh, d), d, sh.rng; s.w = World(sh.rng, it); s.tag = os.path.basename(os.path.dirname(d.path))
    def leaks(s, again, what, **info):
        """a residue that comes back every time the same thing is done again is a leak"""
        n = [again() for _ in range(4)]
        if all(x and x != (0, 0) for x in n): s.sh.bad(what, s.d, blocks_and_bytes=n, **info)
        else: s.sh.counts["one-time allocation"] += 1
    def do(s, op, args):
        """one call, its object or error kept or dropped at once -> reply"""
        keep = s.rng.randrange(3) == 0
        r = s.c(("+" if keep else "") + op, *args)
        if r is None: return None
        if r.k == "E" and keep: s.objs.append([r.f[2], "error", (op, args)])
        elif r.res != (0, 0):
            def again():
                x = s.c(op, *args)
                if x and x.k == "O" and op in MAKES: s.c("del", x.f[0]); s.c("forget", x.f[0]); return (0, 0)
                return x and x.res
            s.leaks(again, "C %s leaves blocks behind" % op, call=op + " " + " ".join(map(str, args))[:2000], reply=r)
        if r.k == "O" and (op in MAKES or op == "mgr_new"): s.objs.append([r.f[0], MAKES.get(op, "mgr"), (op, args)])
        return r
    def delete(s, o):
        r = s.c("del", o[0])
        if r is None: return
        s.sh.saw("delete " + o[1], (s.tag, o[1], o[2]) if o[1] != "mgr" else None)
        if r.res != (0, 0):
            op, args = o[2]
            def again():
                x = s.c("+" + op, *args)
                if x is None or (x.k == "E") != (o[1] == "error"): return (0, 0)
                y = s.c("del", x.f[2] if x.k == "E" else x.f[0]); s.c("forget", x.f[2] if x.k == "E" else x.f[0]); return y and y.res
            if not any(str(x).isdigit() and False for x in args): s.leaks(again, "create and delete of %s made by %s does not balance" % (o[1], op), call=op + " " + " ".join(map(str, args))[:2000], balance=r.res)
    def round(s, n):
        rng = s.rng; s.objs = []; dead = []; mg = []; kcs = []
        for _ in range(rng.choice([1, 1, 2])):
            r = s.do("mgr_new", ())
            if r is None: return
            mg.append(s.objs[-1])
        for _ in range(rng.choice([0, 1, 1, 2])):
            b, pw = s.w.full; r = s.do("open", [mg[0][0], hx(b), hx(pw)])
            if r is None: return
            if r.k == "O": kcs.append(s.objs[-1])
        for _ in range(n):
            k = rng.randrange(20); s.sh.evals += 0
            if k < 12:
                op, a, bad = s.w.call([(o[0], 0) for o in kcs]); args = subst(a, 0, rng.choice(mg)[0] if mg else "null")
                r = s.do(op, args)
                if r is None: return
                s.sh.saw("call %s (%s)" % (op, "object" if r.k == "O" and op in MAKES else "value" if r.k == "O" else "error"), (s.tag, op, args))
                if op == "open" and r.k == "O": kcs.append(s.objs[-1])
            elif k < 14 and s.objs:
                o = rng.choice(s.objs); s.c("read", o[0]); s.sh.saw("read " + o[1], None)
            elif k < 17 and s.objs:
                o = rng.choice(s.objs)
                if o in mg and len(mg) == 1 and rng.randrange(4): continue
                s.objs.remove(o)
                if o in mg: mg.remove(o)
                if o in kcs: kcs.remove(o)
                s.delete(o); dead.append(o)
            elif k == 17 and dead:
                o = rng.choice(dead)
                if o[1] == "str": continue            # a plain char pointer can't be wiped
                r = s.c("del", o[0]); s.sh.saw("delete again " + o[1], (s.tag, o[1], o[2], "again"))
                if r and r.res != (0, 0): s.sh.bad("deleting an already deleted %s frees something" % o[1], s.d, balance=r.res)
            elif k == 18:
                x = rng.choice(DELNULL); r = s.c("delnull", x); s.sh.saw("delete null " + x, None)
                if r and r.res != (0, 0): s.sh.bad("deleting a null %s frees something" % x, s.d, balance=r.res)
            elif not mg or len(mg) < 2:
                r = s.do("mgr_new", ())
                if r is None: return
                mg.append(s.objs[-1])
        rng.shuffle(s.objs)
        for o in s.objs: s.delete(o); dead.append(o)
        for o in dead: s.c("forget", o[0])
    def live(s): return tuple(map(int, s.c("live").f[0].split(":")))
def c19(run):
    build.shim(); run.build("capi-fast", "checked-fast", "capi-release", "capi-asan")
    def work(sh):
        k = sh.d("checked-fast"); it = wallet.iterations(k); rng = sh.rng
        if it is None: raise RuntimeError("sealed form of the probe is not the documented one (C01)")
        k.close(); vg = ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--num-callers=16", "--undef-value-errors=yes"]
        plan = ["capi-fast", "capi-asan", "capi-release", "vg", "capi-asan", "capi-fast", "capi-release", "vg"]
        while sh.more():
            f = plan[sh.i % 8] if not sh.thorough else rng.choice(plan)
            d = san(sh, "capi-release", vg) if f == "vg" else san(sh, f); sh.drv["c"] = d
            if f == "vg": d.CPU_LIMIT = 1000.0
            h = Hist(sh, d, it); h.tag = f
            if rng.randrange(2): h.c("init")
            grow = 0; last = None
            for r in range(12):
                if not sh.more(): break
                h.round(rng.choice([3, 10, 30, 60]) if f != "vg" else 12)
                now = h.live(); sh.counts["rounds under " + f] += 1
                grow = grow + 1 if last is not None and now > last else 0
                if grow >= 4: sh.bad("library blocks keep growing although every object was deleted", d, live=now)
                last = now
            e = h.c("live"); sh.counts["allocation events"] += int(e.f[1])
            rc = d.close(); sh.drv.pop("c")
            if rc not in (0, None): sh.bad("process ends with status %s" % rc, d, stderr=open(d.errfile, errors="replace").read()[-3000:] if d.errfile else "")
    run.shards(work); run.shards(soak.crowd_c(["capi-asan", "capi-fast"]), budget=run.budget * .25); run.need("C: objects read while many are alive", 2)
    for x in ("str", "data", "kc", "mgr", "nets", "info", "backup", "error"): run.need("delete " + x, 3)
    for x in ("kc", "data", "mgr", "error", "nets", "backup", "info"): run.need("delete again " + x, 1)
    for x in ("capi-fast", "capi-asan", "vg"): run.need("rounds under " + x, 1)
def c20(run):
    build.shim(); run.build("checked-fast", "capi-fast", "capi-release", "capi-tsan")
    def work(sh):
        rng = sh.rng; k = sh.d("checked-fast"); it = wallet.iterations(k); k.close()
        if it is None: raise RuntimeError("sealed form of the probe is not the documented one (C01)")
        first = True
        def cold(flavor, n):
            """fresh processes: every operation's first use is by several threads at the same moment"""
            for _ in range(n):
                d = san(sh, flavor); sh.drv["c"] = d; c = C(sh, d); pw = "pässword %d" % rng.getrandbits(16); lang = rng.randrange(8); seed = gen.seed64(rng)
                seal = lambda w: hx(S.seal(wallet.encode(w, 2), pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), it))
                full = seal(W(seed, keys={x: wallet.key_data(x, seed) for x in NETS})); part = seal(W(seed, keys={ETH: wallet.key_data(ETH, seed)})); mnw = seal(W(None, bip39.phrase(gen.rbytes(rng, 16), lang), lang, {}))
                if rng.randrange(2): c("init")
                m = c("mgr_new").f[0]; kc = c("open", m, full, hx(pw)).f[0] if rng.randrange(2) else "null"; threads = rng.choice([2, 4, 8, 8, 16])
                r = c("conc", m, kc, full, part, mnw, hx(bip39.phrase(gen.rbytes(rng, 16), 0)), hx(pw), threads, 0, rng.getrandbits(60), 0, 0, ",".join(hx(bip39.phrase(gen.rbytes(rng, 16), l)) for l in range(8)))
                if r is None: return
                if r.k != "O": raise RuntimeError("cold: %r" % r)
                sh.evals += int(r.f[0]); sh.saw("concurrent first calls of a process, " + ("tsan" if "tsan" in flavor else "plain"), r.f[1], "%d threads, %s calls, %s switches, %s fresh values" % (threads, r.f[0], r.f[2], r.f[4]))
                sh.counts["fresh values checked"] += int(r.f[4]); sh.counts["processes for first calls"] += 1
                rc = d.close(); sh.drv.pop("c")
                if rc not in (0, None): return sh.bad("process ends with status %s" % rc, d, stderr=open(d.errfile, errors="replace").read()[-3000:] if d.errfile else "")
                if not sh.more(): break
        if sh.i >= 6 and not sh.run.round:
            while (first or sh.more()) and not sh.viol: first = False; cold("capi-release" if sh.i == 6 else "capi-fast", 20)
            return
        while first or sh.more():
            if not first or sh.i == 0: cold("capi-tsan" if sh.i < 2 else "capi-fast" if rng.randrange(2) else "capi-release", 3 if sh.i < 2 else 10)
            if sh.viol: return
            mode = ["tsan", "tsan", "tsan", "plain", "shim"][sh.i % 5] if first or not sh.thorough else rng.choice(["tsan", "tsan", "plain", "shim"])
            first = False; rg = None; env = {}
            if mode == "shim": rg = rngctl.Rng(rng.getrandbits(64)); env = rg.env()
            d = san(sh, "capi-tsan" if mode == "tsan" else "capi-fast", env=env); sh.drv["c"] = d; c = C(sh, d)
            try:
                if rng.randrange(2): c("init")
                for _ in range(6):
                    m = c("mgr_new").f[0]; pw = "pässword %d" % rng.getrandbits(16); lang = rng.randrange(8)
                    seed = gen.seed64(rng); ph = bip39.phrase(gen.rbytes(rng, 16), 0); seal = lambda w: hx(S.seal(wallet.encode(w, 2), pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), it))
                    full = seal(W(seed, keys={n: wallet.key_data(n, seed) for n in NETS})); part = seal(W(seed, keys={ETH: wallet.key_data(ETH, seed)}))
                    mnw = seal(W(None, bip39.phrase(gen.rbytes(rng, 16), lang), lang, {}))
                    kc = c("open", m, full, hx(pw)).f[0]
                    threads = rng.choice([2, 2, 3, 4, 8, 16]); ops = rng.choice([64, 128]) if mode == "tsan" else rng.choice([64, 192, 320])
                    faulty = 0
                    if rg: rg.fault(rng.choice([30, 30, 1, 2, 3, 13]), rg.calls, 1 << 40); faulty = rng.randrange(3) == 0
                    if faulty: rg.fault(rng.choice([5, 6, 9, 11]), rg.calls + rng.randrange(200), rng.choice([1, 5, 50]))
                    delay = rng.randrange(4); seed2 = rng.getrandbits(60)
                    r = c("conc", m, kc, full, part, mnw, hx(ph), hx(pw), threads, ops, seed2, delay, int(faulty))
                    if r is None: return
                    if r.k != "O": raise RuntimeError("conc: %r" % r)
                    sh.evals += int(r.f[0]); sh.saw("concurrent run %s, %d threads%s" % (mode, threads, ", failing randomness" if faulty else ""), r.f[1], "%d threads x %d calls, %s context switches between calls, up to %s calls in flight, %s fresh values, %s error replies" % (threads, ops, r.f[2], r.f[3], r.f[4], r.f[5]))
                    sh.counts["calls"] += int(r.f[0]); sh.counts["thread switches between calls"] += int(r.f[2]); sh.counts["fresh values checked"] += int(r.f[4]); sh.counts["error replies"] += int(r.f[5]); sh.counts["overlapping runs"] += int(r.f[3]) > 1
                    if faulty: sh.counts["panic errors under concurrency"] += int(r.f[6])
                    if rg:
                        rg.nofault(); r = c("conc", m, kc, full, part, mnw, hx(ph), hx(pw), 4, 16, seed2, 0, 0)
                        if r is None: return
                    c("del", kc); c("del", m)
                    if not sh.more(): break
                rc = d.close(); sh.drv.pop("c")
                if rc not in (0, None): sh.bad("process ends with status %s" % rc, d, stderr=open(d.errfile, errors="replace").read()[-3000:] if d.errfile else "")
            finally:
                if rg: rg.close()
    run.shards(work, n=8)
    run.need("overlapping runs", 3); run.need("fresh values checked", 1000)
    for x in ("tsan", "plain", "shim"):
        if not run.viol and not any(k.startswith("concurrent run " + x) for k in run.counts): run.errors.append("no run under " + x)
