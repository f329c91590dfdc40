"""C03: every salt, nonce and phrase is fresh OS randomness, or nothing is output."""
from ..core import hx, Driver, Died
from ..oracle import bip39
from .. import gen, rngctl, build
from ..gen import BTC, ETH, ADA
from . import soak
# managers of each phrase length: built-in subsets and custom seed size ranges
MGRS = [("mgr_with", "%d" % ADA, 9), ("mgr_new", None, 12), ("mgr_with", "%d" % BTC, 12)] + [("mgr_custom", "%d:512:5" % b, b // 32 * 3) for b in (160, 192, 224, 256)]
KINDS = {1: "one byte", 2: "half", 3: "all but one byte", 4: "EINTR", 5: "EAGAIN", 6: "EIO", 7: "ENOSYS", 8: "EPERM", 9: "EFAULT", 11: "half then EIO", 12: "nothing", 13: "single bytes and EINTR"}
OPS = ["enc", "enc_kept", "data_seed", "data_mn", "chpw", "addnet"] + ["gen_mn%d" % i for i in range(len(MGRS))]
class World:
    """one process under the interposed source with wallets to work on"""
    def __init__(s, sh, flavor, seed, warm=True, probe=0):
        s.r = rngctl.Rng(seed); s.d = Driver(sh.run.bins[flavor], env=s.r.env()); s.sh = sh
        s.r.probe(probe); s.mg = []; s.rng = sh.rng
        for op, a, w in MGRS:
            s.mg.append(s.d.call(op, *([a] if a else [])).f[0])
        s.blobs = None
        if warm: s.wallets()
    def wallets(s):
        a = s.d.call("data_seed", s.d.call("mgr_with", BTC).f[0], hx(bytes(range(64))), hx("pw")).b(0)
        ph = bip39.phrase(bytes(range(16)), 3)
        b = s.d.call("data_mn", s.d.call("mgr_with", ETH).f[0], hx(ph), hx("pw"), 3).b(0)
        for x in (a, b): s.check_sealed("setup", x)
        s.blobs = [(a, ETH), (b, BTC)]
    def run(s, op):
        """-> (reply, list of byte strings which must be fresh randomness)"""
        mg = s.mg[1]; rng = s.rng
        if op in ("enc", "enc_kept"): r = s.d.call(op, hx(gen.data(rng)), hx("pw"))
        elif op == "data_seed": r = s.d.call("data_seed", mg, hx(gen.seed64(rng)), hx("p"))
        elif op == "data_mn": r = s.d.call("data_mn", mg, hx(gen.phrase(rng, 12, 0)), hx("p"), 0)
        elif op == "chpw": r = s.d.call("chpw", mg, hx(rng.choice(s.blobs)[0]), hx("pw"), hx(rng.choice(["pw", "other"])))
        elif op == "addnet": b, n = rng.choice(s.blobs); r = s.d.call("addnet", mg, hx(b), hx("pw"), n)
        else:
            i = int(op[6:]); lang = rng.randrange(-1, 8)
            r = s.d.call("gen_mn", s.mg[i], lang)
            if not r.ok: return r, []
            idx = bip39.parse(r.b(0).decode(), max(lang, 0)); e = idx and bip39.entropy(idx)
            if e is None or len(idx) != MGRS[i][2]:
                s.sh.bad("generated phrase is not a valid phrase of %d words" % MGRS[i][2], s.d, reply=r); return r, []
            return r, [e]
        return r, [r.b(0)[:32], r.b(0)[32:44]] if r.ok else []
    def forked(s, i):
        """the same work in a copy of the process and in the process itself must not share randomness"""
        r = s.d.call("forked", s.mg[i])
        if not r.ok: s.sh.counts["forked: refused"] += 1; return True
        for j, who in ((0, "copied process"), (1, "process that was copied")):
            b = r.b(j); idx = bip39.parse(b[44:].decode(errors="replace"), 0) if len(b) > 44 else None; e = idx and bip39.entropy(idx)
            if e is None: s.sh.bad("no result from the %s" % who, s.d, got=b); return False
            if not (s.check(who, [b[:32], b[32:44]]) and s.check(who, [e])): return False
        return True
    def check_sealed(s, what, b): s.check(what, [b[:32], b[32:44]])
    def check(s, what, parts, since=0, **info):
        for p, nm in zip(parts, ["salt", "nonce"] if len(parts) == 2 else ["phrase entropy"]):
            e = s.r.claim(p, since)
            if e: s.sh.bad("%s: %s: %s" % (what, nm, e), s.d, value=p, faults=s.r.hits, **info); return False
        return True
    def close(s): s.d.close(); s.r.close()
def c03(run):
    build.shim(); run.build("release-fast")
    def faults(sh):
        """every operation x fault kind x draw x duration x first or later operation of the process x source"""
        rng = sh.rng; k = 0; cases = []
        for op in OPS:
            for kind in KINDS:
                for draw in range(3):
                    for dur in (1, 2, 60 if kind in (4, 12) else 1 << 40):   # endless EINTR may be waited for endlessly
                        for warm in (True, False): cases.append((op, kind, draw, dur, warm, 0))
            for kind in (0, 1, 2, 3, 4, 5, 6, 11, 12, 13, 20, 21):
                for probe in (38, 1):        # ENOSYS, EPERM: getrandom unavailable, device files used
                    for draw in range(4): cases.append((op, kind, draw, 1 << 40 if kind in (6, 12) else 60 if kind == 4 else 1, False, probe))
        rng.shuffle(cases) if not sh.thorough else None
        if not sh.thorough:  # quick: every (op, kind, draw) once more or less; the rest at random
            head = {}; rest = []
            for c in cases:
                if head.setdefault((c[0], c[1], c[2], c[5] != 0), c) is not c: rest.append(c)
            cases = list(head.values()) + rest
        cases = [c for i, c in enumerate(cases) if i % sh.n == sh.i]
        done = 0
        for op, kind, draw, dur, warm, probe in cases:
            if not sh.more(): break
            w = None
            try:
                w = World(sh, "release-fast", rng.getrandbits(64), warm=warm or op in ("chpw", "addnet"), probe=probe)
                if probe and (warm or op in ("chpw", "addnet")): pass
                c0, h0, p0 = w.r.calls, w.r.hits, w.r.pos
                w.r.fault(kind, c0 + draw, dur)
                r, parts = w.run(op)
                hit = w.r.hits - h0
                what = "%s with fault '%s' at draw %d lasting %s%s%s" % (op.rstrip("0123456789"), KINDS.get(kind, {0: "none", 20: "device missing", 21: "device: EMFILE"}.get(kind)), draw, dur if dur < 9 else "for ever", ", first use" if not warm else "", ", device files" if probe else "")
                sh.saw("faulted %s (%s)" % (op.rstrip("0123456789"), "output" if r.ok else "no output") if hit else "fault not reached", (op, kind, draw, dur, warm, probe) if hit else None, what)
                if r.ok and not w.check(what, parts, plan=what): pass
                if not r.ok and r.k == "E": sh.counts["reported as error"] += 1
                # whatever follows must be fresh as well
                w.r.nofault(); w.r.probe(probe)
                for op2 in rng.sample([o for o in OPS if w.blobs or o not in ("chpw", "addnet")], 2):
                    r2, parts2 = w.run(op2)
                    sh.saw("after a fault: %s" % ("output" if r2.ok else "no output"), (op, kind, draw, dur, warm, probe, op2) if hit else None)
                    if r2.ok: w.check("%s after %s" % (op2, what), parts2)
                done += 1
            except Died as e:
                if w is not None and e.code in (96, 97): raise RuntimeError("shim failure")
                sh.saw("process ended (no output)", (op, kind, draw, dur))   # an abort outputs nothing: C16 and C18 judge it
            finally:
                if w: w.close()
        sh.counts["fault cases done"] += done; sh.counts["fault cases planned"] += len(cases)
    def history(sh):
        """long histories of sealing operations of one process, occasional transient faults"""
        rng = sh.rng
        while sh.more():
            w = World(sh, "release-fast", rng.getrandbits(64), probe=rng.choice([0, 0, 38]))
            try:
                for i in range(400):
                    if not sh.more(): break
                    f = rng.randrange(10) == 0
                    if f: w.r.fault(rng.choice(list(KINDS)), w.r.calls + rng.randrange(2), rng.choice([1, 1, 2]))
                    if not f and rng.randrange(25) == 0:
                        i = rng.randrange(len(w.mg)); p0 = w.r.pos
                        sh.saw("history: process copied, then used in both", (sh.i, i, p0))
                        if not w.forked(i): break
                    p0 = w.r.pos; op = rng.choice(OPS); r, parts = w.run(op)
                    w.r.nofault()
                    sh.saw("history: %s%s" % (op.rstrip("0123456789"), "" if r.ok else " (no output)"), (sh.i, i, op, p0))
                    if r.ok and not w.check(op, parts, p0): break
                    if not r.ok and not f: sh.counts["refused without fault"] += 1
            finally: w.close()
    run.shards(faults, budget=run.budget * (0.7 if run.tier == "quick" else 0.5))
    run.shards(history, budget=run.budget * (0.3 if run.tier == "quick" else 0.5))
    run.shards(soak.c03, budget=run.budget * .3)
    run.need("history: gen_mn", 20); run.need("history: enc", 20); run.need("history: chpw", 20); run.need("history: process copied, then used in both", 5)
    run.extra["exhaustive"] = bool(run.counts["fault cases done"] == run.counts["fault cases planned"])
