"""Runtime-monitoring core: driver processes, shards, verdicts, evidence."""
import collections, hashlib, json, multiprocessing as mp, os, queue, random, signal, subprocess, sys, threading, time, traceback
from . import around, build, novel
V = build.V

class Rep:
    __slots__ = ("k", "f", "res")
    def __init__(s, line):
        p = line.split("\t"); s.k = p[0]; s.f = p[1:]
    ok = property(lambda s: s.k == "O")
    err = property(lambda s: s.f[0] if s.k == "E" else ("panic" if s.k == "P" else None))
    def b(s, i=0): return unhx(s.f[i])
    def dbg(s): return unhx(s.f[1]).decode(errors="replace") if s.k == "E" else ""
    def disp(s): return unhx(s.f[2]).decode(errors="replace") if s.k == "E" else ""
    def __repr__(s):
        if s.k == "E": return "Err(%s %s)" % (s.f[0], s.dbg()[:300])
        if s.k == "P": return "PANIC(%s)" % unhx(s.f[0]).decode(errors="replace")[:300]
        return "Ok(%s)" % ",".join(x[:400] for x in s.f)
def unhx(x): return b"" if x == "-" else bytes.fromhex(x)
def hx(b):
    if isinstance(b, str): b = b.encode()
    return bytes(b).hex() or "-"
def csv(v): return ",".join(map(str, v)) or "-"

class Died(Exception):
    """the driver process ended: a crash of the code under test unless it was killed from outside"""
    def __init__(s, code, op, log, drv=None): s.code, s.op, s.log, s.drv = code, op, log, drv; super().__init__("driver died: %s during %s" % (code, op[:200]))
class Hung(Exception):
    def __init__(s, op, cpu): s.op, s.cpu = op, cpu; super().__init__(("no reply after %.0f s of CPU time: %s" % (cpu, op[:200])) if cpu >= 0 else "all threads wait, for ever: " + op[:200])
class Inconclusive(Exception): pass

class Driver:
    STILL = 20                 # looks, five seconds apart, at which every thread sleeps and no CPU time was used: a deadlock
    CPU_LIMIT = 60.0           # seconds of CPU time one operation may take (they take < 0.1 s)
    def __init__(s, path, env=None, argv=None, errfile=None):
        s.path, s.env, s.argv, s.errfile = path, env, argv, errfile
        s.log = []; s.p = None; s.n = 0
    def start(s):
        e = dict(os.environ)
        e.update(s.env or {})
        s.log = []
        s.err = open(s.errfile, "wb") if s.errfile else subprocess.DEVNULL
        s.p = subprocess.Popen(s.argv or [s.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=s.err, env=e)
        s.q = queue.Queue()
        s.t = threading.Thread(target=s._rd, args=(s.p, s.q), daemon=True); s.t.start()
    @staticmethod
    def _rd(p, q):
        for l in p.stdout: q.put(l.decode().rstrip("\n"))
        q.put(None)
    def cpu(s):
        try:
            f = open("/proc/%d/stat" % s.p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except OSError: return 0.0
    def asleep(s):
        """is every thread of the driver waiting for something?"""
        try: return all(open("/proc/%d/task/%s/stat" % (s.p.pid, x)).read().rsplit(")", 1)[1].split()[0] == "S" for x in os.listdir("/proc/%d/task" % s.p.pid))
        except (OSError, IndexError): return False
    def _get(s, op):
        c0 = None; t0 = time.time(); still = 0; c1 = None
        while True:
            try: l = s.q.get(timeout=5)
            except queue.Empty:
                c = s.cpu()
                if c0 is None: c0 = c
                still = still + 1 if c == c1 and s.asleep() else 0; c1 = c
                if still >= s.STILL:
                    s.p.kill(); raise Hung(op, -1)
                if c - c0 > s.CPU_LIMIT:
                    s.p.kill(); raise Hung(op, c - c0)
                if time.time() - t0 > 600:
                    s.p.kill(); raise Inconclusive("driver made no progress (no CPU used) in 600 s: " + op[:200])
                continue
            if l is None:
                code = s.p.wait(); s.p = None
                raise Died(code, op, s.tail(), s)
            r = Rep(l)
            if r.k == "P" and b"driver: " in unhx(r.f[0]): raise RuntimeError("bad request %s: %r" % (op[:300], r))
            return r
    def tail(s): return s.log[-2000:]
    def call(s, op, *a):
        if s.p is None: s.start()
        line = "\t".join([op] + [str(x) for x in a])
        s.log.append(line); s.n += 1
        try:
            s.p.stdin.write((line + "\n").encode()); s.p.stdin.flush()
        except BrokenPipeError: pass
        return s._get(line)
    def batch(s, reqs):
        """reqs: iterable of tuples (op, args...); returns the replies in order"""
        if s.p is None: s.start()
        lines = ["\t".join(map(str, r)) for r in reqs]
        p = s.p
        def wr():
            try:
                p.stdin.write(("\n".join(lines) + "\n").encode()); p.stdin.flush()
            except (BrokenPipeError, ValueError): pass
        t = threading.Thread(target=wr, daemon=True)
        base = len(s.log); s.log += lines; s.n += len(lines)
        if lines: t.start()
        out = []
        for i, l in enumerate(lines):
            try: out.append(s._get(l))
            except Died as e:
                e.log = s.log[:base + i + 1][-2000:]; raise
        if lines: t.join()
        return out
    def close(s):
        if s.p:
            try: s.p.stdin.close()
            except BrokenPipeError: pass
            try: s.p.wait(20)
            except subprocess.TimeoutExpired: s.p.kill(); s.p.wait()
            c = s.p.returncode; s.p = None
            if s.errfile: s.err.close()
            return c

class Stop(Exception): pass
class Rng(random.Random):
    """random numbers; when the tree has literals the pinned one does not have (novel.py), these come up among them"""
    def getrandbits(s, k):
        v = super().getrandbits(k)
        if novel.NUMS and k >= 16 and super().getrandbits(3) == 0:
            if k <= 64: return novel.NUMS[super().getrandbits(16) % len(novel.NUMS)] & (1 << k) - 1
        return v
    def some(s, sizes):
        """one of these sizes, or one from the code"""
        if novel.SIZES and s.randrange(4) == 0: return s.choice([s.choice(novel.SIZES), novel.multiple(s)])
        return s.choice(sizes)
class Shard:
    """One worker: random source, drivers, what it observed."""
    def __init__(s, run, i):
        s.run, s.i, s.n = run, i, run.nshards
        s.tier = run.tier; s.thorough = run.tier == "thorough"
        s.rng = Rng("%s/%d/%d" % (run.prop, run.seed, i) + ("/%d" % run.round if run.round else ""))
        s.end = run.end; s.evals = 0; s.distinct = set(); s.counts = collections.Counter(); s.samples = []; s.viol = []; s.drv = {}
    def d(s, flavor):
        if flavor not in s.drv:
            if "asan" in flavor or "tsan" in flavor:
                p = os.path.join(build.B, "err-%s-%s-%d" % (s.run.prop, flavor, s.i))
                s.drv[flavor] = Driver(s.run.bins[flavor], {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:symbolize=0"}, errfile=p)
            else:
                e, w = around.of(s.run.prop, s.run.seed, s.i, flavor)
                s.drv[flavor] = Driver(s.run.bins[flavor], e); s.counts["processes, surroundings: " + w] += 1
        return s.drv[flavor]
    def more(s):
        return time.time() < s.end and not s.run.stop.is_set()
    def mine(s, k): return k % s.n == s.i
    def saw(s, kind, key=None, sample=None):
        """one evaluated case of a kind; key: what makes it distinct (None: trivial repeat)"""
        s.evals += 1; s.counts[kind] += 1
        if key is not None:
            h = hashlib.blake2b(repr((kind, key)).encode(), digest_size=8).digest()
            s.distinct.add(h)
        if sample is not None and s.counts["sample:" + kind] < 1:
            s.counts["sample:" + kind] += 1; s.samples.append({"kind": kind, "case": str(sample)[:600]})
    def bad(s, what, drv=None, **info):
        """record a violation; sig identifies it for the known-findings file"""
        v = {"what": what, "info": {k: (v.hex() if isinstance(v, (bytes, bytearray)) else str(v))[:4000] for k, v in info.items()}}
        if drv is not None: v["driver"] = drv.path; v["env"] = drv.env; v["log"] = drv.tail()
        s.viol.append(v)
        if len(s.viol) >= 5: raise Stop()
    def eq(s, got, want, what, drv=None, **info):
        if got != want: s.bad(what, drv, got=repr(got), want=repr(want), **info); return False
        return True

def _shard_main(run, fn, i, out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sh = Shard(run, i); err = None
    try:
        try: fn(sh)
        except (ValueError, IndexError, OverflowError, TypeError, MemoryError):    # a generator that cannot cope with a steered value: go on without steering
            if not novel.ON: raise
            novel.off(); sh.counts["steering given up"] += 1; sh.drv, old = {}, sh.drv
            for d in old.values():
                try: d.p and d.p.kill(); d.close()
                except Exception: pass
            sh.end = max(sh.end, time.time() + 5)
            fn(sh)
    except Stop: pass
    except Died as e:
        if e.code == -9: err = "inconclusive: driver killed (SIGKILL): " + e.op[:300]
        else:
            info = {"op": e.op[:4000]}
            if e.drv and e.drv.errfile: info["stderr"] = open(e.drv.errfile, errors="replace").read()[-3500:]
            sh.viol.append({"what": "process died (exit status %s) during an operation" % e.code, "info": info, "log": e.log, "driver": e.drv.path if e.drv else "?", "env": e.drv.env if e.drv else None})
    except Hung as e:
        sh.viol.append({"what": "operation hangs: %s" % e, "info": {"op": e.op[:4000]}, "driver": "?"})
    except Inconclusive as e: err = "inconclusive: %s" % e
    except Exception: err = traceback.format_exc()
    for d in sh.drv.values():
        try: d.close()
        except Exception: pass
        if d.errfile and os.path.exists(d.errfile): os.unlink(d.errfile)
    if sh.viol: run.stop.set()
    out.put((i, sh.evals, sh.distinct, sh.counts, sh.samples, sh.viol, err))
    out.close(); out.join_thread()

class Run:
    """One check run of one property."""
    def __init__(s, prop, level, rule, assumptions=(), quick_s=12, thorough_s=420):
        s.prop, s.level, s.rule, s.assumptions = prop, level, rule, list(assumptions)
        s.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        s.tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
        s.budget = float(os.environ.get("VERIF_BUDGET_S") or (thorough_s if s.tier == "thorough" else quick_s))
        s.t0 = time.time(); s.bins = {}; s.stop = mp.Event(); s.nshards = 8
        s.evals = 0; s.distinct = set(); s.counts = collections.Counter(); s.samples = []; s.viol = []; s.errors = []; s.extra = {}; s.calls = []; s.round = 0
    def build(s, *flavors):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for f, p in zip(flavors, ex.map(build.build, flavors)): s.bins[f] = p
    def shards(s, fn, n=8, budget=None, again=False):
        """run fn(Shard) in n processes; may be called several times"""
        if not again: s.calls.append((fn, n, budget))
        s.nshards = n; s.end = time.time() + (budget or s.budget)
        out = mp.Queue(); ps = [mp.Process(target=_shard_main, args=(s, fn, i, out)) for i in range(n)]
        for p in ps: p.start()
        hard = s.end + 240
        got = set()
        while len(got) < n:
            try: r = out.get(timeout=2)
            except queue.Empty:
                if all(not p.is_alive() for p in ps) and out.empty():
                    s.errors.append("worker processes ended without a report: %s" % sorted(set(range(n)) - got)); break
                if time.time() > hard:
                    for p in ps: p.terminate()
                    s.errors.append("watchdog: workers did not finish"); break
                continue
            i, ev, di, co, sa, vi, er = r; got.add(i)
            s.evals += ev; s.distinct |= di; s.counts += co
            for x in sa:
                if sum(y["kind"] == x["kind"] for y in s.samples) < 1: s.samples.append(x)
            s.viol += vi
            if er: s.errors.append(er)
        for p in ps: p.join(10)
    def need(s, kind, n=1):
        """the monitor must have observed at least n events of this kind"""
        for k in range(6):           # slow machine, or unusual luck: observe more
            if s.viol or s.errors or s.counts[kind] >= n or time.time() - s.t0 > 540: break
            for fn, m, budget in s.calls[:]:
                s.round += 1; s.shards(fn, m, min(budget or s.budget, 30), again=True)
        if not s.viol and s.counts[kind] < n: s.errors.append("too few events observed: %s = %d < %d" % (kind, s.counts[kind], n))
    def finish(s):
        known, uniq = known_findings(s.prop), []
        new = []
        for v in s.viol:
            k = [w for w in known if w in sig(v)]
            if k: print("KNOWN-FINDING: property=%s %s" % (s.prop, k[0]))
            else: new.append(v)
        ev = os.path.join(V, "evidence"); os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
        doc = {"property": s.prop, "tier": s.tier, "seed": s.seed, "level": s.level,
               "coverage": dict({"evaluations": s.evals, "distinct_nontrivial": len(s.distinct), "rule": s.rule,
                                 "samples": s.samples[:40] or [{"none": True}],
                                 "events_by_kind": {k: v for k, v in sorted(s.counts.items()) if not k.startswith("sample:")}}, **s.extra),
               "assumptions": s.assumptions, "wall_s": round(time.time() - s.t0, 1), "violations": len(new)}
        json.dump(doc, open(os.path.join(ev, s.prop + ".json"), "w"), indent=1)
        if new:
            seen = set()
            for i, v in enumerate(new[:5]):
                p = os.path.join(ev, "replay", "%s-%d.json" % (s.prop, i))
                json.dump(dict(v, property=s.prop, seed=s.seed, tier=s.tier), open(p, "w"), indent=1)
                print("%s: %s" % (s.prop, v["what"]))
                for k, x in v["info"].items(): print("    %s = %s" % (k, x[:600]))
                print("VIOLATION property=%s replay=%s" % (s.prop, p))
            return 1
        if s.errors:
            print("ERROR (no verdict) %s:\n%s" % (s.prop, "\n".join(s.errors[:4]))); return 2
        if s.evals == 0 or not s.distinct:
            print("ERROR %s: nothing observed" % s.prop); return 2
        print("%s held on %d evaluations (%d distinct), %.1f s" % (s.prop, s.evals, len(s.distinct), time.time() - s.t0))
        return 0
def sig(v): return v["what"] + " | " + " | ".join("%s=%s" % kv for kv in sorted(v["info"].items()))
def known_findings(prop):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % prop): out.append(l.split(" ", 2)[2])
    return out
