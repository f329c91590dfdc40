"""C28: secrets leave the library only through the results meant to hold them, and nothing is written anywhere else.
The drivers talk over their own pair of pipes, so that any byte on a standard stream is the library's; strace watches
the system calls; every other result, error text and panic message is searched for pieces of every secret in play."""
import base64, json, os, re, shutil, subprocess, tempfile
from ..core import Driver, hx, csv, unhx
from ..oracle import bip39, seal as S, ed
from .. import gen, wallet, build
from ..wallet import W
from ..gen import BTC, ETH, ADA, NETS, H
CALLS = "trace=%file,%network,%process,%ipc,write,writev,pwrite64,pwritev,pwritev2,sendfile,splice,vmsplice,tee,memfd_create,ftruncate,fallocate,copy_file_range,io_uring_setup,kill,tkill,tgkill,ptrace,process_vm_writev"
READS = re.compile(r"(newfstatat|fstatat64|stat|lstat|statx|access|faccessat2?|readlink|readlinkat|getcwd|statfs|chdir|fchdir|exit|exit_group|wait4|waitid|pidfd_open|arch_prctl|unshare)\(")
class Watched(Driver):
    """a driver under strace with its standard streams captured"""
    def __init__(s, path, scratch, name, env=None, trace=True):
        super().__init__(path, env); s.dir, s.name, s.trace = scratch, name, trace
        s.cap = os.path.join(scratch, name + ".out"); s.st = os.path.join(scratch, name + ".strace")
    def start(s):
        import queue, threading
        ir, iw = os.pipe(); orr, ow = os.pipe(); s.ow = ow; s.log = []
        e = dict(os.environ); e.update(s.env or {}); e["KDRV_FDS"] = "%d,%d" % (ir, ow)
        cwd = os.path.join(s.dir, s.name + ".cwd"); os.makedirs(cwd, exist_ok=True)
        e.update(HOME=cwd, TMPDIR=cwd)
        cap = open(s.cap, "wb")
        argv = (["strace", "-f", "-qq", "--seccomp-bpf", "-s", "64", "-o", s.st, "-e", CALLS] if s.trace else []) + [s.path]
        s.p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=cap, stderr=cap, env=e, cwd=cwd, pass_fds=(ir, ow))
        cap.close(); os.close(ir); os.close(ow); s.err = None
        s.p.stdin, s.p.stdout = os.fdopen(iw, "wb"), os.fdopen(orr, "rb")
        s.q = queue.Queue(); s.t = threading.Thread(target=s._rd, args=(s.p, s.q), daemon=True); s.t.start()
    def calls(s):
        """system calls after the first reply: (allowed, [not allowed])"""
        ok, bad, on = 0, [], False
        mine = re.compile(r"^\d+ +write\(%d, " % s.ow)
        for l in open(s.st, errors="replace"):
            if mine.match(l): on = True; ok += 1; continue
            if not on: continue
            x = re.sub(r"^\d+ +", "", l.rstrip("\n"))
            if x.startswith(("+++", "---")) or READS.match(x): ok += 1; continue
            m = re.match(r"(?:open|openat|openat2)\((.*)", x)
            if m and not re.search(r"O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND|O_TMPFILE", x): ok += 1; continue
            if re.match(r"(clone|clone3)\(.*CLONE_THREAD", x): ok += 1; continue
            if re.match(r"<\.\.\. \w+ resumed", x): ok += 1; continue
            bad.append(x)
        return ok, bad
def strace_works(path):
    d = tempfile.mkdtemp()
    try:
        w = Watched(path, d, "probe"); ok = w.call("environ").ok; w.close(); return ok and w.calls()[0] > 0
    except Exception: return False
    finally: shutil.rmtree(d, ignore_errors=True)
class Secrets:
    """what must not show up: 8-byte windows of binary secrets, texts of passwords and phrases"""
    def __init__(s): s.win, s.txt = {}, {}
    def add(s, name, b):
        for x in (b, b[::-1]):
            for i in range(len(x) - 7):
                w = x[i:i + 8]
                if len(set(w)) >= 5: s.win.setdefault(w, name)
    def text(s, name, t): s.txt.setdefault(t.encode(), name)
    def phrase(s, t):
        ws = t.split(" ")
        for i in range(len(ws) - 2): s.text("phrase", " ".join(ws[i:i + 3]))
    def scan(s, b):
        """(secret, how) if one shows in these bytes, plainly or hex, base64 or decimal encoded"""
        for how, x in decoded(b):
            for i in range(len(x) - 7):
                w = x[i:i + 8]
                if w in s.win: return s.win[w], how
            for t, name in s.txt.items():
                if t in x: return name, how
        return None
def decoded(b):
    yield "plain", b
    if len(b) < 11: return
    for m in re.finditer(rb"[0-9a-fA-F]{16,}", b):
        h = m.group()
        for o in (0, 1): yield "hex", bytes.fromhex(h[o:len(h) - (len(h) - o) % 2].decode())
    for m in re.finditer(rb"(?:[0-9a-fA-F]{2}[ :,]+){7,}[0-9a-fA-F]{2}", b): yield "hex", bytes.fromhex(re.sub(rb"[ :,]", b"", m.group()).decode())
    for m in re.finditer(rb"(?:0x[0-9a-fA-F]{1,2}, ?){7,}0x[0-9a-fA-F]{1,2}", b): yield "hex", bytes(int(x, 16) for x in re.split(rb", ?", m.group()))
    for m in re.finditer(rb"(?:\d{1,3}, ?\s*){7,}\d{1,3}", b):
        v = [int(x) for x in re.findall(rb"\d+", m.group())]; yield "decimal", bytes(x & 255 for x in v)
    for m in re.finditer(rb"[A-Za-z0-9+/_-]{12,}", b):
        t = m.group().replace(b"-", b"+").replace(b"_", b"/")
        for o in range(4):
            q = t[o:]; q = q[:len(q) // 4 * 4]
            if q: yield "base64", base64.b64decode(q)
    if b"\\" in b: yield "escaped", re.sub(rb"\\u\{?([0-9a-fA-F]{1,6})\}?", lambda m: chr(min(int(m.group(1), 16), 0x10ffff)).encode("utf-8", "replace"), b).replace(b"\\\\", b"\\").replace(b'\\"', b'"')
HOLDS = {"gen_mn", "retr_mn", "keys_data", "f_data", "dec", "xprv_seed"}      # results meant to hold secrets
class Sess:
    """one driver process and the secrets given to it"""
    def __init__(s, sh, drv, c): s.sh, s.rng, s.d, s.c, s.sec = sh, sh.rng, drv, c, Secrets(); s.pool = []
    def call(s, op, *a, note=""):
        r = s.d.call(("+" if s.c and op in ("mgr_new", "open") else "") + op, *a); side = "C" if s.c else "Rust"
        s.sh.saw("%s %s: %s" % (side, op, {"O": "result", "E": "error", "P": "panic"}.get(r.k, r.k)), (side, op, a))
        if r.k == "V": s.sh.counts["other findings of the C driver (C18, C19)"] += 1; return r
        if op in HOLDS and r.ok: return r
        for i, f in enumerate(r.f):
            for part in f.split(","):
                b = part.encode()
                if re.fullmatch(r"(?:[0-9a-f]{2})+", part): b = bytes.fromhex(part)
                hit = s.sec.scan(b); s.sh.counts["bytes of results searched"] += len(b)
                if hit: s.sh.bad("a result or message holds a secret", s.d, call=op, side=side, note=note, secret=hit[0], written=hit[1], field=i, reply=r, result=b[:600])
        return r
    def password(s):
        rng = s.rng; p = "".join(rng.choice("abcdefghjkmnpqrstuvwxyzABCDEFGHKLMNPQRSTUVWXYZ23456789 !#%&*_äß漢") for _ in range(rng.randrange(14, 60)))
        s.sec.text("password", p)
        for i in range(0, len(p) - 11): s.sec.text("password", p[i:i + 12])
        return p
    def seed(s):
        b = gen.rbytes(s.rng, 64); s.sec.add("seed", b); return b
    def keys(s, seed):
        for n in NETS:
            k = wallet.key_data(n, seed); s.sec.add("stored key", k)
    def nodes(s, n, kd, p):
        for i in range(1, 6):
            x = wallet.node(n, kd, p[:i])
            if n == ADA: s.sec.add("derived key", x.kl.to_bytes(32, "little")); s.sec.add("derived key", x.kr.to_bytes(32, "little"))
            else: s.sec.add("derived key", x.k.to_bytes(32, "big")); s.sec.add("chain code", x.cc)
    def enter(s, blob, pw, seed, ph, lang, it):
        s.sec.add("encryption key", S.kdf(pw.encode(), blob[:32], it)); s.pool.append((blob, pw, seed, ph, lang))
        if len(s.pool) > 8: s.pool.pop(0)
def story(s, m, it):
    """one wallet's life"""
    rng = s.rng; c = s.call
    pw = s.password()
    if rng.randrange(2):
        seed = s.seed(); s.keys(seed); ph = lang = None; r = c("data_seed", m, hx(seed), hx(pw))
        for n in (0, 16, 63, 65, 128):
            b = (seed + seed)[:n]; c("data_seed", m, hx(b), hx(pw))
    else:
        lang = rng.randrange(8); e = gen.rbytes(rng, 16); s.sec.add("entropy", e); ph = bip39.phrase(e, lang); s.sec.phrase(ph); seed = bip39.seed(ph); s.sec.add("seed", seed); s.keys(seed)
        r = c("data_mn", m, hx(ph), hx(pw), lang); ws = ph.split(" ")
        for bad in (ws[:-1], ws + ws[:3], ws + [ws[0]], ws[:5] + ["zzzz"] + ws[6:], ws[:9]): c("data_mn", m, hx(" ".join(bad)), hx(pw), lang)
        c("data_mn", m, hx(ph), hx(pw), (lang + 1) % 8)
    if not r.ok: s.sh.counts["wallet not created"] += 1; return
    blob = unhx(r.f[0].split(":")[0]) if not s.c else bytes.fromhex(re.match(r"[0-9a-f]+", r.f[-2] if re.match(r"^[0-9a-f]{8,}$", r.f[-2]) else r.f[0]).group())
    s.enter(blob, pw, seed, ph, lang, it)
    blob, pw, seed, ph, lang = rng.choice(s.pool)
    # readings: right, wrong password, damaged, cut, malformed contents
    q = s.password(); i = rng.randrange(len(blob)); x = bytearray(blob); x[i] ^= 1 << rng.randrange(8)
    if ph is None: w = W(seed, keys={n: wallet.key_data(n, seed) for n in rng.sample(NETS, rng.randrange(4))})
    else: w = W(None, ph, lang, {n: wallet.key_data(n, seed) for n in rng.sample(NETS, rng.randrange(4))})
    kd = wallet.key_data(rng.choice(NETS), seed)
    def sealed(plain): return S.seal(plain, pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), it)
    v = json.loads(wallet.encode(w, 2)); inner = json.loads(base64.b64decode(v["data"]))
    def outer(**k): return sealed(json.dumps(dict(v, **k)).encode())
    def inn(**k): return sealed(json.dumps(dict(v, data=wallet.b64(json.dumps(dict(inner, **k)).encode()))).encode())
    bk = [[BTC, wallet.b64(kd[:-1])], [ETH, wallet.b64(kd + b"\n")], [ADA, wallet.b64(kd[1:])]]
    t = wallet.encode(w, 2); some = ph or "legal winner thank year wave sausage worth useful legal winner thank yellow"; s.sec.phrase(some)
    odd = dict(seed=rng.choice([None, None, wallet.b64(seed), wallet.b64(seed[:rng.choice([0, 16, 63])])]), mnemonic=rng.choice([None, some, some, some + " " + some.split(" ")[0], some.replace(" ", "\n"), ""]), dictionary=rng.choice([None, bip39.NAMES[rng.randrange(8)]]))
    if rng.randrange(2): odd["keys"] = []
    forms = [(blob, pw), (blob, q), (bytes(x), pw), (blob[:rng.randrange(len(blob))], pw), (sealed(t[:rng.randrange(len(t))]), pw), (outer(version=rng.choice([0, 3, 99])), pw), (inn(keys=[[BTC, wallet.b64(kd)], 5]), pw),
             (inn(dictionary="Klingon"), pw), (inn(keys=[[-1, wallet.b64(kd)]]), pw), (sealed(b"x" + t), pw), (inn(**odd), pw), (inn(**odd), pw), (sealed(base64.b64decode(v["data"])), pw)] + [(inn(keys=[k]), pw) for k in bk] + [(sealed(wallet.encode(w, rng.choice([1, 2]))), pw)]
    for b, p in rng.sample(forms, 7) + forms[:1]:
        for op in ("open", "keys_data", "retr_mn", "addnet", "chpw"):
            a = (m, hx(b), hx(p))
            if op == "addnet": a += (rng.choice(NETS + [5]),)
            if op == "chpw":
                np = s.password(); a += (hx(np),)
            r = c(op, *a)
            if op != "open" or not r.ok: continue
            kc = r.f[0]
            for _ in range(4):
                n = rng.choice(NETS + [7]); net = n if n in NETS else ETH; pa = gen.path(rng, net); s.nodes(net, wallet.key_data(net, seed), pa)
                if rng.randrange(4) == 0: pa[rng.randrange(5)] = rng.choice(gen.EDGE)
                ps = csv(pa); msg = gen.message(rng)[:500]
                if s.c: n = str(n)
                c("pk", kc, n, ps); g = c("sign", kc, n, ps, hx(msg))
                c("verify", kc, n, ps, hx(msg), hx(gen.rbytes(rng, rng.some([64, 65, 63, 0]))))
                if g.ok and not s.c: c("verify", kc, n, ps, hx(msg), g.f[0])
            if s.c: c("kc_nets", kc); s.d.call("del", kc); s.d.call("forget", kc)
            else:
                c("kc_nets", kc); n = rng.choice([BTC, ETH]); c("shown", m, kc, hx(wallet.key_data(n, seed))); s.d.call("kc_free", kc)
    c("gen_mn", m, rng.randrange(8))
    if not s.c:
        n = rng.choice(NETS); k = wallet.key_data(n, seed); b = wallet.bad_key(rng, n, seed)
        c("f_open", n, hx(b)); c("f_open", n, hx(k)); c("f_data", n, hx(seed[:63])); c("dec", hx(blob), hx(q)); c("environ")
        c("f_pk", n, hx(k), csv(gen.path(rng, n))); c("idx_to_ent", csv([0] * 11))
    for t in ("m/44'/60'/0'/0/" + "9" * 12, "x/1/2/3/4/5", "m/44'//0'/0/0", "m/1"): c("kp_parse", hx(t))
def c28(run):
    run.build("release-fast", "capi-fast")
    tr = strace_works(run.bins["release-fast"])
    run.extra["system_calls_watched_by"] = "strace" if tr else "captured streams and scratch directories only (strace does not work here)"
    def f(sh):
        rounds = 0; dirs = []
        while sh.more() or not rounds:
            d = tempfile.mkdtemp(prefix="verif-c28-"); rounds += 1
            try:
                for c in (0, 1):
                    drv = Watched(run.bins["capi-fast" if c else "release-fast"], d, "c" if c else "rust", trace=tr); drv.path = run.bins["capi-fast" if c else "release-fast"]
                    sh.drv["w%d" % c] = drv; s = Sess(sh, drv, c)
                    if c:
                        drv.call("ping"); it = iters; m = drv.call("+mgr_new").f[0]
                    else:
                        env0 = drv.call("environ").f[0]; it = iters = wallet.iterations(drv)
                        if it is None: raise RuntimeError("sealed form of the probe is not the documented one (C01)")
                        m = drv.call("mgr_new").f[0]
                    k = 0
                    while k < (12 if sh.thorough else 4) and (sh.more() or not k): story(s, m, it); k += 1
                    if not c and drv.call("environ").f[0] != env0: sh.bad("the library changed the process environment", drv)
                    drv.close(); what = "C" if c else "Rust"
                    if os.path.getsize(drv.cap): sh.bad("the library wrote to a standard stream", drv, side=what, output=open(drv.cap, "rb").read(1000).decode(errors="replace"))
                    left = [os.path.join(a, x) for a, b, fs in os.walk(os.path.join(d, drv.name + ".cwd")) for x in b + fs]
                    if left: sh.bad("the library created files", drv, side=what, files=left)
                    if tr:
                        ok, bad = drv.calls(); sh.counts["system calls watched"] += ok
                        if bad: sh.bad("the library made a system call that writes or talks to something else", drv, side=what, calls=bad[:5])
                    sh.saw("%s process watched from first reply to exit" % what, (sh.i, rounds))
            finally: shutil.rmtree(d, ignore_errors=True)
    run.shards(f)
    for k in ("Rust open: result", "Rust open: error", "C open: result", "C open: error", "Rust sign: result", "C sign: result", "Rust chpw: result", "C chpw: result", "Rust retr_mn: error", "C data_mn: error", "bytes of results searched",
              "Rust process watched from first reply to exit", "C process watched from first reply to exit"): run.need(k, 3)
    if tr: run.need("system calls watched", 100)
