"""C01 (sealing is exact and standard) and C02 (nothing else opens)."""
from ..core import hx, Run
from ..oracle import seal as S
from .. import gen, wallet
from . import soak
from ..gen import BTC, ETH, ADA

def again(data, pw, blob, it=S.ITER):
    """the one right sealed form with the salt and nonce of this one (whichever way these were drawn, C03)"""
    return S.seal(data, pw, blob[:32], blob[32:44], it) if len(blob) >= 44 else b"too short"
# ------------------------------------------------------------------ C01
def c01(run):
    run.build("checked", "release", "release-fast")
    def real(sh):
        """the library as shipped (19162 rounds): exact format"""
        rng = sh.rng; k = 0
        edge = [(n, None) for n in gen.LENS] + [(20, n) for n in gen.PW_LENS]
        edge = [e for i, e in enumerate(edge) if sh.mine(i)]
        rng.shuffle(edge)
        while sh.more():
            d = sh.d("checked" if k % 2 else "release"); k += 1
            if edge: n, pn = edge.pop()
            else: n, pn = rng.randrange(0, 300), None
            data = gen.rbytes(rng, n); pw = gen.password(rng) if pn is None else "p" * pn
            bpw = pw.encode(); salt, nonce = gen.rbytes(rng, 32), gen.rbytes(rng, 12)
            r = d.call("enc_with", hx(data), hx(pw), hx(salt + nonce + gen.rbytes(rng, 84) if rng.randrange(3) else gen.stream(rng)))
            want = r.ok and again(data, bpw, r.b(0))
            sh.saw("sealed (given randomness)", (n, len(bpw), pw), (n, repr(pw[:60])))
            if not r.ok or r.b(0) != want:
                sh.bad("sealed form differs from the reference format", d, reply=r, want=want, password=repr(pw), data=data)
                continue
            r = d.call("enc", hx(data), hx(pw))
            sh.saw("sealed (OS randomness)", (n, pw))
            if not r.ok or len(r.b(0)) != 60 + n or S.unseal(r.b(0), bpw) != data:
                sh.bad("independent implementation does not open sealed data", d, reply=r, password=repr(pw), data=data)
            elif k % 3 == 0:
                r2 = d.call("dec", hx(r.b(0)), hx(pw))
                sh.saw("opened own", (n, pw))
                if not r2.ok or r2.b(0) != data: sh.bad("own sealed data does not open to the same bytes", d, reply=r2, password=repr(pw), data=data)
            salt = rng.choice([salt, bytes(32), b"\xff" * 32, bytes(31) + b"\1"]); nonce = rng.choice([nonce, bytes(12), b"\xff" * 12])
            r = d.call("dec", hx(S.seal(data, bpw, salt, nonce)), hx(pw))
            sh.saw("opened foreign", (n, pw, salt, nonce))
            if not r.ok or r.b(0) != data: sh.bad("data sealed by the independent implementation does not open", d, reply=r, password=repr(pw), data=data, salt=salt, nonce=nonce)
    def fast(sh):
        """short key derivation: volume over lengths and passwords, large payloads"""
        rng = sh.rng; d = sh.d("release-fast"); it = wallet.iterations(d)
        if it is None: return sh.bad("sealed form of the probe differs from the reference format", d)
        lens = [n for n in list(range(0, 700)) + gen.BIG if sh.mine(n)]
        for n in lens if it == S.FAST_ITER else lens[:20]:
            data = gen.rbytes(rng, n); pw = gen.password(rng); sn = gen.rbytes(rng, 128)
            r = d.call("enc_with", hx(data), hx(pw), hx(sn))
            r2 = d.call("dec", r.f[0], hx(pw)) if r.ok else r
            sh.saw("length sweep", n, n)
            if not r.ok or len(r.b(0)) != 60 + n or not r2.ok or r2.b(0) != data:
                sh.bad("sealing and opening %d bytes does not give the same bytes" % n, d, password=repr(pw), reply=repr(r)[:200], opened=repr(r2)[:200])
            if n < 20000 and r.ok and again(data, pw.encode(), r.b(0), it) != r.b(0):
                sh.bad("sealed form of %d bytes differs from the reference format" % n, d, password=repr(pw))
        while sh.more():
            data = gen.data(rng); pw = gen.password(rng); sn = gen.stream(rng) if rng.randrange(2) else gen.rbytes(rng, 128)
            r = d.call("enc_with", hx(data), hx(pw), hx(sn))
            want = again(data, pw.encode(), r.b(0), it) if r.ok else None
            sh.saw("sealed (short KDF)", (len(data), pw), (len(data), repr(pw[:60])))
            if not r.ok or r.b(0) != want:
                sh.bad("sealed form differs from the reference format", d, reply=r, want=want, password=repr(pw), data=data); continue
            r = d.call("dec", hx(S.seal(data, pw.encode(), sn[:32], sn[32:44], it) if rng.randrange(2) else want), hx(pw))
            if not r.ok or r.b(0) != data: sh.bad("sealed data does not open to the same bytes", d, reply=r, password=repr(pw), data=data)
    run.shards(real, budget=run.budget * 0.6)
    run.shards(fast, budget=run.budget * 0.4)
    run.shards(soak.c01, n=4, budget=run.budget * .15)
    run.need("opened foreign", 20); run.need("sealed (given randomness)", 20); run.need("sealed (short KDF)", 20)

# ------------------------------------------------------------------ C02
def tampered(rng, b):
    """named changes of a sealed blob; none equals b"""
    n = len(b); k = rng.randrange(16)
    if k == 0: i = rng.randrange(n); return "flip bit", b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]
    if k == 1: i = rng.randrange(n); return "change byte", b[:i] + bytes([b[i] ^ rng.randrange(1, 256)]) + b[i + 1:]
    if k == 2: return "truncate", b[:rng.randrange(n)]
    if k == 3: return "extend", b + gen.rbytes(rng, rng.some([1, 2, 15, 16, 17, 64]))
    if k == 4: return "extend zeros", b + bytes(rng.choice([1, 4, 16, 64]))
    if k == 5: # same difference on two bytes of the tag
        i, j = rng.sample(range(44, 60), 2); x = rng.randrange(1, 256); c = bytearray(b); c[i] ^= x; c[j] ^= x; return "cancelling tag change", bytes(c)
    if k == 6: i, j = rng.sample(range(44, 60), 2); c = bytearray(b); c[i], c[j] = c[j], c[i]; return "swap tag bytes", bytes(c)
    if k == 7: return "constant tag", b[:44] + rng.choice([bytes(16), b"\xff" * 16]) + b[60:]
    if k == 8 and n > 61: i, j = rng.sample(range(60, n), 2); x = rng.randrange(1, 256); c = bytearray(b); c[i] ^= x; c[j] ^= x; return "cancelling text change", bytes(c)
    if k == 9: i = rng.randrange(n); return "drop byte", b[:i] + b[i + 1:]
    if k == 10: i = rng.randrange(n + 1); return "insert byte", b[:i] + gen.rbytes(rng, 1) + b[i:]
    if k == 11: a, z = sorted(rng.sample(range(n + 1), 2)); return "zero range", b[:a] + bytes(z - a) + b[z:]
    if k == 12: a, z = sorted(rng.sample(range(n + 1), 2)); return "random range", b[:a] + gen.rbytes(rng, z - a) + b[z:]
    if k == 13: return "rotate", b[1:] + b[:1]
    if k == 14: return "drop prefix", b[rng.choice([1, 12, 16, 32, 44, min(60, n)]):]
    return "only text", b[60:]
def c02(run):
    run.build("checked", "release-fast")
    BADERR = ("NotEnoughData", "DecryptionFailed", "WrongPassword", "DataError")
    def refuse(sh, d, r, what, **info):
        if r.k == "E" and r.err in BADERR[:3]: return True
        sh.bad("sealed data opened or misreported after: " + what, d, reply=r, **info); return False
    def exhaustive(sh):
        rng = sh.rng; d = sh.d("release-fast"); it = wallet.iterations(d)
        if it is None: return sh.bad("sealed form of the probe differs from the reference format", d)
        quick = it == S.FAST_ITER
        # every bit of blobs of several payload lengths, every truncation, short extensions
        for bi, n in enumerate([1, 2, 16, 17, 63, 64, 65, 200] if quick else [17]):
            data = gen.rbytes(rng, n); pw = gen.password(rng)
            b = d.call("enc", hx(data), hx(pw)).b(0)
            reqs = []
            for i in range(len(b)):
                if not sh.mine(i): continue
                for m in [1 << x for x in range(8)] + [255]: reqs.append(("byte %d ^ %d" % (i, m), b[:i] + bytes([b[i] ^ m]) + b[i + 1:]))
                reqs.append(("truncate to %d" % i, b[:i]))
            for i in range(1, 80):
                if sh.mine(i): reqs += [("extend by %d" % i, b + gen.rbytes(rng, i)), ("extend by %d zeros" % i, b + bytes(i))]
            if not quick: reqs = rng.sample(reqs, 60)
            for (what, x), r in zip(reqs, d.batch([("dec", hx(x), hx(pw)) for _, x in reqs])):
                sh.saw("tampered, every bit and length", (n, what), what)
                refuse(sh, d, r, what, blob=x, password=repr(pw))
        if quick:  # all pairs of tag bytes changed alike
            data = gen.rbytes(rng, 33); b = d.call("enc", hx(data), hx("pw")).b(0); reqs = []
            for i in range(16):
                for j in range(i):
                    if not sh.mine(i * 16 + j): continue
                    for x in (1, 128, 255):
                        c = bytearray(b); c[44 + i] ^= x; c[44 + j] ^= x; reqs.append(bytes(c))
            for x, r in zip(reqs, d.batch([("dec", hx(x), hx("pw")) for x in reqs])):
                sh.saw("tampered tag pairs", x); refuse(sh, d, r, "two tag bytes changed alike", blob=x)
        # random tampering and wrong passwords at every entry point, on wallets and raw data
        mg = d.call("mgr_new").f[0]; k = 0
        while sh.more():
            pw = gen.password(rng); k += 1
            kind = rng.randrange(4)
            if kind == 0: data = gen.data(rng) or b"x"; b = d.call("enc", hx(data), hx(pw)).b(0)
            elif kind == 1: b = d.call("data_seed", mg, hx(gen.seed64(rng)), hx(pw)).b(0)
            elif kind == 2:
                lang = rng.randrange(8); b = d.call("data_mn", mg, hx(gen.phrase(rng, 12, lang)), hx(pw), lang).b(0)
            else:
                w = wallet.W(keys={BTC: wallet.key_data(BTC, gen.seed64(rng)), 77: b"k"})
                b = S.seal(wallet.encode(w, 1), pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), it)
            for _ in range(12):
                if rng.randrange(4) == 0:      # what the right password leaves behind must not help
                    q = rng.choice([("dec", hx(b), hx(pw)), ("keys_data", mg, hx(b), hx(pw)), ("open", mg, hx(b), hx(pw)), ("chpw", mg, hx(b), hx(pw), hx(pw))]); r = d.call(*q); sh.saw("opened before a refusal", None)
                    if q[0] == "open" and r.ok: d.call("kc_free", r.f[0])
                if rng.randrange(3): what, x = tampered(rng, b); p = pw
                elif pw and rng.randrange(2) == 0:
                    what, x, p = "wrong password of the same letters", b, rng.choice(gen.anagrams(rng, pw))
                    if p.encode().rstrip(b"\0") == pw.encode().rstrip(b"\0"): continue
                else: what, x, p = "wrong password", b, gen.other_password(rng, pw)
                if x == b and p == pw: continue
                op = rng.choice(["dec", "dec", "open", "chpw", "addnet", "keys_data", "retr_mn"])
                np = gen.password(rng)
                req = {"dec": ("dec", hx(x), hx(p)), "open": ("open", mg, hx(x), hx(p)), "chpw": ("chpw", mg, hx(x), hx(p), hx(rng.choice([np, pw]))),
                       "addnet": ("addnet", mg, hx(x), hx(p), rng.choice([BTC, ETH, ADA])), "keys_data": ("keys_data", mg, hx(x), hx(p)), "retr_mn": ("retr_mn", mg, hx(x), hx(p))}[op]
                r = d.call(*req)
                sh.saw("refused %s: %s" % (op, what), (k, x, p), (what, repr(p[:40])))
                refuse(sh, d, r, what + " via " + op, blob=x, password=repr(p), real_password=repr(pw), original=b)
            r = d.call("dec", hx(b), hx(pw)); sh.saw("control opens", None)
            if not r.ok: sh.bad("untouched data does not open", d, reply=r, blob=b, password=repr(pw))
    def real(sh):
        rng = sh.rng; d = sh.d("checked")
        while sh.more():
            pw = gen.password(rng); data = gen.data(rng); b = d.call("enc", hx(data), hx(pw)).b(0)
            for _ in range(6):
                if rng.randrange(2): what, x = tampered(rng, b); p = pw
                else: what, x, p = "wrong password", b, gen.other_password(rng, pw)
                if x == b and p == pw: continue
                r = d.call("dec", hx(x), hx(p)); sh.saw("shipped build refused: " + what, (x, p))
                refuse(sh, d, r, what, blob=x, password=repr(p), real_password=repr(pw))
    run.shards(exhaustive, budget=run.budget * 0.7)
    run.shards(real, budget=run.budget * 0.3)
    run.shards(soak.c02, n=4, budget=run.budget * .15)
    run.need("refused open: wrong password"); run.need("control opens", 5); run.need("tampered, every bit and length", 100)
