"""The same call very many times on the same objects: nothing may wear out, be counted, or remembered."""
import time
from .. import novel
def many(rng, n):
    """how often: n, or past a number from the code"""
    m = [x for x in novel.NUMS if x <= 1 << 20]
    return max(n, rng.choice(m) + 2) if m and rng.randrange(2) else n
def soak(sh, d, what, n, mode, *req, key=None, chunk=2000, share=0.3, ok=None):
    """mode "same": all n replies alike; slices "a-b,..": never repeated.  Returns the first reply's text.  Stops after its share of the time."""
    t0 = time.time(); total = sh.__dict__.setdefault("span", sh.end - t0) if hasattr(sh, "__dict__") else sh.end - t0; done = 0; first = None; size = 100; n = many(sh.rng, n)
    while done < n and (time.time() - t0 < share * total or not done):
        c = min(size, chunk, n - done); t1 = time.time(); r = d.call("rep", c, mode, *req); size = min(4 * size, max(100, int(c * .5 / (time.time() - t1 + 1e-4))))
        if not r.ok: sh.bad("driver could not repeat: " + what, d, reply=r); return first
        f = bytes.fromhex(r.f[1]).decode()
        if first is None: first = f
        if len(r.f) > 2 or mode == "same" and f != first:
            sh.bad("one of many equal calls answers differently: " + what, d, call=done + int(r.f[0]), first=first[:600], other=bytes.fromhex(r.f[3]).decode()[:600] if len(r.f) > 2 else f[:600], request=" ".join(map(str, req))[:800]); return first
        if ok is not None and not ok(first): sh.bad("wrong answer: " + what, d, reply=first[:600], request=" ".join(map(str, req))[:800]); return first
        done += c; sh.evals += c - 1; sh.counts["repeated calls"] += c
    sh.saw("many equal calls: " + what, key if key is not None else req, "%s x %d" % (what, done))
    return first

from ..core import hx, csv, Stop
from .. import gen, wallet
from ..oracle import seal as S, secp, bip39
from ..gen import BTC, ETH, ADA, NETS
O = lambda *f: "O\t" + "\t".join(f)
def chain_of(sh, d, data=None):
    """a keychain over all three networks, its key data"""
    from .keys import kdata
    ks = data or {x: kdata(sh.rng, x) for x in NETS}
    r = d.call("kc_of", ",".join("%d:%s" % (x, hx(v)) for x, v in ks.items()))
    if not r.ok: sh.bad("valid key data refused", d, reply=r); return None, ks
    return r.f[0], ks
def c01(sh):
    rng, d = sh.rng, sh.d("release-fast"); pw = gen.password(rng); data = gen.data(rng)[:2000]; it = wallet.iterations(d)
    if it is None: return sh.bad("sealed form of the probe differs from the reference format", d)
    b = S.seal(data, pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), it); sn = gen.rbytes(rng, 128)
    soak(sh, d, "opening", 70000, "same", "dec", hx(b), hx(pw), ok=lambda f: f == O(hx(data)))
    want = S.seal(data, pw.encode(), sn[:32], sn[32:44], it)
    f = soak(sh, d, "sealing (given randomness)", 70000, "same", "enc_with", hx(data), hx(pw), hx(sn))
    if f and (not f.startswith("O\t") or S.unseal(core_unhx(f), pw.encode(), it) != data): sh.bad("sealed form is wrong after many", d, first=f, want=want)
def core_unhx(f): return bytes.fromhex(f[2:].split("\t")[0])
def c02(sh):
    rng, d = sh.rng, sh.d("release-fast"); pw = gen.password(rng); data = gen.data(rng)[:500] or b"x"; other = gen.other_password(rng, pw)
    b = d.call("enc", hx(data), hx(pw)).b(0); t = bytearray(b); t[rng.randrange(44, 60)] ^= 1 + rng.randrange(255)
    refused = lambda f: f.startswith("E\t")
    for _ in range(2):
        soak(sh, d, "opening with a wrong password", 70000, "same", "dec", hx(b), hx(other), ok=refused, share=.2)
        r = d.call("dec", hx(b), hx(pw)); sh.saw("opens after many refusals", b)
        if not r.ok or r.b(0) != data: sh.bad("the password does not open after many refusals", d, reply=r)
        soak(sh, d, "opening tampered data", 70000, "same", "dec", hx(bytes(t)), hx(pw), ok=refused, share=.2)
        r = d.call("dec", hx(b), hx(pw)); sh.saw("opens after many refusals", (b, 2))
        if not r.ok or r.b(0) != data: sh.bad("the password does not open after many refusals", d, reply=r)
def c03(sh):
    """salts and nonces of very many operations of one process and one manager"""
    rng, d = sh.rng, sh.d("release-fast"); m = d.call("mgr_with", csv(NETS)).f[0]; pw = gen.password(rng); cut = "0-32,32-44"
    b = d.call("data_seed", m, hx(gen.seed64(rng)), hx(pw)).b(0)
    m1 = d.call("mgr_with", csv([BTC])).f[0]; b1 = d.call("data_seed", m1, hx(gen.seed64(rng)), hx(pw)).b(0)
    todo = [("sealing", cut, "enc", hx(gen.data(rng)[:200]), hx(pw)), ("wallets of a seed", cut, "data_seed", m, hx(gen.seed64(rng)), hx(pw)), ("wallets of a phrase", cut, "data_mn", m, hx(gen.phrase(rng, 12, 0)), hx(pw), 0),
            ("password changes", cut, "chpw", m, hx(b), hx(pw), hx(gen.password(rng))), ("network additions", cut, "addnet", m, hx(wallet_v1(rng, d, pw) or b1), hx(pw), ETH), ("generated phrases", "all", "gen_mn", m, 0)]
    for i, t in enumerate(todo):
        if (i + sh.i) % 2 == 0 or sh.thorough: soak(sh, d, t[0], 140000, *t[1:], chunk=70000 if sh.thorough else 10000, share=.24, key=(t[0], sh.i, sh.run.round), ok=lambda f: f.startswith("O\t"))
def wallet_v1(rng, d, pw):
    """a wallet that still holds its seed, with one network"""
    it = wallet.iterations(d); seed = gen.seed64(rng)
    if it: return S.seal(wallet.encode(wallet.W(keys={BTC: wallet.key_data(BTC, seed)}, seed=seed), 2), pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), it)
def c07(sh):
    rng = sh.rng; d = sh.d("release")
    e = gen.rbytes(rng, rng.choice([16, 20, 24, 28, 32])); lang = rng.randrange(8); ph = bip39.phrase(e, lang)
    soak(sh, d, "entropy to phrase", 70000, "same", "ent_to_mn", lang, hx(e), ok=lambda f: f.startswith(O(hx(ph)) + "\t"))
    soak(sh, d, "indexes to entropy", 70000, "same", "idx_to_ent", csv(bip39.indexes(e)), ok=lambda f: f == O(hx(e)))
def keys(nets, op):
    def f(sh):
        rng = sh.rng; d = sh.d(("release", "checked-fast")[sh.i % 2]); kc, ks = chain_of(sh, d)
        if kc is None: return
        net = nets[sh.i % len(nets)]; p = gen.path(rng, net); msg = gen.message(rng)[:300]; want = wallet.pub(net, ks[net], p); nd = wallet.node(net, ks[net], p)
        if op == "pk": soak(sh, d, "public keys", 20000, "same", "pk", kc, net, csv(p), ok=lambda f: f == O(hx(want)), chunk=500, share=.9)
        else:
            def good(f): return f.startswith("O\t") and (nd.sign(msg) == core_unhx(f) if net == ADA else secp.verify_known(nd.k, msg, core_unhx(f)))
            s = soak(sh, d, "signatures", 20000, "same", "sign", kc, net, csv(p), hx(msg), ok=good, chunk=500, share=.6 if op == "sign" else .01)
            if not s or not s.startswith("O\t"): return
            s = core_unhx(s); bad = bytearray(s); bad[rng.randrange(64)] ^= 1 << rng.randrange(8)
            if op == "sign": # other messages and paths, after many
                for _ in range(3):
                    msg2 = gen.message(rng); q = gen.path(rng, net); n2 = wallet.node(net, ks[net], q); r = d.call("sign", kc, net, csv(q), hx(msg2)); sh.saw("signature after many", (ks[net], tuple(q), msg2))
                    if not r.ok or not (n2.sign(msg2) == r.b(0) if net == ADA else secp.verify_known(n2.k, msg2, r.b(0))): sh.bad("wrong signature after many", d, reply=r, message=msg2, path=q, data=ks[net])
            soak(sh, d, "accepted verifications", 20000, "same", "verify", kc, net, csv(p), hx(msg), hx(s), ok=lambda f: f == O("true"), chunk=500, share=.3 if op == "sign" else .4)
            if op == "verify":
                for forged, m2 in ((bytes(bad), msg), (s, msg + b"x")):
                    soak(sh, d, "refused verifications", 20000, "same", "verify", kc, net, csv(p), hx(m2), hx(forged), ok=lambda f: f != O("true"), chunk=500, share=.25)
    return f
def c14(sh):
    """refused paths stay refused, accepted ones accepted"""
    rng = sh.rng; d = sh.d("release"); kc, ks = chain_of(sh, d)
    if kc is None: return
    net = NETS[sh.i % 3]; p = gen.path(rng, net); q = list(p); q[rng.randrange(3)] ^= rng.choice([1, 1 << 31, 2]); want = wallet.pub(net, ks[net], p)
    if not wallet.valid_path(net, q): soak(sh, d, "refused path", 70000, "same", "pk", kc, net, csv(q), ok=lambda f: f.startswith("E\t"), chunk=2000, share=.4)
    soak(sh, d, "accepted path", 20000, "same", "pk", kc, net, csv(p), ok=lambda f: f == O(hx(want)), chunk=500, share=.4)
def c27(sh):
    """very many refusals of one kind in a row; a call to which no reason applies is not refused afterwards"""
    rng = sh.rng; d = sh.d(("release-fast", "checked-fast")[sh.i % 2] if "checked-fast" in sh.run.bins else "release-fast"); it = wallet.iterations(d)
    if it is None: return sh.bad("sealed form of the probe differs from the reference format", d)
    refused = lambda f: f.startswith("E\t"); pw = gen.password(rng); no = gen.other_password(rng, pw); sd = gen.seed64(rng); ks = {x: wallet.key_data(x, sd) for x in NETS}
    seal = lambda w, p=pw: hx(S.seal(wallet.encode(w, 2), p.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), it))
    full, part = seal(wallet.W(sd, keys=ks)), seal(wallet.W(sd, keys={BTC: ks[BTC]})); m = d.call("mgr_with", csv(NETS)).f[0]; kc = d.call("open", m, full, hx(pw)).f[0]
    lang = rng.randrange(8); ph = gen.phrase(rng, 12, lang); net = rng.choice(NETS); p = gen.path(rng, net); q = list(p); q[1] ^= 1; msg = gen.message(rng)[:100]; good = d.call("sign", kc, net, csv(p), hx(msg)).f[0]
    text = "m/44'/0'/%d'/1/%d" % (rng.randrange(H_), rng.randrange(H_)); w9 = " ".join(ph.split(" ")[:9]); bad = ph.split(" "); bad[3] = "nosuch"; sealed = seal(wallet.W(sd, keys={BTC: b"bad key"}))
    kinds = {"wrong password, opening": ("open", m, full, hx(no)), "wrong password, unsealing": ("dec", full, hx(no)), "wrong password, changing": ("chpw", m, full, hx(no), hx(pw)), "wrong password, adding": ("addnet", m, part, hx(no), ETH), "wrong password, exporting": ("keys_data", m, full, hx(no)),
             "too little data": ("open", m, hx(b"x" * 59), hx(pw)), "malformed key": ("open", m, sealed, hx(pw)), "present network": ("addnet", m, full, hx(pw), ETH), "unsupported network": ("addnet", m, full, hx(pw), 77), "no phrase": ("retr_mn", m, full, hx(pw)),
             "seed size": ("data_seed", m, hx(sd[1:]), hx(pw)), "short phrase": ("data_mn", m, hx(w9), hx(pw), lang), "unknown word": ("data_mn", m, hx(" ".join(bad)), hx(pw), lang), "unusable path": ("pk", kc, net, csv(q)), "unusable path, signing": ("sign", kc, net, csv(q), hx(msg)),
             "absent network": ("pk", kc, 77, csv(p)), "signature size": ("verify", kc, net, csv(p), hx(msg), hx(b"123")), "path text": ("kp_parse", hx("m/44'/x")), "manager of nothing": ("mgr_with", csv([77]))}
    fine = [("open", m, full, hx(pw)), ("dec", full, hx(pw)), ("chpw", m, full, hx(pw), hx(no)), ("addnet", m, part, hx(pw), ETH), ("keys_data", m, full, hx(pw)), ("data_seed", m, hx(sd), hx(pw)), ("data_mn", m, hx(ph), hx(pw), lang), ("pk", kc, net, csv(p)), ("sign", kc, net, csv(p), hx(msg)),
            ("verify", kc, net, csv(p), hx(msg), good), ("kp_parse", hx(text)), ("mgr_with", csv(NETS)), ("gen_mn", m, lang), ("mgr_new",)]
    todo = sorted(kinds); rng.shuffle(todo)
    if not sh.thorough: todo = [k for k in todo if k.startswith("wrong")][(sh.i + sh.run.seed) % 5:][:1] + [k for k in todo if not k.startswith("wrong")][:3]
    for k in todo:
        soak(sh, d, "refusal, " + k, 3000, "same", *kinds[k], ok=refused, share=.05, chunk=1000)
        for r, q in zip(d.batch(fine), fine):
            sh.saw("no refusal after many", (k, q))
            if not r.ok: sh.bad("%s is refused without a reason, after many refusals (%s)" % (q[0], k), d, reply=r, request=" ".join(map(str, q))[:600])
H_ = 1 << 31
CROWDS = [300, 700, 1100, 2500]
def crowd_wallets(rng, it, n=12):
    out = []
    for _ in range(n):
        nets = rng.sample(NETS, rng.randrange(1, 4)); sd = gen.seed64(rng); pw = gen.password(rng).replace("\0", "")
        w = wallet.W(sd, keys={x: wallet.key_data(x, sd) for x in nets})
        out.append((S.seal(wallet.encode(w, 2), pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), it), pw, w.keys))
    return out
def picks(rng, n): return [] if n < 2 else sorted({i for i in [0, 1, 2, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, n // 2, n - 2, n - 1] + [rng.randrange(n) for _ in range(20)] if 0 <= i < n})
def crowd(sh):
    """hundreds and thousands of keychains and managers alive at once (Rust): each stays itself"""
    rng = sh.rng; d = sh.d(("release-fast", "release-fast", "checked-fast")[sh.i % 3] if "checked-fast" in sh.run.bins else "release-fast"); it = wallet.iterations(d)
    if it is None: return sh.bad("sealed form of the probe differs from the reference format", d)
    ws = crowd_wallets(rng, it); N = [1100, 2500, 5000, 66000 if sh.thorough else 9000][sh.i % 4]
    N = many(rng, N) if N < 9000 else N; N = min(N, 70000); ms = [rng.sample(NETS, rng.randrange(1, 4)) for _ in range(min(N, 1100))]
    mids = [r.f[0] if r.ok else None for r in d.batch([("mgr_with", csv(m)) for m in ms])]
    if None in mids: return sh.bad("a manager cannot be made when others exist", d, alive=mids.index(None))
    full = d.call("mgr_with", csv(NETS)).f[0]; live = []          # (id, wallet)
    def more(n):
        o = [rng.randrange(len(ws)) for _ in range(n)]
        for w, r in zip(o, d.batch([("open", full, hx(ws[w][0]), hx(ws[w][1])) for w in o])):
            if not r.ok: return sh.bad("wallet does not open while many keychains are alive", d, alive=len(live), reply=r)
            live.append((r.f[0], w))
        return True
    def look(when):
        for j in picks(rng, len(live)):
            i, w = live[j]; keys = ws[w][2]; r = d.call("kc_nets", i); sh.saw("one of many keychains, " + when, (ws[w][0][:32], j, len(live), when), "%d of %d" % (j, len(live)))
            if not r.ok or sorted(r.f[0].split(",")) != sorted(map(str, keys)): sh.bad("one of many keychains lists other networks", d, which=j, alive=len(live), reply=r, want=sorted(keys))
            x = rng.choice(NETS); p = gen.path(rng, x); r = d.call("pk", i, x, csv(p))
            if x in keys:
                if not r.ok or r.b(0) != wallet.pub(x, keys[x], p): sh.bad("one of many keychains gives another key", d, which=j, alive=len(live), network=hex(x), path=p, reply=r)
            elif r.k != "E" or "KeyDoesNotExist" not in r.dbg(): sh.bad("one of many keychains answers for a network it does not have", d, which=j, alive=len(live), network=hex(x), reply=r)
        for j in picks(rng, len(ms)):
            for x in NETS:
                r = d.call("mgr_has", mids[j], x)
                if not r.ok or (r.f[0] == "true") != (x in ms[j]): sh.bad("one of many managers supports other networks", d, which=j, network=hex(x), reply=r, want=ms[j])
            sh.saw("one of many managers, " + when, (j, len(ms), tuple(ms[j])))
    step = 500
    while len(live) < N and sh.more():
        if not more(min(step, N - len(live))): return
        step = min(2 * step, 4000)
        if rng.randrange(3) == 0: look("growing")
    look("all alive")
    out = set(rng.sample(range(len(live)), len(live) // 2)); d.batch([("kc_free", live[i][0]) for i in out]); live[:] = [v for i, v in enumerate(live) if i not in out]
    look("half dropped")
    if more(300): look("after new ones")
    d.batch([("mgr_free", m) for m in mids]); ms.clear(); mids.clear(); d.call("mgr_free", full)
    look("managers dropped")
    d.batch([("kc_free", i) for i, _ in live])
def crowd_c(flavors):
    """the same through the C interface, with every other kind of object kept alive too"""
    def f(sh):
        from .capi import san, C
        rng = sh.rng; it = wallet.iterations(sh.d("checked-fast"))
        if it is None: raise RuntimeError("sealed form of the probe is not the documented one (C01)")
        ws = crowd_wallets(rng, it, 6); d = san(sh, flavors[sh.i % len(flavors)]); sh.drv["crowd"] = d; c = C(sh, d)
        mg = c("mgr_new"); N = min(many(rng, [300, 600, 1100, 2500][sh.i % 4]), 20000); live, objs = [], []
        def call(*a):
            r = c(*a)
            if r is None: raise Stop()
            return r
        def use(j, when):
            i, w = live[j]; x = rng.choice(NETS); p = gen.path(rng, x); r = call("pk", i, x, csv(p)); sh.saw("C: one of many keychains, " + when, (ws[w][0][:32], j, len(live), tuple(p)))
            if x in ws[w][2]:
                if r.k != "O" or bytes.fromhex(r.f[1]) != wallet.pub(x, ws[w][2][x], p): sh.bad("C: one of many keychains gives another key", d, which=j, alive=len(live), network=hex(x), path=p, reply=r)
                else: objs.append(r.f[0])
            elif r.k != "E" or r.f[0] != "6": sh.bad("C: one of many keychains answers for a network it does not have", d, which=j, alive=len(live), network=hex(x), reply=r)
        while len(live) < N and sh.more():
            w = rng.randrange(len(ws)); k = rng.randrange(8)
            r = call("open", mg.f[0], hx(ws[w][0]), hx(ws[w][1]))
            if r.k != "O": return sh.bad("C: wallet does not open while many objects are alive", d, alive=len(live), reply=r)
            live.append((r.f[0], w))
            if k == 0: r = call("kc_nets", r.f[0])
            elif k == 1: r = call("gen_mn", mg.f[0], rng.randrange(8))
            elif k == 2: r = call("keys_data", mg.f[0], hx(ws[w][0]), hx(ws[w][1]))
            elif k == 3: r = call("+open", mg.f[0], hx(ws[w][0]), hx("not it"))
            elif k == 4: r = call("chpw", mg.f[0], hx(ws[w][0]), hx(ws[w][1]), hx("new"))
            elif k == 5: use(rng.randrange(len(live)), "growing")
            if k < 5 and r.k == "O": objs.append(r.f[0])
            elif k == 3 and r.k == "E": objs.append(r.f[2])
        for j in picks(rng, len(live)): use(j, "all alive")
        for o in objs: call("read", o); 
        sh.saw("C: objects read while many are alive", (sh.i, len(objs), len(live)), "%d objects, %d keychains" % (len(objs), len(live)))
        call("del", mg.f[0])
        for j in picks(rng, len(live)): use(j, "manager deleted")
        rng.shuffle(objs); h = len(objs) // 2
        for o in objs[:h]: call("del", o)
        for o in objs[h:]: call("read", o)
        dead = set(rng.sample(range(len(live)), len(live) // 2))
        for j in dead: call("del", live[j][0])
        live[:] = [v for j, v in enumerate(live) if j not in dead]
        for j in picks(rng, len(live)): use(j, "half deleted")
        for o in objs[h:]: call("del", o)
        for i, _ in live: call("del", i)
        d.close(); sh.drv.pop("crowd")
    return f
