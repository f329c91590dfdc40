"""C10 (BIP-32 keys), C11 (BIP32-Ed25519 keys), C12 (signatures), C13 (verification), C17 (key blobs)."""
import hashlib
from ..core import hx, csv
from ..oracle import secp, ed, seal as S
from ..oracle.keccak import keccak256
from .. import gen, wallet
from . import soak, session
from ..gen import BTC, ETH, ADA, NETS, H, U32
N = secp.N
b32 = lambda v: v.to_bytes(32, "big")
def secp_k(rng):
    """secrets: small (leading zero bytes), next to the order (every tweak wraps), random"""
    k = rng.randrange(8)
    if k == 0: return rng.randrange(1, 1 << rng.choice([1, 8, 64, 128, 192, 248]))
    if k == 1: return N - rng.randrange(1, 1 << rng.choice([1, 8, 64, 128]))
    if k == 2: return N // 2 + rng.randrange(-2, 3)
    if k == 3: return 1 << rng.randrange(255)
    return rng.randrange(1, N)
def secp_data(rng, maxdepth=250):
    """a valid stored key: of a seed, or any depth with an unusual secret"""
    if rng.randrange(3) == 0: return secp.master(gen.seed64(rng)).ser()
    depth = rng.choice([0, 0, 1, 2, 127, 128, 249, 250, rng.randrange(251)]) if maxdepth >= 250 else 0
    fp, cc = [rng.choice([bytes(n), b"\xff" * n, gen.rbytes(rng, n), gen.rbytes(rng, n)]) for n in (4, 32)]
    return secp.blob(min(depth, maxdepth), fp, rng.choice([0, 1, H, U32, rng.getrandbits(32)]), cc, b32(secp_k(rng)))
def ada_data(rng):
    k = rng.randrange(6)
    if k < 2: return ed.master_data(gen.seed64(rng))
    b = bytearray(gen.rbytes(rng, 96))
    if k == 2: b[:32] = b"\xff" * 32
    if k == 3: b[:32] = bytes(32)
    if k in (2, 4): b[32:64] = b"\xff" * 32
    if k in (3, 5) and rng.randrange(2): b[32:64] = bytes(32)
    if rng.randrange(4) == 0: b[64:] = rng.choice([bytes(32), b"\xff" * 32])
    b[0] &= 0xf8; b[31] = (b[31] & 0x1f) | 0x40
    return bytes(b)
def kdata(rng, net): return ada_data(rng) if net == ADA else secp_data(rng)
# ------------------------------------------------------------------ C10
def step(x): return ":".join(map(lambda b: hx(b), (x.ser(), secp.ser_u(x.pt), secp.ser_c(x.pt), hashlib.sha256(secp.ser_u(x.pt)).digest(), hashlib.sha256(secp.ser_c(x.pt)).digest())))
FIELDS = ["depth, parent, index, chain code, key and checksum", "public key", "compressed public key", "hash of public key", "hash of compressed public key"]
def pks(sh, d, net, data, paths, via):
    """public keys of stored key data by paths: through the factory, or through a keychain"""
    if via == "factory": rs = d.batch([("f_pk", net, hx(data), csv(p)) for p in paths])
    else:
        kc = d.call("kc_of", "%d:%s" % (net, hx(data)))
        if not kc.ok: return sh.bad("key factory refuses valid key data", d, network=net, data=data, reply=kc)
        rs = d.batch([("pk", kc.f[0], net, csv(p)) for p in paths]); d.call("kc_free", kc.f[0])
    for p, r in zip(paths, rs):
        want = wallet.pub(net, data, p); sh.saw("public key %s via %s" % (net_name(net), via), (net, data, tuple(p)), (hex(net), p))
        if not r.ok or r.b(0) != want: sh.bad("public key differs from the standard", d, network=hex(net), data=data, path=[hex(x) for x in p], reply=r, want=want)
def net_name(n): return {BTC: "BTC", ETH: "ETH", ADA: "ADA"}[n]
def via_wallet(sh, d, nets, seed, npaths):
    """seed -> wallet -> keychain -> public keys"""
    rng = sh.rng; pw = gen.password(rng)
    m = d.call("mgr_with", csv(nets))
    b = d.call("data_seed", m.f[0], hx(seed), hx(pw)); k = d.call("open", m.f[0], hx(b.b(0)), hx(pw)) if b.ok else b
    if not k.ok: return sh.bad("wallet of a seed cannot be made or opened", d, seed=seed, reply=k)
    early = rng.randrange(2)
    if early: d.call("mgr_free", m.f[0])       # a keychain outlives its manager
    for net in nets:
        data = wallet.key_data(net, seed); ps = [gen.path(rng, net) for _ in range(npaths)]
        for p, r in zip(ps, d.batch([("pk", k.f[0], net, csv(p)) for p in ps])):
            want = wallet.pub(net, data, p); sh.saw("public key %s via wallet" % net_name(net), (net, seed, tuple(p)))
            if not r.ok or r.b(0) != want: sh.bad("public key of a wallet differs from the standard", d, network=hex(net), seed=seed, path=[hex(x) for x in p], reply=r, want=want)
    d.call("kc_free", k.f[0])
    if not early: d.call("mgr_free", m.f[0])
def c10(run):
    run.build("checked-fast", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked-fast"), sh.d("release")]
        def chain(d, kind, root, x, path):
            """each step of a derivation by the standalone library"""
            r = d.call("x_chain", kind, hx(root), csv(path))
            cut = next((i for i in range(len(path)) if x.depth + i >= 255), None)
            if cut is not None:
                sh.saw("derivation beyond depth 255", (root, len(path)), "%d steps from depth %d" % (len(path), x.depth))
                if r.k != "E" or "Depth" not in r.dbg(): sh.bad("deriving beyond depth 255 is not refused", d, root=root, path=path, reply=r)
                return
            if not r.ok or len(r.f) != len(path) + 1: return sh.bad("derivation fails", d, kind=kind, root=root, path=path, reply=r)
            for i, got in enumerate(r.f):
                want = step(x); sh.saw("derived node", (kind, root, tuple(path[:i])), path[:i])
                if got != want:
                    j = [a == b for a, b in zip(got.split(":"), want.split(":"))].index(False)
                    return sh.bad("derived node differs from BIP-32: " + FIELDS[j], d, kind=kind, root=root, path=[hex(v) for v in path[:i]], got=got, want=want)
                if i < len(path): x = x.child(path[i])
        # depth limits: from every depth near the limit; one chain over all depths
        for i, dep in enumerate([0, 1, 5, 100, 126, 127, 128, 200] + list(range(245, 256))):
            if not sh.mine(i): continue
            for n in {1, 2, 255 - dep if dep > 200 else 3, 256 - dep}:
                if n < 1 or (n > 60 and dep != 0 and not sh.thorough): continue
                b = secp.blob(dep, b"\1\2\3\4", 7, gen.rbytes(rng, 32), b32(secp_k(rng)))
                chain(D[i % 2], "data", b, secp.parse(b), [gen.index(rng) for _ in range(n)])
        if sh.i == 1:
            b = gen.seed64(rng); chain(D[0], "seed", b, secp.master(b), [gen.index(rng) for _ in range(255)])
        for j, (w, net, data, p, m) in enumerate(gen.rare([BTC, ETH], sh.i, sh.n)):
            sh.saw("rare value: " + w); pks(sh, D[j % 2], net, data, [p], ["factory", "keychain"][j // 2 % 2]); chain(D[j % 2], "data", data, secp.parse(data), p)
        while sh.more():
            d = rng.choice(D); net = rng.choice([BTC, ETH])
            # stored key
            for _ in range(3):
                sd = gen.seed64(rng); r = d.call("f_data", net, hx(sd)); sh.saw("stored key", (net, sd))
                if not r.ok or r.b(0) != secp.master(sd).ser(): sh.bad("stored key is not the BIP-32 master key of the seed", d, seed=sd, reply=r, want=secp.master(sd).ser())
                chain(d, "seed", sd, secp.master(sd), [gen.index(rng) for _ in range(rng.randrange(0, 8))])
            data = secp_data(rng)
            pks(sh, d, net, data, [gen.path(rng, net) for _ in range(6)], rng.choice(["factory", "keychain"]))
            data = secp_data(rng); chain(d, "data", data, secp.parse(data), [rng.choice([gen.index(rng), rng.choice(gen.EDGE)]) for _ in range(rng.randrange(1, 5))])
            if d is D[0] and rng.randrange(3) == 0: via_wallet(sh, d, rng.choice([[BTC], [ETH], [BTC, ETH], [BTC, ETH, ADA]]), gen.seed64(rng), 3)
    run.shards(f); run.shards(soak.keys([BTC, ETH], "pk"), budget=run.budget * .2); run.shards(session.run(["pk"], [BTC, ETH]), budget=run.budget * .3)
    for k in ("derived node", "stored key", "public key BTC via keychain", "public key ETH via factory", "public key ETH via wallet"): run.need(k, 50)
    run.need("derivation beyond depth 255", 8)
# ------------------------------------------------------------------ C11
def c11(run):
    run.build("checked-fast", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked-fast"), sh.d("release")]
        for j, (w, net, data, p, m) in enumerate(gen.rare([ADA], sh.i, sh.n)):
            sh.saw("rare value: " + w); pks(sh, D[j % 2], net, data, [p], ["factory", "keychain"][j // 2 % 2])
        while sh.more():
            d = rng.choice(D)
            sds = [gen.seed64(rng) for _ in range(4)]
            for sd, r in zip(sds, d.batch([("f_data", ADA, hx(sd)) for sd in sds])):
                sh.saw("stored key", sd)
                if not r.ok or r.b(0) != ed.master_data(sd): sh.bad("stored Cardano key is not the clamped SHA-512 of the seed's first half and its second half", d, seed=sd, reply=r, want=ed.master_data(sd))
            data = ada_data(rng); a = gen.path(rng, ADA)
            # neighbouring paths, whose keys must all differ
            ps = {tuple(a)}
            for _ in range(6):
                p = list(a); j = rng.randrange(5)
                if j < 1: p = gen.path(rng, ADA)
                elif j == 1: p[2] = H | ((p[2] + rng.choice([1, 2**16, 2**24, H - 1])) & (H - 1))
                elif j == 2: p[3] ^= 1
                elif j == 3: p[4] = (p[4] + rng.choice([1, 256, 2**16, 2**24, H - 1])) & (H - 1)
                else: p[2], p[4] = p[4] | H, p[2] & (H - 1)
                ps.add(tuple(p))
            ps = sorted(ps); pks(sh, d, ADA, data, ps, rng.choice(["factory", "keychain"]))
            rs = [r.f[0] for r in d.batch([("f_pk", ADA, hx(data), csv(p)) for p in ps]) if r.ok]
            sh.saw("keys of different paths compared", (data, tuple(ps)))
            if len({r[:64] for r in rs}) != len(rs) or len(rs) != len(ps): sh.bad("different paths give the same key", d, data=data, paths=ps, keys=rs)
            if d is D[0] and rng.randrange(2) == 0: via_wallet(sh, d, rng.choice([[ADA], [ADA, ETH]]), gen.seed64(rng), 3)
    run.shards(f); run.shards(soak.keys([ADA], "pk"), budget=run.budget * .2); run.shards(session.run(["pk"], [ADA]), budget=run.budget * .3)
    for k in ("stored key", "public key ADA via keychain", "public key ADA via factory", "public key ADA via wallet", "keys of different paths compared"): run.need(k, 50)
# ------------------------------------------------------------------ C12
MSG_HEADS = [b"", b"\x19Ethereum Signed Message:\n32", b"\x18Bitcoin Signed Message:\n", b"\x19\x01", b"0x", b"\0", b"\xff" * 8]
def msgs(rng, big):
    """messages: boundary lengths, families that share a prefix / differ in one bit / in length only"""
    k = rng.randrange(7)
    if k == 0: return [gen.data(rng) for _ in range(3)]
    if k == 1:
        m = gen.rbytes(rng, rng.some([32, 64, 135, 136, 137, 272, 1000, 2048]) or 32); i = rng.randrange(8 * len(m)); c = bytearray(m); c[i // 8] ^= 1 << i % 8
        return [m, bytes(c), m[:-1], m + b"\0", keccak256(m)]
    if k == 2: return [bytes(n) for n in rng.sample([0, 1, 31, 32, 33, 64, 135, 136, 137], 4)]
    if k == 3: return [rng.choice(MSG_HEADS) + gen.rbytes(rng, rng.some([0, 1, 31, 32, 33, 100]))]
    if k == 4 and big: n = rng.choice(gen.BIG); m = gen.rbytes(rng, n); return [m, m[:-1] + bytes([m[-1] ^ 1])]
    if k == 5: h = gen.rbytes(rng, 32); return [h, h.hex().encode(), b"0x" + h.hex().encode(), h[::-1]]
    return [gen.message(rng) for _ in range(3)]
def c12(run):
    run.build("checked-fast", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked-fast"), sh.d("release")]
        points = {}
        def judge(d, net, nd, msg, s, where, info):
            if net == ADA:
                if s != nd.sign(msg): sh.bad("Cardano signature is not the Ed25519 signature of the message" if nd.verify_known(msg, s) is False else "Cardano signature is not the standard deterministic one", d, signature=s, where=where, **info)
                return
            if len(s) != 65: return sh.bad("signature is not 65 bytes", d, signature=s, where=where, **info)
            if not secp.verify_known(nd.k, msg, s[:64]): return sh.bad("signature does not verify over the Keccak-256 hash under the key of the path", d, signature=s, where=where, **info)
            if not secp.verify_known(nd.k, msg, s): return sh.bad("recovery id does not recover the signer's key", d, signature=s, where=where, **info)
            if int.from_bytes(s[32:64], "big") > N // 2: return sh.bad("signature is not low-S", d, signature=s, where=where, **info)
            w = points.setdefault(s[:32], (nd.k, msg)); sh.counts["nonce points recorded"] += 1
            if w != (nd.k, msg): sh.bad("ECDSA nonce point shared by two messages or keys", d, signature=s, other_key=hex(w[0]), other_message=w[1], where=where, **info)
        rare = gen.rare(NETS, sh.i, sh.n)
        n = 0
        while sh.more():
            d = rng.choice(D); o = D[0] if d is D[1] else D[1]; n += 1
            if rare: w, net, data, p, m = rare.pop(); sh.saw("rare value: " + w); ms = [m or b"0"]
            else: w = None; net = rng.choice(NETS); data = kdata(rng, net); p = gen.path(rng, net); ms = msgs(rng, n % 8 == 0)
            if w is None and rng.randrange(4) == 0 and net != ADA:        # the same message under neighbouring keys
                nets = [(x, data, q) for x in (BTC, ETH) for q in (gen.path(rng, x), gen.path(rng, x))]
            else: nets = [(net, data, p)]
            for net, data, p in nets:
                nd = wallet.node(net, data, p)
                for msg, r in zip(ms, d.batch([("f_sign", net, hx(data), csv(p), hx(m)) for m in ms])):
                    info = dict(network=hex(net), data=data, path=[hex(x) for x in p], message=msg[:200], length=len(msg))
                    sh.saw("signature %s" % net_name(net), (net, data, tuple(p), hashlib.sha256(msg).digest()), (net_name(net), p, len(msg)))
                    if len(msg) > 4000: sh.counts["signature of a long message"] += 1
                    if not r.ok: sh.bad("signing fails", d, reply=r, **info); continue
                    s = r.b(0); judge(d, net, nd, msg, s, "factory key", info)
                    # deterministic: again, in the other build
                    for x in (d, o):
                        q = x.call("f_sign", net, hx(data), csv(p), hx(msg)); sh.counts["repeated signing"] += 1
                        if q.f[:1] != r.f[:1]: sh.bad("signing is not deterministic", x, first=s, then=q, **info)
                    # own verification
                    forms = [s, s[:64]] if net != ADA else [s]
                    for fm in forms:
                        q = rng.choice(D).call("f_verify", net, hx(data), csv(p), hx(msg), hx(fm)); sh.counts["own verification %s %d bytes" % (net_name(net), len(fm))] += 1
                        if not q.ok or q.f[0] != "true": sh.bad("own signature is not accepted by the library's verification", d, signature=fm, reply=q, **info)
            # the same through one keychain holding several keys, repeatedly, and the standalone library
            if n % 3 == 0:
                ks = {x: kdata(rng, x) for x in rng.sample(NETS, rng.randrange(1, 4))}
                kc = d.call("kc_of", ",".join("%d:%s" % (x, hx(v)) for x, v in ks.items()))
                if not kc.ok: sh.bad("valid key data refused", d, reply=kc)
                x = rng.choice(sorted(ks)); p = gen.path(rng, x); nd = wallet.node(x, ks[x], p); seen = {}
                for msg in [gen.message(rng), b"", gen.message(rng)] * 2:
                    r = d.call("sign", kc.f[0], x, csv(p), hx(msg)); info = dict(network=hex(x), data=ks[x], path=p, message=msg)
                    sh.saw("signature through a keychain", (x, ks[x], tuple(p), msg))
                    if not r.ok: sh.bad("signing fails", d, reply=r, **info); continue
                    judge(d, x, nd, msg, r.b(0), "keychain", info)
                    if seen.setdefault(msg, r.f[0]) != r.f[0]: sh.bad("signing is not deterministic", d, reply=r, first=seen[msg], **info)
                    q = d.call("verify", kc.f[0], x, csv(p), hx(msg), r.f[0]); sh.counts["own verification through a keychain"] += 1
                    if not q.ok or q.f[0] != "true": sh.bad("own signature is not accepted by the library's verification", d, reply=q, **info)
                d.call("kc_free", kc.f[0])
                b = secp_data(rng); pth = [gen.index(rng) for _ in range(rng.randrange(4))]; msg = rng.choice(ms); nd = secp.parse(b).path(pth)
                r = d.call("x_sign", "data", hx(b), csv(pth), hx(msg)); info = dict(data=b, path=pth, message=msg[:200]); sh.saw("signature by the standalone library", (b, tuple(pth), hashlib.sha256(msg).digest()))
                if not r.ok: sh.bad("signing fails", d, reply=r, **info)
                else:
                    judge(d, BTC, nd, msg, r.b(0), "standalone", info)
                    for fm in (r.b(0), r.b(0)[:64]):
                        q = d.call("x_verify", "data", hx(b), csv(pth), hx(msg), hx(fm))
                        if not q.ok or q.f[0] != "true": sh.bad("own signature is not accepted by the library's verification", d, reply=q, **info)
    run.shards(f); run.shards(soak.keys(NETS, "sign"), budget=run.budget * .2); run.shards(session.run(["sign"], NETS), budget=run.budget * .3)
    for k in ("signature BTC", "signature ETH", "signature ADA", "signature through a keychain", "own verification BTC 65 bytes", "own verification ETH 64 bytes", "own verification ADA 64 bytes", "repeated signing", "signature by the standalone library"): run.need(k, 50)
    run.need("signature of a long message", 5)
# ------------------------------------------------------------------ C13
def sig_changes(rng, net, s, other):
    """(what, changed signature); s is a good signature (64 or 65 bytes)"""
    out = []
    def a(w, b): out.append((w, bytes(b)))
    for i in range(len(s)):
        for x in {1, 0x80, rng.randrange(1, 256)}: c = bytearray(s); c[i] ^= x; a("one byte", c)
    M = ed.L if net == ADA else N
    if net == ADA:
        R, Sv = s[:32], int.from_bytes(s[32:], "little"); le = lambda v: v.to_bytes(32, "little")
        for m in range(1, 17):
            if Sv + m * M < 2**256: a("scalar plus a multiple of the order", R + le(Sv + m * M))
        a("negated scalar", R + le((M - Sv) % M)); a("negated point", R[:31] + bytes([R[31] ^ 0x80]) + s[32:])
        a("zero scalar", R + bytes(32)); a("order as scalar", R + le(M)); a("identity point", b"\1" + bytes(31) + s[32:]); a("identity point, zero scalar", b"\1" + bytes(63))
        a("zero point", bytes(32) + s[32:]); a("field prime point", (2**255 - 19).to_bytes(32, "little") + s[32:]); a("identity, non-canonical", (2**255 - 18).to_bytes(32, "little") + bytes(32))
        a("swapped halves", s[32:] + R); a("point of another", other[:32] + s[32:]); a("scalar of another", R + other[32:])
    else:
        r, v = int.from_bytes(s[:32], "big"), int.from_bytes(s[32:64], "big")
        tails = [b""] + [bytes([t]) for t in (0, 1, 2, 3, 27, 28, 255)]
        for w, x, y in [("negated s", r, N - v), ("zero r", 0, v), ("zero s", r, 0), ("all zero", 0, 0), ("order as r", N, v), ("order as s", r, N), ("r above the order", N + 1, v), ("s above the order", r, N + 1), ("all ones", 2**256 - 1, 2**256 - 1), ("swapped", v, r), ("one", 1, 1),
                        ("r of another", int.from_bytes(other[:32], "big"), v), ("s of another", r, int.from_bytes(other[32:64], "big")), ("negated r", N - r, v), ("r plus order", r + N, v), ("s plus order", r, v + N)]:
            if x < 2**256 and y < 2**256:
                for t in (tails if w in ("negated s",) else [b"", s[64:65] or b"\0", b"\1"]): a(w, b32(x) + b32(y) + t)
        for t in range(256): a("recovery id", s[:64] + bytes([t]))
    a("all zero", bytes(len(s))); a("all ones", b"\xff" * len(s)); a("random", gen.rbytes(rng, len(s))); a("reversed", s[::-1]); a("of another message", other)
    return out
def msg_changes(rng, m):
    out = [m + b"\0", m + b"\1", b"\0" + m, b"", m + m, keccak256(m), hashlib.sha256(m).digest(), hashlib.sha512(m).digest(), m[::-1], gen.message(rng), b"\x19Ethereum Signed Message:\n%d" % len(m) + m, m + b"\1" + bytes(max(0, 134 - len(m) % 136)) + b"\x80"]
    if m:
        out += [m[:-1], m[1:], m[:len(m) // 2], m[:32], m[:64], m[:128]]
        for _ in range(6): c = bytearray(m); c[rng.randrange(len(m))] ^= 1 << rng.randrange(8); out.append(bytes(c))
        c = bytearray(m); c[0] ^= 1; out.append(bytes(c)); c = bytearray(m); c[-1] ^= 0x80; out.append(bytes(c))
    return [x for x in out if x != m]
def c13(run):
    run.build("checked-fast", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked-fast"), sh.d("release")]
        def expect(d, kind, reqs, infos):
            """reqs: (op args..., signature last) with the oracle's verdict"""
            for r, (valid, w, key, info) in zip(d.batch(reqs), infos):
                sh.saw("%s: %s" % (kind, w), key)
                if r.k == "P": sh.bad("verification panics (%s)" % w, d, reply=r, **info)
                elif r.ok and r.f[0] == "true":
                    sh.counts["answered true, mathematically valid"] += valid
                    if not valid: sh.bad("verification accepts what the scheme rejects (%s)" % w, d, **info)
                elif w == "unsupported length" and r.ok: sh.bad("a signature of unsupported length is not refused with an error", d, reply=r, **info)
        for net in NETS:      # a good signature cut and continued to every length
            d = rng.choice(D); data = kdata(rng, net); p = gen.path(rng, net); msg = gen.message(rng); r = d.call("f_sign", net, hx(data), csv(p), hx(msg))
            if not r.ok: continue
            s = r.b(0); lf = [b for n in range(0, 420) if n not in ((64,) if net == ADA else (64, 65)) for b in [(s + rng.choice([bytes(420), s * 7, gen.rbytes(rng, 420)]))[:n]]]
            expect(d, {BTC: "BTC", ETH: "ETH", ADA: "ADA"}[net], [("f_verify", net, hx(data), csv(p), hx(msg), hx(x)) for x in lf], [(False, "unsupported length", (net, len(x), x), {"network": hex(net), "signature": x, "message": msg, "path": p, "key": data}) for x in lf])
        it = 0
        while sh.more():
            d = rng.choice(D); net = NETS[it % 3]; it += 1
            data = kdata(rng, net); p = gen.path(rng, net); nd = wallet.node(net, data, p); msg = gen.message(rng)
            rs = d.batch([("f_sign", net, hx(data), csv(p), hx(m)) for m in (msg, msg + b"x")])
            if not all(r.ok for r in rs): sh.counts["signing failed"] += 1; continue
            s, other = rs[0].b(0), rs[1].b(0)
            if net != ADA and rng.randrange(2): s, other = s[:64], other[:64]
            base = ("f_verify", net, hx(data), csv(p)); nn = net_name(net)
            inf = lambda **k: dict(dict(network=hex(net), data=data, path=[hex(x) for x in p], message=msg, original=s), **k)
            ok = lambda sg, m=msg, n=nd: wallet.sig_ok(net, n, m, sg)
            ch = [(w, c) for w, c in sig_changes(rng, net, s, other) if c != s]
            expect(d, nn, [base + (hx(msg), hx(c)) for w, c in ch], [(ok(c), w, (data, tuple(p), msg, c), inf(signature=c)) for w, c in ch])
            mc = msg_changes(rng, msg)
            if len(msg) > 1500: mc = rng.sample(mc, 5)
            expect(d, nn, [base + (hx(m), hx(s)) for m in mc], [(ok(s, m), "changed message", (data, tuple(p), m, s), inf(verified_message=m)) for m in mc])
            # other path, other wallet
            oth = []
            for _ in range(6):
                q = list(p); j = rng.randrange(6)
                if j == 0: q = gen.path(rng, net)
                elif j == 1: q[2] = H | (q[2] + 1) & (H - 1)
                elif j == 2: q[3] ^= 1
                elif j == 3: q[4] = (q[4] + 1) & (H - 1)
                elif j == 4: q[2], q[4] = q[4] | H, q[2] & (H - 1)
                elif net == BTC: q[0] = rng.choice([44, 49, 84]) + rng.choice([0, H])
                if q != p: oth.append((data, q, "other path"))
            oth.append((kdata(rng, net), p, "other wallet"))
            if net != ADA:
                c = bytearray(data[:73]); c[9 + rng.randrange(64)] ^= 1; c = bytes(c)
                b2 = secp.blob(c[0], c[1:5], int.from_bytes(c[5:9], "big"), c[9:41], c[41:])
            else:
                c = bytearray(data); c[rng.choice([1, 5, 64, 95])] ^= 1; b2 = bytes(c)
            if (secp.parse(b2) if net != ADA else ed.valid(b2)): oth.append((b2, p, "other wallet"))
            expect(d, nn, [("f_verify", net, hx(dt), csv(q), hx(msg), hx(s)) for dt, q, w in oth], [(ok(s, msg, wallet.node(net, dt, q)), w, (dt, tuple(q), msg, s), inf(verified_data=dt, verified_path=q)) for dt, q, w in oth])
            # other network
            for n2 in NETS:
                if n2 == net: continue
                d2 = data if (n2 == ADA) == (net == ADA) else kdata(rng, n2); q = gen.path(rng, n2); q[2:] = p[2:]; x = wallet.node(n2, d2, q)
                for sg in (s, s[:64]):
                    expect(d, nn, [("f_verify", n2, hx(d2), csv(q), hx(msg), hx(sg))], [(wallet.sig_ok(n2, x, msg, sg), "other network", (d2, n2, tuple(q), msg, sg), inf(verified_network=hex(n2)))])
            # unsupported lengths
            good = {64, 65} if net != ADA else {64}
            ls = [x for x in (range(0, 131) if it % 8 == 0 else rng.sample(range(0, 300), 8) + [63, 66]) if x not in good] + [65] * (net == ADA)
            lf = [((s + bytes(300))[:x] if rng.randrange(2) else (s * 6)[:x]) for x in ls]
            expect(d, nn, [base + (hx(msg), hx(x)) for x in lf], [(False, "unsupported length", (net, len(x), x), inf(signature=x)) for x in lf])
            # through a keychain: answers are bound to network and path there too
            if it % 4 == 0:
                ks = {x: kdata(rng, x) for x in NETS}; ks[net] = data
                if rng.randrange(2): ks[ETH] = ks[BTC]
                kc = d.call("kc_of", ",".join("%d:%s" % (x, hx(v)) for x, v in ks.items())); reqs, infos = [], []
                sg0 = d.call("sign", kc.f[0], net, csv(p), hx(msg)).b(0) if kc.ok else s
                for n2 in NETS:
                    for sg in (sg0, sg0[:64], sg0[:63] + bytes([sg0[63] ^ 1]) + sg0[64:]):
                        for q in ([p] if n2 == net else []) + [gen.path(rng, n2)[:2] + p[2:]]:
                            if not wallet.valid_path(n2, q): continue
                            reqs.append(("verify", kc.f[0], n2, csv(q), hx(msg), hx(sg))); infos.append((wallet.sig_ok(n2, wallet.node(n2, ks[n2], q), msg, sg), "through a keychain", (data, n2, tuple(q), sg), inf(verified_network=hex(n2), verified_path=q, signature=sg)))
                if kc.ok: expect(d, "KC", reqs, infos); d.call("kc_free", kc.f[0])
            # standalone library with a signature crafted so that s (or r) fits above the order
            if it % 2 == 0:
                n = rng.randrange(1, N); r = secp.mul_g(n)[0] % N; v = rng.randrange(1, 1 << rng.choice([3, 64, 127])); z = int.from_bytes(keccak256(msg), "big")
                k = (v * n - z) * pow(r, -1, N) % N
                if k:
                    bl = secp.blob(0, bytes(4), 0, bytes(32), b32(k)); reqs, infos = [], []
                    for y in (v, v + N, N - v):
                        for t in (b"", b"\0", b"\1"):
                            sg = b32(r) + b32(y) + t; reqs.append(("x_verify", "data", hx(bl), "-", hx(msg), hx(sg))); infos.append((secp.verify_known(k, msg, sg), "s above the order" if y > N else "crafted", (bl, sg), inf(data=bl, signature=sg)))
                    expect(d, "standalone", reqs, infos)
    run.shards(f); run.shards(soak.keys(NETS, "verify"), budget=run.budget * .2); run.shards(session.run(["verify"], NETS), budget=run.budget * .3)
    for n in ("BTC", "ETH", "ADA"):
        for k in ("one byte", "changed message", "other path", "other wallet", "other network", "unsupported length"): run.need("%s: %s" % (n, k), 20)
    run.need("ADA: scalar plus a multiple of the order", 20); run.need("standalone: s above the order", 10); run.need("KC: through a keychain", 20)
# ------------------------------------------------------------------ C17
def c17(run):
    run.build("checked-fast", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked-fast"), sh.d("release")]
        def xroot(d, bl, want, w):
            """parse by the standalone library; want: exact restoration"""
            for b, r in zip(bl, d.batch([("x_chain", "data", hx(b), "-") for b in bl])):
                x = secp.parse(b) if want is None else want
                sh.saw("standalone: " + w + (": valid" if x else ": malformed"), b)
                if x:
                    if not r.ok or r.f[0] != step(x): sh.bad("serialised key is not restored exactly (%s)" % w, d, data=b, reply=r, want=step(x))
                elif r.k != "E": sh.bad("malformed key blob is not refused (%s)" % w, d, data=b, reply=r)
        def fac(d, net, bl, w):
            for b, r in zip(bl, d.batch([("f_open", net, hx(b)) for b in bl])):
                x = ed.valid(b) if net == ADA else secp.parse(b) is not None
                if net != ADA and x and b[0] > 253: continue     # cannot be derived from any more
                sh.saw("factory %s: %s: %s" % (net_name(net), w, "valid" if x else "malformed"), (net, b))
                if (x and (not r.ok or r.f[0] != str(net))) or (not x and r.k != "E"): sh.bad("key factory: blob must be %s (%s)" % ("accepted" if x else "refused with an error", w), d, network=hex(net), data=b, reply=r)
        it = 0
        # Cardano: all values of the clamped bytes
        base = bytearray(ed.master_data(gen.seed64(rng)))
        for i, pos in enumerate((0, 31)):
            if sh.mine(i):
                l = []
                for v in range(256): c = bytearray(base); c[pos] = v; l.append(bytes(c))
                fac(D[i], ADA, l, "clamped byte %d" % pos)
        if sh.mine(2):
            l = []
            for v in range(0, 256, 1):
                for u in (0, 1, 7, 8, 0xf8, 0xff): c = bytearray(base); c[0] = u; c[31] = v; l.append(bytes(c))
            fac(D[0], ADA, l, "both clamped bytes")
        for n in range(0, 201):
            if sh.mine(n):
                d = D[n // 8 % 2]
                b = (secp_data(rng) * 4)[:n]; b2 = gen.rbytes(rng, n); b3 = (ada_data(rng) * 4)[:n]
                l = [b, b2, b3, (secp_data(rng) + bytes(200))[:n]]
                xroot(d, l, None, "length"); [fac(d, x, l, "length") for x in NETS]
        for i, k in enumerate([0, N, N + 1, N - 1, 1, 2**256 - 1, 2**255, N + 2**64, N - 2]):
            if not sh.mine(i): continue
            for dep in (0, 1, 253):
                b = secp.blob(dep, b"\0\1\2\3", 9, gen.rbytes(rng, 32), b32(k))
                for d in D: xroot(d, [b], None, "secret at the limits"); fac(d, BTC, [b], "secret at the limits"); fac(d, ETH, [b], "secret at the limits")
        for dep in range(256):
            if sh.mine(dep): b = secp.blob(dep, gen.rbytes(rng, 4), rng.getrandbits(32), gen.rbytes(rng, 32), b32(secp_k(rng))); xroot(D[dep // 8 % 2], [b], secp.parse(b), "depth")
        while sh.more():
            d = rng.choice(D); it += 1
            # parse(serialise(x)) for derived keys
            b = rng.choice([secp_data(rng), secp.master(gen.seed64(rng)).ser()]); pth = [gen.index(rng) for _ in range(rng.randrange(5))]
            r = d.call("x_chain", "data", hx(b), csv(pth))
            if r.ok:
                from ..core import unhx
                l = [unhx(x.split(":")[0]) for x in r.f]
                for blob, stp, q in zip(l, r.f, d.batch([("x_chain", "data", hx(x), "-") for x in l])):
                    sh.saw("round trip of a derived key", blob)
                    if not q.ok or q.f[0] != stp: sh.bad("serialised key is not restored exactly", d, data=blob, reply=q, want=stp)
            # every byte changed
            l = []
            for i in range(77):
                c = bytearray(b); c[i] ^= 1 << rng.randrange(8) if rng.randrange(2) else rng.randrange(1, 256); l.append(bytes(c))
            c = bytearray(b); c[73:] = bytes(4); l.append(bytes(c))
            c = bytearray(b); c[73:] = hashlib.sha256(b[:73]).digest()[:4]; l.append(bytes(c))           # a single hash
            c = bytearray(b); i, j = rng.sample(range(73), 2); c[i], c[j] = c[j], c[i]; l.append(bytes(c))
            k = rng.randrange(3)
            if k == 0: xroot(d, l, None, "changed byte")
            else: fac(d, [BTC, ETH][k - 1], l, "changed byte")
            # factories accept their own data
            net = rng.choice(NETS); r = d.call("f_data", net, hx(gen.seed64(rng))); sh.saw("own data", (net, r.f[0]))
            q = d.call("f_open", net, r.f[0]) if r.ok else r
            if not q.ok: sh.bad("key factory refuses the key data it produced", d, network=hex(net), reply=q)
            a = ada_data(rng); l = [a]
            for _ in range(12): c = bytearray(a); c[rng.choice([0, 31, rng.randrange(96)])] ^= rng.randrange(1, 256); l.append(bytes(c))
            fac(d, ADA, l, "changed byte")
            # wallets holding malformed key data for a supported network
            if it % 3 == 0:
                d = D[0]; pw = gen.password(rng); itn = getattr(sh, "itn", None) or wallet.iterations(d) or S.FAST_ITER; sh.itn = itn
                nets = sorted(rng.sample(NETS, rng.randrange(1, 4))); badn = rng.choice(nets); keys = {n: wallet.key_data(n, gen.seed64(rng)) for n in nets}
                g = keys[badn]; k = rng.randrange(6)
                if k == 0: m = g[:-1]
                elif k == 1: m = g + b"\0"
                elif k == 2: m = b""
                elif k == 3: c = bytearray(g); c[rng.choice([0, 31]) if badn == ADA else rng.randrange(77)] ^= 0x20 | (4 if badn == ADA else 0); m = bytes(c)
                elif k == 4: m = wallet.key_data(BTC if badn == ADA else ADA, gen.seed64(rng))
                else: m = secp.blob(0, bytes(4), 0, bytes(32), b32(rng.choice([0, N, 2**256 - 1]))) if badn != ADA else bytes(96)
                keys[badn] = m
                isbad = not (ed.valid(m) if badn == ADA else secp.parse(m))
                blob = S.seal(wallet.encode(wallet.W(gen.seed64(rng), keys=keys), rng.choice([2]), rng), pw.encode(), gen.rbytes(rng, 32), gen.rbytes(rng, 12), itn)
                for ms in ([badn], NETS, [n for n in NETS if n != badn]):
                    mg = d.call("mgr_with", csv(ms)); r = d.call("open", mg.f[0], hx(blob), hx(pw)); d.call("mgr_free", mg.f[0])
                    sup = badn in ms; sh.saw("wallet with %s key data of a %s network" % ("malformed" if isbad else "odd but valid", "supported" if sup else "unsupported"), (blob[:44], tuple(ms)))
                    if isbad and sup:
                        if r.err != "KeyError" or str(badn) not in r.dbg(): sh.bad("a wallet with malformed key data of a supported network must fail with a key error of that network", d, network=hex(badn), data=m, reply=r)
                    elif not r.ok: sh.bad("a wallet must open: the malformed key data is of an unsupported network", d, network=hex(badn), data=m, reply=r)
    run.shards(f)
    for k in ("round trip of a derived key", "own data", "wallet with malformed key data of a supported network", "wallet with malformed key data of a unsupported network", "standalone: changed byte: malformed", "factory ADA: changed byte: valid", "factory ADA: changed byte: malformed"): run.need(k, 30)
    run.need("standalone: depth: valid", 256); run.need("factory ADA: both clamped bytes: valid", 50)
