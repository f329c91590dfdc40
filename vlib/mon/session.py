"""Sessions: public keys, signatures and verifications in random order over two or three open keychains and
families of neighbouring paths and messages.  What one call leaves behind must not change the next one."""
from ..core import hx, csv
from ..oracle import secp
from .. import gen, wallet
from ..gen import BTC, ETH, ADA, NETS, H
def family(rng, net):
    """a path and its neighbours, accepted or not"""
    p = gen.path(rng, net); out = [p]
    def f(i, v): q = list(p); q[i] = v; out.append(q)
    f(3, p[3] ^ 1); f(4, (p[4] + 1) & (H - 1)); f(4, p[4] ^ 1 << rng.randrange(31)); f(2, p[2] ^ 1 << rng.randrange(31)); f(2, H | p[4]); f(4, p[2] & (H - 1))
    f(4, p[4] | H); f(3, rng.choice([2, H, H + 1, p[3] + 256, p[3] + 65536])); f(2, p[2] & (H - 1)); f(1, p[1] ^ rng.choice([1, H])); f(0, p[0] ^ rng.choice([1, H, 29, 120]))
    out.insert(rng.randrange(1, 5), [p[0], p[1], H | (p[4] & (H - 1)), p[3], p[2] & (H - 1)])
    return out
def run(kinds, nets=NETS, rounds=80):
    """kinds: what this check judges ("pk", "sign", "verify", "refusal"); the rest only happens"""
    def f(sh):
        from .keys import kdata, net_name
        rng = sh.rng; D = [sh.d("checked-fast"), sh.d("release")]
        while sh.more():
            d = rng.choice(D); chains = []; first = None
            for i in range(rng.choice([1, 2, 2, 3])):
                ks = {x: kdata(rng, x) for x in NETS}
                if rng.randrange(3) == 0: ks[ETH] = ks[BTC]
                if first and rng.randrange(3) == 0: x = rng.choice(NETS); ks[x] = first[x]
                first = first or ks
                r = d.call("kc_of", ",".join("%d:%s" % (x, hx(v)) for x, v in ks.items()))
                if not r.ok: sh.bad("valid key data refused", d, reply=r); return
                chains.append((r.f[0], ks))
            nn = rng.sample(nets, rng.randrange(1, len(nets) + 1)); fam = {}
            for x in nn:
                fam[x] = family(rng, x)
                if x != nn[0]:                      # the same numbers in another network
                    for q in fam[nn[0]][:4]: fam[x].append([44 + H, gen.COIN[x]] + q[2:])
            m = gen.message(rng)[:2000]; k = rng.randrange(0, len(m) + 1); L = rng.choice([64, 128, 136, 200, 300])
            msgs = [m, m + b"\0", m[:k] + bytes([m[k] ^ 1]) + m[k + 1:] if k < len(m) else m + b"\1", b"", gen.rbytes(rng, L)]; msgs.append(msgs[4][:-1] + bytes([msgs[4][-1] ^ 1]))
            z = bytearray(msgs[4]); i, j = rng.sample(range(L), 2); z[i], z[j] = z[j], z[i]; msgs += [bytes(z), msgs[4][::-1]]; z = bytearray(msgs[4]); z[i] ^= 1; z[j] ^= 1; msgs.append(bytes(z))   # same sum, same exclusive or
            nodes, sigs, made = {}, [], {}
            def nd(c, x, q):
                key = (chains[c][1][x], x, tuple(q))
                if key not in nodes: nodes[key] = wallet.node(x, chains[c][1][x], q)
                return nodes[key]
            story = []; last = None
            for _ in range(rounds):
                if not sh.more(): break
                op = rng.choice(["pk", "sign", "sign", "verify", "verify", "verify"]); c = rng.randrange(len(chains)); x = rng.choice(nn); q = rng.choice(fam[x][:4]) if rng.randrange(2) else rng.choice(fam[x]); msg = rng.choice(msgs)
                if last and rng.randrange(3) == 0: c, x, q, msg = last       # the same again, or one thing different
                if last and rng.randrange(2) == 0:
                    c, x, q, msg = last; j = rng.randrange(4)
                    if j == 0: c = rng.randrange(len(chains))
                    elif j == 1: q = rng.choice(fam[x])
                    elif j == 2: msg = rng.choice(msgs)
                    else:
                        x = rng.choice(nn); q = [44 + H, gen.COIN[x]] + q[2:]
                last = (c, x, q, msg); acc = wallet.valid_path(x, q); kc, ks = chains[c]
                sg = None
                if op == "verify":
                    own = [s for s in sigs if s[0] == x]
                    if not own: op = "sign"
                    else:
                        _, sc, sq, sm, sg = rng.choice(own[-6:])
                        if rng.randrange(2): q = sq if rng.randrange(2) else q; msg = sm if rng.randrange(3) else msg; c = sc if rng.randrange(2) else c; kc, ks = chains[c]; acc = wallet.valid_path(x, q); last = (c, x, q, msg)
                        if x != ADA and rng.randrange(3) == 0: sg = sg[:64]
                a = {"pk": (), "sign": (hx(msg),), "verify": (hx(msg), hx(sg or b""))}[op]
                r = d.call(op, kc, x, csv(q), *a); story.append("%s chain %d %s %s %s -> %s" % (op, c, net_name(x), "/".join(map(str, q)), msg[:8].hex(), r.k + ("" if not r.ok else " " + r.f[0][:16])))
                info = dict(network=hex(x), data=ks[x], path=[hex(v) for v in q], message=msg, reply=r, signature=sg or b"", story=" ; ".join(story[-12:]))
                key = (op, ks[x], x, tuple(q), msg, sg)
                if not acc:
                    if "refusal" in kinds:
                        sh.saw("session: %s by a path outside the scheme" % op, key)
                        if r.k != "E" or "InvalidKeyPath" not in r.dbg(): sh.bad("a path outside the scheme is not refused with a key-path error", d, **info)
                    continue
                if op == "pk":
                    if op not in kinds: continue
                    want = wallet.pub(x, ks[x], q); sh.saw("session: public key", key)
                    if not r.ok or r.b(0) != want: sh.bad("public key differs from the standard after other calls", d, want=want, **info)
                elif op == "sign":
                    s = r.b(0) if r.ok else b""; good = False
                    if "sign" in kinds or r.ok and (msg, x) not in made: 
                        n = nd(c, x, q); good = r.ok and (s == n.sign(msg) if x == ADA else len(s) == 65 and secp.verify_known(n.k, msg, s))
                    if "sign" in kinds:
                        sh.saw("session: signature", key)
                        if not good: sh.bad("wrong signature after other calls", d, **info)
                        elif made.setdefault(key, s) != s: sh.bad("signing is not deterministic", d, first=made[key], **info)
                    if good: sigs.append((x, c, q, msg, s))
                elif "verify" in kinds:
                    want = wallet.sig_ok(x, nd(c, x, q), msg, sg); sh.saw("session: verification, %s" % ("genuine" if want else "of something else"), key)
                    if not r.ok or (r.f[0] == "true") != want: sh.bad("verification after other calls answers wrongly (should be %s)" % want, d, **info)
                    elif want: sh.counts["session: own signatures accepted"] += 1
            d.batch([("kc_free", kc) for kc, _ in chains])
    return f
