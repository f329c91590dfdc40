"""C07 (entropy <-> phrase), C08 (phrase -> seed, lookups), C09 (managers and phrases), C22 (hex, 11-bit)."""
import itertools, unicodedata
from ..core import hx, csv
from ..oracle import bip39, hexbits
from .. import gen, wallet
from . import soak
from ..gen import BTC, ETH, ADA, NETS
SZ = sorted(bip39.SIZES)
def entropies(rng, nbytes):
    k = rng.randrange(10)
    if k == 0: return bytes(nbytes)
    if k == 1: return b"\xff" * nbytes
    if k == 2: return (1 << rng.randrange(8 * nbytes)).to_bytes(nbytes, "big")
    if k == 3: return ((1 << 8 * nbytes) - 1 ^ 1 << rng.randrange(8 * nbytes)).to_bytes(nbytes, "big")
    if k == 4: return bytes([rng.choice([0, 0x80, 0x7f, 0xff])]) * nbytes
    return gen.rbytes(rng, nbytes)
# ------------------------------------------------------------------ C07
def c07(run):
    run.build("checked", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked"), sh.d("release")]
        def conv(d, e, lang):
            """one entropy through phrase and back"""
            r = d.call("ent_to_mn", lang, hx(e)); idx = bip39.indexes(e); ph = bip39.phrase(e, lang); w = len(idx)
            sh.saw("entropy to phrase %d words %s" % (w, bip39.LANGS[lang]), (e, lang), ph)
            cs = idx[-1] & ((1 << len(e) // 4) - 1)
            want = [hx(ph), csv(idx), str(w), str(w), str(cs)]
            if not r.ok or r.f[:5] != want: return sh.bad("phrase of an entropy differs from BIP-39", d, entropy=e, reply=r, want=want, language=bip39.LANGS[lang])
            if r.f[7] != hx(e) or r.b(5).decode() != e.hex(): sh.bad("entropy does not keep its bytes", d, entropy=e, reply=r)
            q = d.call("mn_parse", lang, r.f[0])
            if not q.ok or q.f[0] != csv(idx) or q.f[1] != hx(e) or q.f[2] != hx(ph) or q.f[3] != hx(ph) or q.f[4] != str(w):
                sh.bad("phrase does not give the same entropy back", d, entropy=e, reply=q, phrase=ph)
        def recover(d, seqs):
            for ix, r in zip(seqs, d.batch([("idx_to_ent", csv(ix)) for ix in seqs])):
                e = bip39.entropy(ix)
                kind = "recover: " + ("valid" if e is not None else "count" if len(ix) not in bip39.SIZES else "out of bound" if max(ix) > 2047 else "checksum")
                sh.saw(kind, tuple(ix), ix)
                if (e is None and r.k != "E") or (e is not None and (not r.ok or r.b(0) != e)):
                    sh.bad("recovering entropy from a word sequence: " + ("must be refused" if e is None else "must succeed"), d, indexes=ix, reply=r, want=e)
        # every size x language x structured entropies
        for i, (w, lang) in enumerate(itertools.product(SZ, range(8))):
            if not sh.mine(i): continue
            n = bip39.SIZES[w] // 8; d = D[i // 8 % 2]
            for e in [bytes(n), b"\xff" * n, b"\x7f" * n, b"\x80" * n, bytes(range(n))] + [(1 << b).to_bytes(n, "big") for b in range(0, 8 * n, 1 if sh.thorough else 5)]: conv(d, e, lang)
        # every last word of a phrase, each size
        for i, w in enumerate(SZ * 4):
            if not sh.mine(i): continue
            base = bip39.indexes(entropies(rng, bip39.SIZES[w] // 8))[:-1]
            recover(D[i % 2], [base + [x] for x in range(2048)])
            sh.counts["all 2048 last words"] += 1
        # every count, every position out of bound
        for n in range(0, 40):
            if sh.mine(n): recover(D[n % 2], [[rng.randrange(2048) for _ in range(n)] for _ in range(20)] + [[0] * n])
        for i, w in enumerate(SZ):       # counts that differ from a good one by a multiple of 256 or 65536
            for j, n in enumerate((w + 128, w + 256, w + 512, w + 2048, w + 32768, w + 65536, w + 131072)):
                if sh.mine(i + j): ix = bip39.indexes(gen.rbytes(rng, bip39.SIZES[w] // 8)); recover(D[j % 2], [ix + [0] * (n - w), [0] * (n - w) + ix] + ([(ix * (n // w + 1))[:n]] if n < 60000 else []))
        for i, w in enumerate(SZ):
            if not sh.mine(i): continue
            seqs = []
            for pos in range(w):
                for v in (2048, 2049, 4095, 4096, 0x8000, 65535):
                    ix = bip39.indexes(entropies(rng, bip39.SIZES[w] // 8)); ix[pos] = v if v in (4096,) else (ix[pos] | v if v in (0x8000,) else v); seqs.append(ix)
                    ix2 = bip39.indexes(entropies(rng, bip39.SIZES[w] // 8)); ix2[pos] += 2048; seqs.append(ix2)
            recover(D[i % 2], seqs)
        if sh.i == 0:
            for d in D:
                for n in list(range(0, 300)) + [2**31, 2**32 - 1]:
                    sh.saw("type lookups", n)
                    r = d.call("type_words", n); want = n in bip39.SIZES
                    if r.ok != want or (want and r.f != [str(n), str(bip39.SIZES[n]), str(n // 3), str(n)]): sh.bad("type for a word count is wrong", d, words=n, reply=r)
                    r = d.call("type_bits", n); want = n in bip39.BITS
                    if r.ok != want or (want and r.f != [str(bip39.BITS[n]), str(n), str(n // 32)]): sh.bad("type for an entropy size is wrong", d, bits=n, reply=r)
                    r = d.call("type_str", hx(str(n)))
                    if r.ok != (n in bip39.SIZES) or (r.ok and r.f[0] != str(n)): sh.bad("type from text is wrong", d, text=n, reply=r)
        while sh.more():
            d = rng.choice(D); w = rng.choice(SZ); n = bip39.SIZES[w] // 8
            conv(d, entropies(rng, n), rng.randrange(8))
            seqs = []
            for _ in range(20):
                ix = bip39.indexes(entropies(rng, n)); k = rng.randrange(8)
                if k == 0: ix[rng.randrange(len(ix))] = rng.randrange(2048)
                elif k == 1: i, j = rng.sample(range(len(ix)), 2); ix[i], ix[j] = ix[j], ix[i]
                elif k == 2: ix = ix[1:] + ix[:1]
                elif k == 3: ix = ix + ix[:3]
                elif k == 4: ix = ix[:-3]
                elif k == 5: ix[-1] ^= 1 << rng.randrange(11)
                elif k == 6: ix = [rng.randrange(2048) for _ in ix]
                seqs.append(ix)
            recover(d, seqs)
            m = rng.randrange(0, 50)
            if m * 8 not in bip39.BITS:
                r = d.call("ent_to_mn", 0, hx(gen.rbytes(rng, m))); sh.saw("entropy of unsupported size", m)
                if r.k != "E": sh.bad("entropy of an unsupported size is not refused", d, size=m, reply=r)
    run.shards(f); run.shards(soak.c07, n=4, budget=run.budget * .15)
    run.need("all 2048 last words", 6); run.need("recover: valid", 100); run.need("recover: checksum", 100); run.need("recover: out of bound", 100); run.need("recover: count", 100)
# ------------------------------------------------------------------ C08
SPACES = ["  ", "\t", "\n", "\r\n", "\u3000", "\u00a0", ",", "", " \u200b", "-", "\0", " ,", "\u2003", "_"]
def bad_phrase(rng, words, lang):
    """(what, text) derived from a good phrase, maybe still good (the oracle decides)"""
    ws = gen.phrase(rng, words, lang).split(" "); k = rng.randrange(20); i = rng.randrange(len(ws)); l2 = rng.randrange(8)
    if k == 0: return "other separator", rng.choice(SPACES).join(ws)
    if k == 1: return "one other separator", " ".join(ws[:i]) + rng.choice(SPACES) + " ".join(ws[i:])
    if k == 2: return "leading", rng.choice([" ", "\n", "\ufeff", "\u3000", "\0"]) + " ".join(ws)
    if k == 3: return "trailing", " ".join(ws) + rng.choice([" ", "\n", "\u3000", "\0", "\r"])
    if k == 4: ws[i] = rng.choice(bip39.WORDS[l2]); return "word of a language", " ".join(ws)
    if k == 5: ws[i] = ws[i].upper(); return "upper case", " ".join(ws)
    if k == 6: ws[i] = ws[i].capitalize(); return "capital", " ".join(ws)
    if k == 7: return "normal form", unicodedata.normalize(rng.choice(["NFC", "NFD", "NFKC", "NFKD"]), " ".join(ws))
    if k == 8: ws[i] = unicodedata.normalize(rng.choice(["NFC", "NFKC"]), ws[i]); return "normal form of a word", " ".join(ws)
    if k == 9: ws[i] = ws[i][:4]; return "shortened word", " ".join(ws)
    if k == 10: ws[i] = ws[i][:-1]; return "cut word", " ".join(ws)
    if k == 11: ws[i] += rng.choice("saé\u0301"); return "extended word", " ".join(ws)
    if k == 12: return "dropped words", " ".join(ws[:rng.randrange(len(ws))])
    if k == 13: return "added words", " ".join(ws + [rng.choice(bip39.WORDS[lang]) for _ in range(rng.randrange(1, 5))])
    if k == 14: return "whole other language", gen.phrase(rng, words, l2)
    if k == 15: ws[i] = "".join(c for c in unicodedata.normalize("NFD", ws[i]) if not unicodedata.combining(c)); return "without accents", " ".join(ws)
    if k == 16: n = rng.choice([words * 2, words * 10, words + 256, words + 256 * rng.randrange(1, 5), rng.randrange(600), 255, 256, 257]); return "hundreds of words", " ".join((ws * (n // words + 1))[:n])
    if k == 18: # within a word, where splitting and messages meet it
        j = rng.randrange(len(ws[i]) + 1); ws[i] = ws[i][:j] + "".join(rng.choice(gen.ALPH) for _ in range(rng.randrange(1, 4))) + ws[i][j:]; return "odd character in a word", " ".join(ws)
    return "text", rng.choice(["", " ", "a", "\0", "word " * 12, "12", " ".join(["0"] * 12), " ".join(map(str, range(12))), gen.password(rng)])
def c08(run):
    run.build("checked", "release-fast")
    def lookups(sh):
        rng = sh.rng; d = sh.d("checked" if sh.i % 2 else "release-fast"); l = sh.i % 8
        W, IX = bip39.WORDS[l], bip39.INDEX[l]
        for op, reqs, want in [("idx_word", range(2048), lambda i: hx(W[i])), ("idx_to_word", range(2048), lambda i: hx(W[i]))]:
            for i, r in zip(reqs, d.batch([(op, l, i) for i in reqs])):
                sh.saw(op, (l, i))
                if not r.ok or r.f[0] != want(i): sh.bad("word of an index is not the standard list's", d, language=bip39.LANGS[l], index=i, reply=r, want=W[i])
        r = d.call("dict_name", l); nm = ["english", "french", "japanese", "korean", "chinese-simplified", "chinese-traditional", "italian", "spanish"][l]; sh.saw("name of a word list", l)
        if r.f[:2] != [hx(nm), hx(" ")]: sh.bad("name or separator of a standard word list", d, language=bip39.LANGS[l], reply=r, want=nm)
        for op in ("word_idx", "word_idx_kc"):
            for i, r in zip(range(2048), d.batch([(op, l, hx(w)) for w in W])):
                sh.saw(op, (l, i))
                if not r.ok or r.f[0] != str(i): sh.bad("index of a word is not the standard list's", d, language=bip39.LANGS[l], word=W[i], reply=r, want=i, via=op)
        for lo in range(2048, 65536, 8192):
            hi = min(lo + 8192, 65536)
            for i, r in zip(range(lo, hi), d.batch([("idx_word", l, i) for i in range(lo, hi)])):
                if r.k != "E": sh.bad("word of an index above 2047 is not refused", d, index=i, reply=r)
            sh.saw("indexes above 2047 refused", (l, lo)); sh.evals += hi - lo - 1
        for i, r in zip(range(0, 65536, 7), d.batch([("idx_new", i) for i in range(0, 65536, 7)])):
            if r.ok != (i < 2048) or (r.ok and r.f[0] != str(i)): sh.bad("index construction", d, index=i, reply=r)
        sh.saw("index construction", l)
        # numbers of words, far beyond 24 as well
        sizes = [n for n in range(600)] + [65536 + n for n in (0, 9, 12, 15, 18, 21, 24)]
        for n in (sizes if l == sh.n - 1 or l == sh.i else []):
            ix = [rng.randrange(2048)] * n; t = " ".join(W[i] for i in ix)
            r, q = d.call("mn_parse", l, hx(t)), d.call("idx_to_ent", csv(ix)); sh.saw("number of words", n)
            if r.ok != (n in SZ): sh.bad("phrase of %d words is %s" % (n, "accepted" if r.ok else "refused"), d, language=bip39.LANGS[l], reply=r)
            if n not in SZ and q.k != "E": sh.bad("indexes of %d words are accepted" % n, d, reply=q)
        # near misses of every word
        near = set()
        for w in W:
            near |= {w.upper(), w.capitalize(), w[:-1], w[1:], w + " ", " " + w, w + "s", w + "\0", w[:4], w[::-1], unicodedata.normalize("NFC", w), unicodedata.normalize("NFKC", w),
                     "".join(c for c in unicodedata.normalize("NFD", w) if not unicodedata.combining(c)), w[:3], w + w[-1]}
        for m in range(8): near |= set(rng.sample(bip39.WORDS[m], 400))
        near |= {"", " ", "\0", "\n", "0", "é", "\u0301"}
        near = sorted(near)
        for w, r in zip(near, d.batch([(("word_idx", "word_idx_kc")[len(w) & 1], l, hx(w)) for w in near])):
            want = IX.get(w); sh.saw("lookup of other words", (l, w))
            if want is None and r.k != "E" or want is not None and (not r.ok or r.f[0] != str(want)): sh.bad("lookup of a text: " + ("must be refused" if want is None else "wrong index"), d, language=bip39.LANGS[l], text=repr(w), reply=r, want=want)
    def phrases(sh):
        rng = sh.rng; d = sh.d("checked"); f = sh.d("release-fast")
        it = wallet.iterations(f)
        mg = {9: f.call("mgr_with", ADA).f[0], 12: f.call("mgr_new").f[0]}
        for b in (160, 192, 224, 256): mg[b // 32 * 3] = f.call("mgr_custom", "%d:512:5" % b).f[0]
        k = 0
        while sh.more():
            k += 1; lang = rng.randrange(8); words = rng.choice(SZ); dd = (d, f)[k % 2]
            what, t = ("good", gen.phrase(rng, words, lang)) if rng.randrange(3) == 0 else bad_phrase(rng, words, lang)
            idx = bip39.parse(t, lang)
            pp = rng.choice([b"", gen.data(rng, 300), gen.password(rng).encode(), b"TREZOR"])
            r = dd.call("mn_parse", lang, hx(t))
            sh.saw("phrase %s: %s" % ("accepted" if idx else "refused", what), (lang, t), t[:100])
            if idx is None:
                if r.k != "E": sh.bad("phrase must be refused (%s)" % what, dd, phrase=repr(t), language=bip39.LANGS[lang], reply=r)
            elif not r.ok or r.f[0] != csv(idx): sh.bad("phrase must be accepted (%s)" % what, dd, phrase=repr(t), language=bip39.LANGS[lang], reply=r, want=idx)
            r = dd.call("seed", lang, hx(t), hx(pp))
            if idx is None:
                if r.k != "E": sh.bad("seed of a phrase which must be refused (%s)" % what, dd, phrase=repr(t), reply=r)
            else:
                want = bip39.seed(t, pp); sh.saw("seed with passphrase", (t, pp))
                if not r.ok or r.b(0) != want: sh.bad("seed differs from BIP-39", dd, phrase=repr(t), passphrase=pp, reply=r, want=want)
                if k % 4 == 0:                   # right after it, the same words in another order and another passphrase of the same letters
                    sp = bip39.SEP[lang] if hasattr(bip39, "SEP") else " "; ws = t.split(sp); q2 = pp[::-1] if rng.randrange(2) else pp[1:] + pp[:1]
                    for _ in range(200):
                        rng.shuffle(ws); t2 = sp.join(ws)
                        if bip39.parse(t2, lang): break
                    else: t2 = t
                    for a, b in ((t2, pp), (t, q2)):
                        r = dd.call("seed", lang, hx(a), hx(b)); w2 = bip39.seed(a, b); sh.saw("seed of the same words or letters in another order", (a, b))
                        if not r.ok or r.b(0) != w2: sh.bad("seed differs from BIP-39 after that of the same words or letters in another order", dd, phrase=repr(a), passphrase=b, before=repr((t, pp)), reply=r, want=w2)
            if k % 2 == 0:                       # equality of seeds
                x = gen.rbytes(rng, 64); y = bytearray(x); j = rng.randrange(5); i = rng.randrange(64)
                if j == 1: y[i] ^= 1 << rng.randrange(8)
                elif j == 2: y[:32] = gen.rbytes(rng, 32)
                elif j == 3: y[i:] = bytes(64 - i)
                elif j == 4: y.reverse()
                y = bytes(y); r = dd.call("seed_eq", hx(x), hx(y)); e = str(x == y).lower(); sh.saw("seeds compared: " + e, (x, y))
                if not r.ok or r.f != [e, e, str(x != y).lower(), "true", hx(x), hx(y), hx(y)]: sh.bad("comparison of seeds is not that of their bytes", dd, first=x, second=y, reply=r)
            # the wallet manager's route
            if k % 3 == 0 and it:
                w = rng.choice([words, words, rng.choice(SZ)]); r = f.call("data_mn", mg[w], hx(t), hx("pw"), lang)
                ok = idx is not None and len(idx) == w; sh.saw("manager %s: %s" % ("accepts" if ok else "refuses", what), (lang, t, w))
                if not ok:
                    if r.err != "MnemonicError": sh.bad("manager must refuse the phrase (%s)" % what, f, phrase=repr(t), language=bip39.LANGS[lang], reply=r)
                    continue
                if not r.ok: sh.bad("manager must accept the phrase", f, phrase=repr(t), language=bip39.LANGS[lang], reply=r); continue
                try: x = wallet.open_blob(r.b(0), "pw", it)
                except wallet.Bad: x = None
                sd = bip39.seed(t)
                if x is None: sh.counts["wallet not decodable (C06)"] += 1
                elif any(v != (wallet.custom_data(5, sd) if n == 5 else wallet.key_data(n, sd)) for n, v in x[1].keys.items()):
                    sh.bad("wallet of a phrase does not use its BIP-39 seed", f, phrase=repr(t), language=bip39.LANGS[lang], got=x[1])
    run.shards(lookups)
    run.shards(phrases)
    run.extra["exhaustive_part"] = "8 x 2048 lookups both ways and all 65536 indexes"
    for k in ("phrase accepted: good", "seed with passphrase", "manager accepts: good", "lookup of other words", "indexes above 2047 refused", "phrase refused: one other separator", "phrase refused: word of a language"): run.need("seeds compared: true", 20); run.need("seeds compared: false", 20); run.need(k, 5)
# ------------------------------------------------------------------ C09
def c09(run):
    run.build("checked-fast", "release-fast")
    def f(sh):
        rng = sh.rng; k = 0
        def judge(d, mid, words, what, nlang=3):
            """generated phrases of a manager and its answer to phrases of every length"""
            for lang in rng.sample(range(-1, 8), nlang):
                r = d.call("gen_mn", mid, lang); l = max(lang, 0)
                if not r.ok: sh.bad("manager does not generate a phrase", d, manager=what, reply=r); continue
                t = r.b(0).decode(); idx = bip39.parse(t, l); sh.saw("generated phrase", t, (what, t))
                if idx is None or bip39.entropy(idx) is None: sh.bad("generated phrase is not checksum-valid in the requested language", d, manager=what, language=lang, phrase=t); continue
                if len(idx) != words: sh.bad("generated phrase has %d words, the smallest strength needs %d" % (len(idx), words), d, manager=what, phrase=t)
                pw = gen.password(rng); q = d.call("data_mn", mid, hx(t), hx(pw), lang); sh.saw("own phrase accepted", t)
                if not q.ok: sh.bad("manager refuses the phrase it generated", d, manager=what, phrase=t, reply=q); continue
                if sh.rng.randrange(4) == 0:
                    q = d.call("open", mid, hx(q.b(0)), hx(pw))
                    if not q.ok: sh.bad("wallet of the generated phrase does not open", d, manager=what, phrase=t, reply=q)
                    else: d.call("kc_free", q.f[0])
            for w in SZ:
                if w == words: continue
                l = rng.randrange(8); t = gen.phrase(rng, w, l); r = d.call("data_mn", mid, hx(t), hx("p"), l)
                sh.saw("other length refused", (what, w, t))
                want = "MnemonicToShort" if w < words else "MnemonicToLong"
                if r.err != "MnemonicError" or want not in r.dbg(): sh.bad("phrase of %d words is not refused as too %s by a manager of %d words" % (w, want[10:].lower(), words), d, manager=what, reply=r)
        def networks(d, mid, nets, what):
            for n in set(NETS) | set(nets) | {1, 5, 0x3c, 0x717, 0, 2**32 - 1, rng.getrandbits(32)}:
                r = d.call("mgr_has", mid, n); sh.saw("supported networks", (what, n))
                if r.f[0] != str(n in nets).lower() or r.f[1] != (str(n) if n in nets else "-1"): sh.bad("manager's networks are not the requested ones", d, manager=what, network=n, reply=r)
        def builtin(d, req):
            """with_networks(req): unknown networks, repeats and order"""
            nets = set(req) & set(NETS); r = d.call("mgr_with", csv(req)); what = "with_networks(%s)" % req; words = wallet.mgr_words(nets)
            sh.saw("manager " + ("created" if words else "refused"), tuple(req), what)
            if words is None:
                if r.err != "CantCalculateSeedSize": sh.bad("manager of no known network is not refused", d, manager=what, reply=r)
                return
            if not r.ok: return sh.bad("manager is not created", d, manager=what, reply=r)
            networks(d, r.f[0], nets, what); judge(d, r.f[0], words, what); d.call("mgr_free", r.f[0])
        def custom(d, fs):
            """with_factories of custom seed size ranges"""
            r = d.call("mgr_custom", ",".join(fs) or "-"); v = [tuple(map(int, x.split(":"))) for x in fs]
            v = [(wallet.MINBITS[n] + (n,)) if a == b == 0 and n in NETS else (a, b, n) for a, b, n in v]
            lo = max([a for a, b, n in v], default=0); hi = min([b for a, b, n in v], default=1 << 63); what = "ranges %s" % fs
            sh.saw("custom manager " + ("empty" if lo > hi else "one point" if lo == hi else "overlapping"), tuple(fs), what)
            if lo > hi or not v:
                if r.err != "CantCalculateSeedSize": sh.bad("manager whose ranges do not overlap is not refused", d, manager=what, reply=r)
                return
            if not r.ok: 
                if lo < hi and lo in bip39.BITS: sh.bad("manager whose ranges overlap is not created", d, manager=what, reply=r)
                return
            networks(d, r.f[0], {n for a, b, n in v}, what)
            smallest = min([b for b in bip39.BITS if b >= lo], default=None)
            if lo in bip39.BITS: judge(d, r.f[0], bip39.BITS[lo], what, 2)
            else:
                g = d.call("gen_mn", r.f[0], 0); sh.saw("range without a phrase size at its lower end", tuple(fs))
                if g.k == "P": sh.bad("panic", d, manager=what, reply=g)
                elif g.ok:
                    n = len(g.b(0).split(b" "))
                    if smallest is None or smallest > hi or n != bip39.BITS[smallest]: sh.bad("generated phrase does not have the smallest strength of the range", d, manager=what, reply=g)
            d.call("mgr_free", r.f[0])
        subs = [list(c) for n in range(4) for c in itertools.permutations(NETS, n)]
        for i, s in enumerate(subs):
            if sh.mine(i):
                for d in (sh.d("checked-fast"), sh.d("release-fast")): builtin(d, s)
        if sh.i == 0:
            for d in (sh.d("checked-fast"), sh.d("release-fast")):
                r = d.call("net_all"); sh.saw("all networks", None)
                if sorted(r.f[0].split(",")) != sorted(map(str, NETS)) or r.f[1] != csv([BTC, ETH, ADA]): sh.bad("known networks differ", d, reply=r)
                r = d.call("mgr_new")
                if not r.ok: sh.bad("default manager is not created", d, reply=r)
                else: networks(d, r.f[0], NETS, "new()"); judge(d, r.f[0], 12, "new()", 9)
        def wide(d):
            """many networks of the application, one of them, anywhere, with another range"""
            n = min(soak.many(rng, rng.choice([9, 17, 18, 33, 65, 129, 257, 300, 1025])), 5000); nets = rng.sample(range(1, 1 << 31), n)
            lo, hi = rng.choice([(256, 512), (192, 200), (160, 256), (128, 128), (32, 100), (224, 230)]); at = rng.choice([0, n - 1, n // 2, rng.randrange(n)])
            fs = ["96:300:%d" % x for x in nets]; fs[at] = "%d:%d:%d" % (lo, hi, nets[at]); fs += ["0:0:%d" % x for x in rng.sample(NETS, rng.choice([0, 0, 1]))]
            if rng.randrange(2): rng.shuffle(fs)
            sh.saw("manager of many networks", (n, lo, hi)); custom(d, fs)
        pts = [32, 64, 95, 96, 97, 127, 128, 129, 159, 160, 161, 191, 192, 223, 224, 255, 256, 257, 288, 320, 512, 100000]
        while sh.more():
            d = sh.d(rng.choice(["checked-fast", "release-fast"])); k += 1
            if k % 25 == 1: wide(d)
            elif k % 3 == 0:
                builtin(d, [rng.choice(NETS + [5, 0, 2**32 - 1, 0x3c, 0x717, rng.getrandbits(32)]) for _ in range(rng.randrange(0, 6))])
            else:
                fs = []
                for n in rng.sample([5, 7, 9, 11, 0x3c], rng.randrange(0, 4)):
                    a, b = rng.choice(pts), rng.choice(pts)
                    if rng.randrange(3): a, b = min(a, b), max(a, b)
                    if rng.randrange(4): a = rng.choice(list(bip39.BITS))
                    fs.append("%d:%d:%d" % (a, b, n))
                fs += ["0:0:%d" % n for n in rng.sample(NETS, rng.choice([0, 0, 1, 2]))]
                rng.shuffle(fs); custom(d, fs)
    run.shards(f)
    for k, n in (("generated phrase", 100), ("own phrase accepted", 100), ("other length refused", 100), ("custom manager empty", 10), ("manager of many networks", 5), ("custom manager overlapping", 10), ("manager refused", 2), ("supported networks", 100)): run.need(k, n)
# ------------------------------------------------------------------ C22
def c22(run):
    run.build("checked", "release")
    def f(sh):
        rng = sh.rng; D = [sh.d("checked"), sh.d("release")]
        def henc(d, b):
            r = d.call("hex_enc", hx(b)); sh.saw("hex encode", b)
            if not r.ok or r.b(0) != b.hex().encode(): return sh.bad("hex encoding is wrong", d, data=b, reply=r)
            r = d.call("hex_dec", r.f[0]); sh.saw("hex round trip", b)
            if not r.ok or r.b(0) != b: sh.bad("hex does not round-trip", d, data=b, reply=r)
        def hdec(d, t):
            x = hexbits.decode(t)
            if x is None: return                                # odd number of digits: unspecified
            r = d.call("hex_dec", hx(t)); sh.saw("hex decode " + ("error" if isinstance(x, int) else "text"), t, repr(t)[:100])
            if isinstance(x, int):
                if r.k != "E" or r.dbg() != "UnknownSymbol(%d)" % x: sh.bad("first unknown byte of a hex text is not reported by its index %d" % x, d, text=repr(t), reply=r)
            elif not r.ok or r.b(0) != x: sh.bad("hex decoding is wrong", d, text=repr(t), reply=r, want=x)
        def bits(d, v, tail=b""):
            r = d.call("bits_write", csv(v)); w = hexbits.pack(v); sh.saw("written groups", tuple(v))
            if not r.ok or r.b(0) != w: sh.bad("11-bit writer is wrong", d, values=v, reply=r, want=w)
            buf = w + tail; n = len(buf) * 8 // 11
            r = d.call("bits_read", hx(buf), n); vals, sizes = hexbits.unpack(buf); sh.saw("read groups", (tuple(v), tail))
            if not r.ok or r.f != [csv(vals), csv(sizes)] or vals[:len(v)] != list(v): sh.bad("11-bit reader is wrong", d, data=buf, reply=r, want=[vals, sizes])
        # every value in every phase, neighbours zero, ones, random
        for ph in range(8):
            if not sh.mine(ph): continue
            for x in range(2048):
                for j, fill in enumerate((0, 2047)):
                    bits(D[(x + j) % 2], [fill] * ph + [x] + [fill] * ((x + ph) % 3))
            sh.counts["phases with every value"] += 1
        for n in range(0, 260):
            if sh.mine(n): d = D[n % 2]; bits(d, [rng.randrange(2048) for _ in range(n)]); bits(d, [2047] * n); bits(d, [0] * n, gen.rbytes(rng, rng.randrange(6)))
        for n in range(0, 300):
            if sh.mine(n): henc(D[n % 2], gen.rbytes(rng, n))
        for b in range(256):
            if sh.mine(b): henc(D[b % 2], bytes([b])); hdec(D[b % 2], "%02X" % b); hdec(D[b % 2], "%x %X" % (b >> 4, b & 15)); hdec(D[b % 2], "\t%x\r\n%x \n" % (b >> 4, b & 15))
        for c in [chr(x) for x in range(128)] + ["é", "\u3000", "\u00a0", "😀", "\u2028", "\x85", "\u1680", "g", "G", "/", ":", "@", "`", "０"]:
            for pos in (0, 1, 2, 5):
                if sh.mine(ord(c) % 8 if ord(c) < 128 else pos): hdec(D[pos % 2], ("0a1B c3"[:pos] + c + "4" * (8 - pos)))
        for k, n in enumerate([1000, 2979, 5957, 5958, 6000, 11916, 23832, 47663, 65535, 65536, 70000, 131072 + rng.randrange(99)]):   # around 8, 16 and 20 bit counts of bytes, bits and numbers
            if sh.mine(k):
                bits(D[k % 2], [rng.randrange(2048) for _ in range(n)]); henc(D[k % 2], gen.rbytes(rng, n + rng.randrange(3))); t = gen.rbytes(rng, n // 2).hex(); i = rng.randrange(len(t)); hdec(D[k % 2], t[:i] + "\n" + t[i:]); hdec(D[k % 2], t[:i] + "q" + t[i:])
                sh.counts["large texts and sequences"] += 1
        while sh.more():
            d = rng.choice(D); k = rng.randrange(4)
            if k == 0: henc(d, gen.data(rng))
            elif k == 1:
                t = gen.data(rng, 200).hex(); t = "".join(rng.choice([c, c.upper()]) + (rng.choice([" ", "\t", "\r", "\n", "  ", "\r\n"]) if rng.randrange(4) == 0 else "") for c in t)
                if rng.randrange(3) == 0: i = rng.randrange(len(t) + 1); t = t[:i] + rng.choice(["g", "é", "\0", "-", "x", "\v", "\f", "\u3000", "😀", "\x7f", ":", "/", "@", "`", "G"]) + t[i:]
                hdec(d, t)
            else: bits(d, [rng.choice([0, 1, 1024, 2047, rng.randrange(2048)]) for _ in range(rng.randrange(0, 64))], gen.rbytes(rng, rng.randrange(12)))
    run.shards(f)
    for k, n in (("phases with every value", 8), ("large texts and sequences", 12), ("hex round trip", 300), ("hex decode text", 100), ("hex decode error", 100), ("read groups", 1000)): run.need(k, n)
