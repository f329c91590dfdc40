"""C26: dictionaries supplied by the application (own words, own separator)."""
from ..core import hx, csv, unhx
from ..oracle import bip39
from .. import gen
SEPS = [" ", "\u3000", "-", ", ", "::", "ab", "aa", "\n", "\0", "  ", "/", "\u0301", "😀", "|", "\t", ".", "*", "\\s", " - ", "0"]
NAMES = ["english", "french", "japanese", "korean", "chinese-simplified", "chinese-traditional", "italian", "spanish", "English"]
OWN, ALIAS, ARR, OTHER = 1, 2, 3, 4
def words_of(rng, sep, n):
    """n words; may repeat, be empty, hold the separator or parts of it, differ only by case, accent or spaces"""
    k = rng.randrange(9)
    if k == 0: w = ["w%d" % i for i in range(n)]
    elif k == 1: w = ["x" * (i % 40) + format(i, "b") for i in range(n)]
    elif k == 2: w = [chr(0x4e00 + i) for i in range(n)]
    elif k == 3: w = [("é" if i & 1 else "e\u0301") + format(i // 2, "x") for i in range(n)]
    elif k == 4: w = [("Word" if i & 1 else "word") + str(i // 2) for i in range(n)]
    elif k == 5: w = [" " * (i % 3) + str(i // 9) + " " * (i // 3 % 3) for i in range(n)]
    elif k == 6: w = [str(i) for i in range(n)][::-1]
    elif k == 7: w = ["".join(rng.choice(gen.ALPH) for _ in range(rng.randrange(1, 9))) + chr(0x10000 + i) for i in range(n)]
    else:
        w = list(bip39.WORDS[rng.randrange(8)]); rng.shuffle(w); w = (w + [x + "2" for x in w])[:n] + ["#%d" % i for i in range(n - 4096)]
    m = rng.randrange(4)
    if m == 0:
        for _ in range(rng.randrange(1, 6)): w[rng.randrange(n)] = w[rng.randrange(n)]            # the same word twice
    if m == 1:
        for _ in range(rng.randrange(1, 4)): w[rng.randrange(n)] = rng.choice(["", sep, sep + "z", "z" + sep, sep[:1], sep[-1:], "z" + sep + "y", "\ufeff", "a" * 5000])
    return w
class D:
    """what one dictionary knows"""
    def __init__(s, id, name, sep, words, over=(), fail=()):
        s.id, s.name, s.sep, s.words = id, name, sep, words; s.find = {}; s.fail = dict(fail)
        for i, w in enumerate(words): s.find.setdefault(w, i)
        s.find.update(over)
    def parse(s, t):
        """(indexes or None, faults in the order of the pieces)"""
        f, ix = [], []
        for w in t.split(s.sep):
            if w in s.fail: f.append(("word", s.fail[w]))
            elif w not in s.find: f.append(("word", w))
            else:
                ix.append(s.find[w])
                if ix[-1] > 2047: f.append(("bound", ix[-1]))
        n = len(t.split(s.sep))
        if n not in bip39.SIZES: f.append(("count", n))
        return (None if f else ix), f
def c26(run):
    run.build("checked", "release")
    def f(sh):
        rng = sh.rng; k = 0
        while sh.more():
            k += 1; d = sh.d(("checked", "release")[k % 2])
            name = rng.choice(NAMES) if rng.randrange(2) else gen.password(rng)[:60]; sep = rng.choice(SEPS) if rng.randrange(4) else "".join(rng.choice(gen.ALPH) for _ in range(rng.randrange(1, 4)))
            n = rng.choice([2048, 2048, 2048, 2049, 4096, 1, 30, 2047]); ws = words_of(rng, sep, n)
            over = {rng.choice(["alias", "0", ws[0], ws[-1], "big", "last"]): rng.choice([0, 1, 2047, 2048, 2049, 4095, 65535, rng.randrange(65536)]) for _ in range(rng.randrange(4))} if rng.randrange(2) else {}
            fail = {rng.choice(["locked", ws[n // 2], ws[0] + "!"]): gen.password(rng) + "?" for _ in range(rng.randrange(3))} if rng.randrange(3) == 0 else {}
            A = D(OWN, name, sep, ws, over, fail)
            d.call("ud_set", OWN, hx(name), hx(sep), ",".join(hx(w) for w in ws), ",".join("%s:%d" % (hx(w), i) for w, i in over.items()) or ".", ",".join("%s:%s" % (hx(w), hx(m)) for w, m in fail.items()) or ".")
            ws2 = words_of(rng, " ", 2048); nm = rng.choice(NAMES + [name, "arr", ""])
            B = D(ARR, nm, " ", ws2); d.call("ud_arr", ARR, hx(nm), ",".join(hx(w) for w in ws2))
            T = rng.choice([A, B])
            for X in (A, B):
                r = d.call("ud_info", X.id, X.id)
                if r.f != [hx(X.name), hx(X.sep)]: sh.bad("dictionary's name or separator changed", d, reply=r)
            for _ in range(60):
                X, Y = rng.choice([(A, B), (B, A), (A, A), (B, B)]); lim = min(2048, len(X.words)); step = rng.randrange(6)
                if X is A: d.call("ud_log", OWN)
                if step == 0:                      # entropy to phrase
                    e = gen.rbytes(rng, rng.choice(list(bip39.SIZES.values())) // 8); ix = bip39.indexes(e); r = d.call("ud_ent", X.id, Y.id, hx(e))
                    sh.saw("entropy to phrase", (X.name, X.sep, e))
                    if max(ix) < len(X.words):
                        if not r.ok or r.b(0).decode() != X.sep.join(X.words[i] for i in ix): sh.bad("phrase is not the dictionary's words and separator", d, reply=r, indexes=ix, sep=repr(X.sep))
                        elif X is A and set(int(i) for i in d.call("ud_log", OWN).f[1].replace("-", "").split(",") if i) - set(ix): sh.bad("dictionary asked for another index", d, indexes=ix)
                    elif r.k == "O": sh.bad("phrase of a word the dictionary does not have", d, reply=r, indexes=ix)
                    else: sh.counts["dictionary lacks the word"] += 1
                elif step == 1:                    # word sequence to phrase
                    w = rng.choice(list(bip39.SIZES)) if rng.randrange(4) else rng.randrange(0, 40); ix = [rng.randrange(lim) for _ in range(w)]
                    if ix and rng.randrange(6) == 0: ix[rng.randrange(w)] = rng.choice([2048, 2049, 65535])
                    ok = w in bip39.SIZES and max(ix) < 2048; r = d.call("ud_idx", X.id, Y.id, csv(ix)); sh.saw("words to phrase" if ok else "words refused", (X.name, X.sep, tuple(ix)))
                    if ok and (not r.ok or r.b(0).decode() != X.sep.join(X.words[i] for i in ix)): sh.bad("phrase is not the dictionary's words and separator", d, reply=r, indexes=ix, sep=repr(X.sep))
                    if not ok and r.k != "E": sh.bad("word sequence must be refused", d, reply=r, indexes=ix)
                elif step == 2:                    # single look-ups
                    t = rng.choice([rng.choice(X.words), rng.choice(list(X.find)), rng.choice(list(X.fail) or [""]), gen.password(rng), rng.choice(X.words) + rng.choice(["", " ", "s"]), X.sep, ""])
                    r = d.call("ud_find", X.id, Y.id, hx(t)); sh.saw("look-up", (X.name, t))
                    if t in X.fail or t not in X.find:
                        if r.err != "LanguageError" or not told(r, X.fail.get(t, t)): sh.bad("dictionary's refusal of a word is not passed on", d, word=repr(t), reply=r)
                    elif not r.ok or r.f[0] != str(X.find[t]): sh.bad("dictionary's answer for a word is not passed on", d, word=repr(t), reply=r, want=X.find[t])
                elif step == 3:
                    i = rng.choice([0, 1, 2047, len(X.words) - 1, rng.randrange(lim)]); r = d.call("ud_word", X.id, Y.id, i); sh.saw("word of an index", (X.name, i))
                    if i < len(X.words) and (not r.ok or r.b(0).decode() != X.words[i]) or i >= len(X.words) and r.k == "O": sh.bad("word of an index is not the dictionary's", d, index=i, reply=r)
                else:                              # phrase to words, seed, other language
                    w = rng.choice(list(bip39.SIZES)) if rng.randrange(5) else rng.randrange(1, 40)
                    ps = [X.words[rng.randrange(lim)] for _ in range(w)]; q = rng.randrange(10); sp = X.sep
                    if q == 0: ps[rng.randrange(w)] = rng.choice(list(X.find) + list(X.fail))
                    if q == 1: ps[rng.randrange(w)] = rng.choice(list(over) + list(X.fail) or ["x"])
                    if q == 2: ps[rng.randrange(w)] += rng.choice([" ", "x", sp, "\0"])
                    if q == 3 and rng.randrange(2): sp = rng.choice(SEPS)
                    if q == 4: ps[rng.randrange(w)] = rng.choice(Y.words)
                    if q == 6 and w in bip39.SIZES: ps = [X.words[i] if i < len(X.words) else "?" for i in bip39.indexes(gen.rbytes(rng, bip39.SIZES[w] // 8))]
                    t = sp.join(ps)
                    if q == 5: t = rng.choice([sp + t, t + sp, " " + t, t + "\n", t.upper(), ""])
                    ix, faults = X.parse(t); r = d.call("ud_parse", X.id, Y.id, hx(t)); sh.saw("phrase accepted" if ix else "phrase refused", (X.name, X.sep, t))
                    if ix is None:
                        if r.k != "E": sh.bad("phrase must be refused", d, phrase=repr(t)[:300], faults=faults, reply=r)
                        elif len(faults) == 1:
                            kind, v = faults[0]; sh.counts["single fault: " + kind] += 1
                            if r.err != {"word": "LanguageError", "bound": "MnemonicOutOfBound", "count": "WrongNumberOfWords"}[kind] or not told(r, v): sh.bad("refused phrase: the cause is not named", d, phrase=repr(t)[:300], faults=faults, reply=r)
                    else:
                        e = bip39.entropy(ix)
                        if max(ix) < len(Y.words):
                            want = [csv(ix), hx(e) if e is not None else "badsum", str(len(ix)), hx(Y.sep.join(Y.words[i] for i in ix))]
                            if not r.ok or r.f != want: sh.bad("phrase in the application's dictionary is read or translated wrongly", d, phrase=repr(t)[:300], reply=r, want=want)
                            if Y is not X: sh.counts["translated"] += 1
                        elif r.k == "O": sh.bad("translated a word the other dictionary does not have", d, reply=r)
                    if X is A:
                        asked = [unhx(x).decode() for x in d.call("ud_log", OWN).f[0].split(",") if x]
                        if set(asked) - set(t.split(X.sep)): sh.bad("dictionary asked for something that is not a piece of the phrase", d, phrase=repr(t)[:300], asked=asked)
                        if ix and set(t.split(X.sep)) - set(asked): sh.bad("phrase accepted without asking the dictionary for each word", d, phrase=repr(t)[:300], asked=asked)
                    pp = gen.data(rng, 100); r = d.call("ud_new", X.id, Y.id, hx(t), hx(pp))
                    if ix is None:
                        if r.k != "E": sh.bad("phrase must be refused", d, phrase=repr(t)[:300], faults=faults, reply=r)
                    else:
                        sh.saw("seed of a phrase in an own dictionary", (X.name, t, pp))
                        want = [hx(t), hx(t), bip39.seed(t, pp).hex()]
                        if not r.ok or r.f != want: sh.bad("seed is not of the phrase as given", d, phrase=repr(t)[:300], reply=r, want=want)
    run.shards(f)
    for k in ("phrase accepted", "phrase refused", "translated", "look-up", "words to phrase", "entropy to phrase", "single fault: word", "single fault: bound", "single fault: count", "seed of a phrase in an own dictionary"): run.need(k, 30)
def told(r, v):
    """the error holds the value: a number, or a text as Rust's debug form spells it (compared by its plain characters)"""
    t = r.dbg()
    if isinstance(v, int): return str(v) in t
    plain = [c for c in v if c.isascii() and c.isalnum()]
    it = iter(t); return all(c in it for c in plain)
