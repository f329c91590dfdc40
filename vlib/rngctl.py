"""Controls the interposed OS randomness source of one process and sees what it delivered."""
import mmap, os, struct, tempfile
from . import build
CAP = 32 << 20
class Rng:
    def __init__(s, seed, cap=CAP):
        os.makedirs(build.B, exist_ok=True)
        fd, s.path = tempfile.mkstemp(prefix="rng-", dir="/dev/shm" if os.path.isdir("/dev/shm") else build.B)
        os.ftruncate(fd, 4096 + 2 * cap); s.m = mmap.mmap(fd, 4096 + 2 * cap); s.cap = cap; os.close(fd)
        s.put(0, seed & (2**64 - 1)); s.put(56, cap); s.claimed = []; s.set = bytearray(cap)
        s.scan = 0
    def put(s, o, v): s.m[o:o + 8] = struct.pack("<Q", v)
    def get(s, o): return struct.unpack("<Q", s.m[o:o + 8])[0]
    pos = property(lambda s: s.get(8)); calls = property(lambda s: s.get(16)); hits = property(lambda s: s.get(48)); opens = property(lambda s: s.get(72))
    def env(s): return {"LD_PRELOAD": build.shim(), "VERIF_RNG": s.path}
    def fault(s, kind, frm, n):
        s.put(24, frm); s.put(32, frm + n); s.put(40, kind)
    def nofault(s): s.fault(0, 0, 0)
    def probe(s, errno): s.put(80, errno)
    def claim(s, b, since=0):
        """b must be bytes of the delivered stream that nothing claimed before; returns None or what is wrong"""
        base = 4096; end = base + s.pos; p = s.m.find(b, base + since, end)
        if p < 0 and since: p = s.m.find(b, base, end)
        if p < 0 and s.joined(b): return None
        if p < 0: return "bytes were not delivered by the OS randomness source"
        p -= base
        if any(s.set[p:p + len(b)]): return "bytes delivered by the OS randomness source are used twice"
        s.set[p:p + len(b)] = b"\1" * len(b)
        return None
    def joined(s, b):
        """b is the end of one read followed by the start of a later one (a source that reads ahead), both unused"""
        n = s.pos; st = []; q = s.m.find(b"\1", 4096 + s.cap)
        while 0 <= q < 4096 + s.cap + n: st.append(q - 4096 - s.cap); q = s.m.find(b"\1", q + 1)
        L = len(b); best = None
        ends = {}; starts = {}
        for x, e in zip(st, st[1:] + [n]):
            for k in range(1, L):
                if x + L - k <= n and s.m[4096 + x:4096 + x + L - k] == b[k:] and not any(s.set[x:x + L - k]): starts.setdefault(k, []).append(x)
                if k <= e and s.m[4096 + e - k:4096 + e] == b[:k] and not any(s.set[e - k:e]): ends.setdefault(k, []).append(e)
        for k in starts:
            for e in ends.get(k, []):
                for x in starts[k]:
                    if e <= x and (best is None or x - e < best[0]): best = (x - e, k, e, x)
        if not best: return False
        _, k, e, x = best
        s.set[e - k:e] = b"\1" * k; s.set[x:x + L - k] = b"\1" * (L - k)
        return True
    def close(s):
        s.m.close()
        try: os.unlink(s.path)
        except OSError: pass
