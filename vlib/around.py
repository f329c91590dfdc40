"""Surroundings of the driver processes: some shards run under a clock that stands, jumps, or is far off, and with
environment variables named by texts which the code has and the pinned code does not have.  No result may depend on it."""
import os, random, re
from . import build, novel
CLOCKS = [None, "epoch", "jump", "far", "epoch", "still", "jump", None]
def of(prop, seed, i, flavor):
    """(environment additions, description)"""
    rng = random.Random("around/%s/%d/%d/%s" % (prop, seed, i, flavor)); e, what = {}, []
    clock = CLOCKS[(i ^ (seed - 1)) % len(CLOCKS)]
    if clock and "asan" not in flavor and "tsan" not in flavor and build.have_shim("clockshim"):
        e["LD_PRELOAD"] = build.shim("clockshim"); e["VERIF_CLOCK"] = clock; what.append("clock " + e["VERIF_CLOCK"])
    if i % 4 in (1, 2):
        e.update(LANG="tr_TR.UTF-8", LC_ALL="tr_TR.UTF-8", TZ="Pacific/Kiritimati", HOME="/nonexistent", TMPDIR="/nonexistent", USER="", DEBUG="1", CI="1"); what.append("environment")
        names = [s for s in novel.STRS if re.fullmatch(r"[A-Za-z_]\w*", s)][:40]
        for n in names:
            if n not in ("PATH", "LD_PRELOAD", "VERIF_CLOCK"): e[n] = rng.choice(["1", "1", "true", "0", "", "yes", rng.choice(novel.STRS)]).replace("\0", "")
    return e, " and ".join(what) or "plain"
