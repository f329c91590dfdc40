"""C21: dropped seeds and entropies leave nothing of the secret in the memory they occupied.
The harness keeps each secret in many kinds of place (heap, stack, containers, other threads, unwinding),
watches its address, copies the memory at release (allocator hook) or after the drop, in five optimisation profiles."""
import subprocess
from .. import build
PROFILES = ["wipe-dev", "wipe-o1", "wipe-s", "wipe-release", "wipe-lto"]
def c21(run):
    run.build(*PROFILES)
    def work(sh):
        p = PROFILES[sh.i]; k = 0
        while k == 0 or (sh.more() and (sh.thorough or k < 4)):
            k += 1
            r = subprocess.run([sh.run.bins[p], str(sh.rng.getrandbits(63)), "1"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
            L = [l.split("\t") for l in r.stdout.decode().splitlines()]
            if r.returncode or not L or L[-1] != ["done"]:
                sh.bad("harness ends with status %s while dropping secrets" % r.returncode, None, profile=p, stderr=r.stderr.decode(errors="replace")[-2000:], after=str(L[-1:])); return
            for l in L[:-1]:
                if l[0] == "control":
                    if l[4] == "-": raise RuntimeError("the monitor does not notice an unwiped secret (%s)" % p)
                    sh.counts["control: unwiped buffer noticed"] += 1
                elif l[0] == "zero":
                    sh.evals += int(l[1]); sh.saw("zero calls checked byte by byte (%s)" % p, (p, k))
                    sh.counts["zero calls"] += int(l[1])
                    if l[2] != "-": sh.bad("zero leaves or changes bytes (buffer size:offset:length:first wrong byte)", None, cases=l[2], profile=p)
                else:
                    if int(l[3]): raise RuntimeError("harness: odd trials %r" % l)
                    sh.evals += int(l[1]) - 1; sh.saw("drops observed (%s)" % p, (p, l[0]), "%s: %s trials of %s secret bytes, positions kept: %s" % (l[0], l[1], l[2], l[4]))
                    if l[4] != "-": sh.bad("secret bytes remain after the drop: " + l[0], None, profile=p, positions=l[4], of=l[2])
    run.shards(work, n=len(PROFILES))
    for p in PROFILES: run.need("drops observed (%s)" % p, 100)
