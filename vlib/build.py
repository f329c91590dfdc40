"""Builds the driver binaries from /repo's current working tree into /verif/.build."""
import fcntl, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, ".build")
FAST = "--cfg keychain_verif_fast_kdf"
TGT = "x86_64-unknown-linux-gnu"
class BuildError(Exception): pass

# flavor -> (harness dir, binary, profile, rustflags, toolchain, extra cargo args)
F = {
    "checked":      ("kdrv", "kdrv", "checked", "", None, []),
    "release":      ("kdrv", "kdrv", "release", "", None, []),
    "checked-fast": ("kdrv", "kdrv", "checked", FAST, None, []),
    "release-fast": ("kdrv", "kdrv", "release", FAST, None, []),
    "asan-fast":    ("kdrv", "kdrv", "checked", FAST + " -Zsanitizer=address", "nightly", ["--target", TGT]),
    "capi-fast":    ("kcapi", "kcapi", "checked", FAST, None, []),
    "capi-release": ("kcapi", "kcapi", "release", FAST, None, []),
    "capi-full":    ("kcapi", "kcapi", "release", "", None, []),
    "capi-asan":    ("kcapi", "kcapi", "checked", FAST + " -Zsanitizer=address", "nightly", ["--target", TGT]),
    "wipe-dev":     ("wipe", "wipe", "dev", "", None, []),
    "wipe-o1":      ("wipe", "wipe", "o1", "", None, []),
    "wipe-s":       ("wipe", "wipe", "small", "", None, []),
    "wipe-release": ("wipe", "wipe", "release", "", None, []),
    "wipe-lto":     ("wipe", "wipe", "lto", "", None, []),
    "capi-tsan":    ("kcapi", "kcapi", "release", FAST + " -Zsanitizer=thread", "nightly", ["--target", TGT, "-Zbuild-std"]),
}
def env(rf="", toolchain=None):
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin"
    e["RUSTFLAGS"] = (rf + " -Awarnings --cap-lints allow").strip()
    e["RUSTUP_TOOLCHAIN"] = toolchain or "stable"
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"): e.pop(k, None)
    return e
def locked(name):
    os.makedirs(B, exist_ok=True)
    f = open(os.path.join(B, name + ".lock"), "w"); fcntl.flock(f, fcntl.LOCK_EX); return f
def cargo(args, cwd, rf="", toolchain=None, timeout=840):
    t = time.time()
    p = subprocess.run(["cargo"] + args, cwd=cwd, env=env(rf, toolchain), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise BuildError("cargo %s failed in %s:\n%s" % (" ".join(args), cwd, p.stdout.decode(errors="replace")[-4000:]))
    return time.time() - t
def build(flavor):
    h, binname, prof, rf, tc, extra = F[flavor]
    td = os.path.join(B, "t-" + h + ("-fast" if FAST in rf else "") + ("-" + tc if tc else "") + ("-asan" if "address" in rf else "") + ("-tsan" if "thread" in rf else ""))
    lk = locked(os.path.basename(td))
    try:
        cargo(["build", "--offline", "--locked", "--profile", prof, "--target-dir", td] + extra, os.path.join(V, "harness", h), rf, tc)
    finally:
        lk.close()
    return os.path.join(td, *([TGT] if extra else []), "debug" if prof == "dev" else prof, binname)
def have_shim(name): return os.path.exists(os.path.join(V, "harness/shim", name + ".c"))
def shim(name="rngshim"):
    """the LD_PRELOAD stand-in for OS randomness"""
    lk = locked(name)
    try:
        out = os.path.join(B, name + ".so"); src = os.path.join(V, "harness/shim", name + ".c")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            p = subprocess.run(["gcc", "-O2", "-Wall", "-shared", "-fPIC", "-o", out + ".tmp", src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode: raise BuildError(p.stdout.decode())
            os.rename(out + ".tmp", out)
        return out
    finally: lk.close()
# ---- one build per feature set of the C library: header, library and a C application written against them
CFG_FEATS = ["cardano", "ethereum", "bitcoin", "backup"]
def config_sets():
    """name -> (cargo feature arguments, features)"""
    out = {"default": ([], ["cardano", "ethereum", "bitcoin"])}
    for m in range(16):
        f = [x for i, x in enumerate(CFG_FEATS) if m >> i & 1]
        out["+".join(x[:3] for x in f) or "none"] = (["--no-default-features", "--features", ",".join(f)], f)
    return out
def configs(names, full=False):
    """builds the C library of each named feature set and the C application; -> {name: path}. The generated
    headers in the source tree are put back as they were."""
    import shutil
    R = "/repo/keychain-c"; inc = os.path.join(R, "include"); td = os.path.join(B, "t-cfg" + ("" if full else "-fast")); prof = "release" if full else "dev"
    lk = locked("cfg"); out = {}
    old = {f: open(os.path.join(inc, f), "rb").read() for f in os.listdir(inc) if f.endswith(".h")} if os.path.isdir(inc) else {}
    try:
        for i, nm in enumerate(names):
            args, feats = config_sets()[nm]; d = os.path.join(td, "release" if full else "debug")
            # the header is written into the source tree by the build script: make it run for this feature set
            for sub in ("build", ".fingerprint"):
                p = os.path.join(d, sub)
                for x in (os.listdir(p) if os.path.isdir(p) else ()):
                    if x.startswith("tesseract-keychain-c-"): shutil.rmtree(os.path.join(p, x))
            cargo(["build", "--offline", "--locked", "--manifest-path", os.path.join(R, "Cargo.toml"), "--profile", prof, "--target-dir", td, "--config", "profile.dev.opt-level=1", "--config", "profile.dev.debug=0"] + args, R, "" if full else FAST)
            o = os.path.join(B, "cfg", ("full-" if full else "") + nm)
            if os.path.isdir(o): shutil.rmtree(o)
            os.makedirs(o)
            for f in os.listdir(inc):
                if f.endswith(".h"): shutil.copy(os.path.join(inc, f), o)
            exe = os.path.join(o, "app"); src = os.path.join(V, "harness/cfg/cfgdrv.c")
            dyn = i % 2 == 1
            if dyn:
                shutil.copy(os.path.join(d, "librust_keychain.so"), o)
                lib = ["-L" + o, "-lrust_keychain", "-Wl,-rpath," + o]
            else: lib = [os.path.join(d, "librust_keychain.a"), "-lpthread", "-ldl", "-lm"]
            p = subprocess.run(["gcc", "-D_GNU_SOURCE", "-std=c99", "-O1", "-I" + o, "-o", exe, src] + lib, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out[nm] = (exe, feats, p.stdout.decode(errors="replace")[-3000:] if p.returncode else "")
    finally:
        for f in (os.listdir(inc) if os.path.isdir(inc) else ()):
            if f.endswith(".h") and f not in old: os.unlink(os.path.join(inc, f))
        for f, b in old.items(): open(os.path.join(inc, f), "wb").write(b)
        lk.close()
    return out
def rust_configs(names, full=False):
    """a Rust application of the keychain crate for each feature set -> {name: (path, features)}"""
    import shutil
    td = os.path.join(B, "t-feat" + ("" if full else "-fast")); prof = "release" if full else "dev"; lk = locked("feat"); out = {}
    try:
        for i, nm in enumerate(names):
            feats = config_sets()[nm][1]; f = list(feats) if nm != "default" else ["defaults", "cardano", "ethereum", "bitcoin"]
            if i % 2: f.append("custom")
            cargo(["build", "--offline", "--locked", "--no-default-features", "--profile", prof, "--target-dir", td, "--features", ",".join(f)], os.path.join(V, "harness/feat"), "" if full else FAST)
            o = os.path.join(B, "cfg", "rust-" + ("full-" if full else "") + nm); os.makedirs(os.path.dirname(o), exist_ok=True)
            shutil.copy(os.path.join(td, "release" if full else "debug", "feat"), o + ".tmp"); os.rename(o + ".tmp", o)
            out[nm] = (o, feats, "")
    finally: lk.close()
    return out
