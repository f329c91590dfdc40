#!/usr/bin/env python3
"""Makes and confirms planted bugs (never used by a check).
  plant.py make SPEC.py     writes seeded/<id>/ from a spec (id, prop, edits=[(file, old, new)], main, needs, breaks, lang)
  plant.py confirm [ID..]   in a scratch copy of /repo: builds, passes the stable tests, demo 0 before and non-zero after
  plant.py detect [ID..]    applies each to /repo, runs the property's quick check (plus --also Cxx), and reverts
Results go to /tmp/plants/{confirm,detect}.json."""
import json, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V + "/seeded"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
RUST = r'''#!/bin/bash
# exit 0: the guarantee holds for the demonstrated case. Runs in the repository's root, after its build.
set -u
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export HOME=/root PATH="$PATH:/root/.cargo/bin" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
T=$(mktemp -d); trap 'find "$T" -depth -delete' EXIT
mkdir -p "$T/src" "$T/clib"
cp "$D/main.rs" "$T/src/main.rs"; cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<E
[package]
name = "demo"
version = "0.0.1"
edition = "2021"
[workspace]
members = ["clib"]
[dependencies]
tesseract-keychain = { path = "$R/keychain", features = ["custom-networks", "backup"] }
bip39 = { path = "$R/bip39" }
secp256k1_bip32 = { path = "$R/secp256k1_bip32" }
clib = { path = "clib" }
cryptoxide = "*"
E
cat > "$T/clib/Cargo.toml" <<E
[package]
name = "clib"
version = "0.0.1"
edition = "2015"
[lib]
name = "rust_keychain"
path = "$R/keychain-c/src/lib.rs"
[dependencies]
tesseract-keychain = { path = "$R/keychain", features = ["backup"] }
enum-primitive-derive = "0.1"
num-traits = "0.2"
[features]
default = ["cardano", "ethereum", "bitcoin", "backup"]
cardano = []
ethereum = []
bitcoin = []
backup = []
E
cd "$T" && timeout 280 cargo run --offline -q PROFILE --target-dir "$T/target" 2>"$T/err"; rc=$?
[ $rc -ne 0 ] && tail -5 "$T/err"
exit $rc
'''
def make(spec):
    ns = {}; exec(open(spec).read(), ns)
    d = f"{S}/{ns['id']}"; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(); sh(f"git -C /repo worktree add --detach {w}/r HEAD")
    try:
        for f, a, b in ns["edits"]:
            p = f"{w}/r/{f}"; t = open(p).read()
            assert t.count(a) == 1, (ns["id"], f, a, t.count(a)); open(p, "w").write(t.replace(a, b))
        open(d + "/patch.diff", "w").write(sh(f"git -C {w}/r diff").stdout)
    finally: sh(f"git -C /repo worktree remove --force {w}/r"); os.rmdir(w)
    open(d + "/main.rs", "w").write(ns["main"].lstrip())
    demo = RUST
    if "features" in ns:      # a Rust application of another feature set, without the C library
        a, b = demo.index("clib = {"), demo.index("cd \"$T\" &&")
        demo = demo[:a] + "E\n" + demo[b:]; demo = demo.replace('members = ["clib"]\n', "").replace('features = ["custom-networks", "backup"]', "default-features = false, features = %s" % json.dumps(ns["features"]))
    open(d + "/demo.sh", "w").write(ns.get("demo") or demo.replace("PROFILE", ns.get("profile", "--release"))); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    for n, t in ns.get("files", {}).items(): open(f"{d}/{n}", "w").write(t)
def ids(a): return a or sorted(x for x in os.listdir(S) if os.path.exists(f"{S}/{x}/patch.diff"))
def save(k, i, v):
    p = f"/tmp/plants/{k}.json"; d = json.load(open(p)) if os.path.exists(p) else {}
    d[i] = v; json.dump(d, open(p, "w"), indent=1)
def confirm(l):
    # the scripts under /opt/vp build in /repo itself: the patch is applied there and reverted
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("tests", [])))
    for i in ids(l):
        p = f"{S}/{i}/patch.diff"; r = {}
        t = tempfile.mkdtemp(); sh(f"cp {S}/{i}/* {t}/ && rm {t}/patch.diff {t}/meta.json")
        r["before"] = sh(f"cd /repo && timeout 300 bash {t}/demo.sh").returncode
        a = sh(f"git -C /repo apply {p}"); r["apply"] = a.returncode
        try:
            b = sh("bash /opt/vp/build.sh > /tmp/plants/build.log 2>&1"); r["build"] = b.returncode
            o = sh("bash /opt/vp/test.sh /tmp/plants/out.json"); r["tests"] = o.returncode
            x = sh(f"cd /repo && timeout 300 bash {t}/demo.sh"); r["after"] = x.returncode; r["says"] = x.stdout[-400:]
        finally: sh("git -C /repo checkout -- ."); shutil.rmtree(t)
        r["ok"] = r["before"] == 0 and r["apply"] == 0 and r["build"] == 0 and r["tests"] == 0 and r["after"] not in (0, 124)
        save("confirm", i, r); print(i, r, flush=True)
    sh("bash /opt/vp/build.sh > /tmp/plants/build.log 2>&1")
def detect(l, also, tier):
    for i in ids(l):
        m = json.load(open(f"{S}/{i}/meta.json")); sh(f"git -C /repo apply {S}/{i}/patch.diff")
        try:
            for c in [m["property"]] + also:
                t = time.time(); o = sh(f"cd {V} && VERIF_SEED=1 VERIF_TIER={tier} timeout 900 python3 run.py {c}")
                v = [x for x in o.stdout.splitlines() if x.startswith("VIOLATION")]
                r = {"check": c, "rc": o.returncode, "caught": o.returncode == 1 and any(f"property={c} " in x for x in v), "s": round(time.time() - t), "says": "" if v else o.stdout[-500:]}
                w = re.search(r"replay=(\S+)", v[0]) if v else None
                if w:
                    try: r["what"] = json.load(open(w.group(1)))["what"][:200]
                    except Exception: pass
                save("detect", i + ("" if c == m["property"] else "/" + c), r); print(i, r, flush=True)
        finally: sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    a = sys.argv[2:]; also = []; tier = "quick"
    while "--also" in a: k = a.index("--also"); also.append(a[k + 1]); del a[k:k + 2]
    if "--thorough" in a: a.remove("--thorough"); tier = "thorough"
    if sys.argv[1] == "make": [make(x) for x in a]
    elif sys.argv[1] == "confirm": confirm(a)
    else: detect(a, also, tier)
