#!/usr/bin/env python3
"""Development aid: (re)creates /verif/seeded/<id>/ from tools/seeds/*.py and confirms each one in a
scratch copy: it applies, builds, passes the repository's tests, and its demo fails with it and
passes without it; then runs the property's check against the copy.  usage: mkseeds.py [id...]"""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
W = os.environ.get("WORK", "/tmp/seedwork")
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
DEMO = '''#!/bin/bash
# Builds demo.rs against the rasp in the current directory and runs it: exit 0 when the property holds.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && cp "$D"/*.rs "$T/src/" && mv "$T/src/demo.rs" "$T/src/main.rs" || exit 99
[ -f "$D/Cargo.lock.demo" ] && cp "$D/Cargo.lock.demo" "$T/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nrasp = { path = "%s" }\\nnum = "0.1"\\n[workspace]\\n' "$R" > "$T/Cargo.toml"
cd "$T" || exit 99
CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet @REL@ 2>"$T/log" || { cat "$T/log"; exit 99; }
timeout 120 "$T/target/@PROF@/demo"
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, env=ENV, **k)
seeds = {}
def seed(id, property, edits, demo, needs, breaks, release=False, extra=()):
    assert id not in seeds
    seeds[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, release=release, extra=extra)
for f in sorted(glob.glob(V + "/tools/seeds/*.py")): exec(open(f).read())
only = [a for a in sys.argv[1:] if not a.startswith("-")]
nocheck = "--nocheck" in sys.argv
for id, s in seeds.items():
    if only and id not in only: continue
    shutil.rmtree(W + "/a", ignore_errors=True); os.makedirs(W + "/a")
    sh(f"git -C /repo archive HEAD | tar -x -C {W}/a && cp /repo/Cargo.lock {W}/a/ ; cd {W}/a && git init -q . && git add -A && git -c user.email=x -c user.name=x commit -qm x")
    for path, old, new in s["edits"]:
        p = f"{W}/a/{path}"; t = open(p).read()
        if t.count(old) != 1: print(id, "EDIT MATCHES", t.count(old), path, old); sys.exit(1)
        open(p, "w").write(t.replace(old, new))
    d = f"{V}/seeded/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(sh(f"cd {W}/a && git diff -- src").stdout)
    open(d + "/demo.rs", "w").write(s["demo"])
    for n in s["extra"]: shutil.copy(f"{V}/tools/seeds/{n}", d)
    open(d + "/demo.sh", "w").write(DEMO.replace("@REL@", "--release" if s["release"] else "").replace("@PROF@", "release" if s["release"] else "debug"))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    t = sh(f"cd {W}/a && CARGO_TARGET_DIR={W}/t cargo test --offline 2>&1")
    good = sh(f"cd /repo && bash {d}/demo.sh"); bad = sh(f"cd {W}/a && bash {d}/demo.sh")
    ok = t.returncode == 0 and good.returncode == 0 and bad.returncode not in (0, 99)
    print(f"{id} [{s['property']}] tests={'pass' if t.returncode == 0 else 'FAIL'} demo clean={good.returncode} patched={bad.returncode} {'OK' if ok else 'NOT OK'}", flush=True)
    if not ok:
        print(t.stdout[-1500:] if t.returncode else "", good.stdout[-600:], good.stderr[-600:], "---", bad.stdout[-900:], bad.stderr[-500:]); continue
    if not nocheck:
        o = sh(f"WORK={W}/c CUT=300 {V}/tools/try.sh {d}/patch.diff {s['property']}"); print("    ", o.stdout.strip().replace("\n", "\n     "), o.stderr[-300:], flush=True)
