#!/usr/bin/env python3
"""Development aid.  trials.py mutants|refactors [id...]: applies each edit of tools/trials/*.py to a
scratch copy of /repo, runs the repository's tests and the checks there.  Mutants must be reported by
the check of their property, refactors by none.  Never touches /repo."""
import glob, os, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
W = os.environ.get("WORK", "/tmp/trials")
M, F = {}, {}
def mutant(id, props, *edits): assert id not in M; M[id] = (props.split(), edits)
def refactor(id, *edits, props=None): assert id not in F; F[id] = (props.split() if props else ["C%02d" % i for i in range(1, 23)], edits)
for f in sorted(glob.glob(V + "/tools/trials/*.py")): exec(open(f).read())
which = {"mutants": M, "refactors": F}[sys.argv[1]]; only = sys.argv[2:]
os.makedirs(W, exist_ok=True)
for id, (props, edits) in which.items():
    if only and id not in only: continue
    subprocess.run(f"rm -rf {W}/e && mkdir -p {W}/e && git -C /repo archive HEAD | tar -x -C {W}/e && cd {W}/e && git init -q . && git add -A && git -c user.email=x -c user.name=x commit -qm x", shell=True, check=True)
    for path, old, new in edits:
        p = f"{W}/e/src/{path}"; t = open(p).read(); t, sep, rest = t.partition("#[cfg(test)]")
        if t.count(old) != 1: print(id, "EDIT MATCHES", t.count(old), path, old); sys.exit(1)
        open(p, "w").write(t.replace(old, new) + sep + rest)
    open(f"{W}/p.diff", "w").write(subprocess.run("git diff", shell=True, cwd=W + "/e", text=True, capture_output=True).stdout)
    o = subprocess.run([V + "/tools/try.sh", W + "/p.diff"] + props, env=dict(os.environ, WORK=W + "/c", CUT="200"), text=True, capture_output=True)
    rc = [l for l in o.stdout.splitlines() if " rc=" in l]
    want = "rc=1" if which is M else "rc=0"
    good = "tests: pass" in o.stdout and len(rc) == len(props) and (any if which is M else all)(want in l for l in rc)
    print(f"{'ok  ' if good else 'LOOK'} {id}" + ("" if which is F and good else "\n    " + o.stdout.strip().replace("\n", "\n    ") + o.stderr[-300:]), flush=True)
