#!/usr/bin/env python3
"""Development aid.  automut.py [workers]: one small textual change at a time to each line of rasp's
non-test source; of those that compile and pass the repository's tests, prints the ones no check reports.
Works in scratch copies only (WORK, default /tmp/automut)."""
import glob, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
W = os.environ.get("WORK", "/tmp/automut"); N = int(sys.argv[1]) if len(sys.argv) > 1 else 4
RULES = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
  (r" < ", " > "), (r" > ", " < "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+= ", " -= "), (r" \+= 1\b", " += 2"), (r" % ", " / "),
  (r"\bnum::zero\(\)", "num::one()"), (r"\bT::zero\(\)", "T::one()"), (r"\bT::one\(\)", "T::zero()"), (r"\bnum::one\(\)", "num::zero()"), (r"\bT::two\(\)", "T::one()"), (r"\bT::pi\(\)", "T::two()"),
  (r"\.abs\(\)", ""), (r"\.sqrt\(\)", ""), (r"\.sin\(\)", ".cos()"), (r"\.cos\(\)", ".sin()"), (r"\.ceil\(\)", ".floor()"), (r"\.exp\(\)", ".abs()"), (r"\.tanh?\(\)", ".sin()"), (r"\.sinh\(\)", ".sin()"),
  (r"-(?=[A-Za-z(])", ""), (r"!(?=self|[a-z])(?!\()", ""), (r"_z1", "_z2"), (r"_z2", "_z1"), (r"\bb0\b", "b1"), (r"\bb1\b", "b2"), (r"\bb2\b", "b0"), (r"\ba1\b", "a2"), (r"\ba2\b", "a1"), (r"attack", "release"), (r"release", "attack"),
  (r"read_ptr", "write_ptr"), (r"write_ptr", "read_ptr"), (r"om_alpha", "alpha"), (r"\balpha\b", "om_alpha"), (r"is_finite\(\)", "is_nan()"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bx_z", "y_z"), (r"\by_z", "x_z"),
  (r"max_delay", "delay"), (r"\b(\d+)\b(?!\.\d)", lambda m: str(int(m.group(1)) + 1)), (r"\b(\d+)\b(?!\.\d)", lambda m: str(max(0, int(m.group(1)) - 1))), (r"(\d\.\d+)", lambda m: str(float(m.group(1)) * 1.01)), (r"checked_add", "wrapping_add"),
  (r"\bend\b", "start"), (r"\bstart\b", "end"), (r"\(self\.[a-z_0-9]+ \+ 1\)", lambda m: m.group(0).replace(" + 1", ""))]
def mutants():
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        rel = f[len("/repo/src/"):]; src = open(f).read(); head = src.partition("#[cfg(test)]")[0]; seen = set(); pos = 0
        for no, line in enumerate(head.splitlines(True)):
            at = pos; pos += len(line); s = line.strip()
            if rel == "analysis/mod.rs" or not s or s.startswith("//") or s.startswith("use ") or s.startswith("#") or s.startswith("extern") or s.startswith("pub mod") or s.startswith("mod "): continue
            code = line.split("//")[0]
            cand = []
            for pat, new in RULES:
                for m in re.finditer(pat, code):
                    cand.append(code[:m.start()] + (new(m) if callable(new) else new) + code[m.end():] + line[len(code):])
            if s.endswith(";") and not s.startswith("let") and not s.startswith("pub") and not s.startswith("type"): cand.append("\n")
            if re.match(r"if .*\{$", s): cand.append(re.sub(r"if .*\{", "if true {", line)); cand.append(re.sub(r"if .*\{", "if false {", line))
            for c in cand:
                if c == line or (no, c) in seen: continue
                seen.add((no, c)); yield rel, no + 1, line, c, src[:at] + c + src[at + len(line):]
# MODE=cond: each assignment to an object's state left out under one condition
PROC = ["sample == T::zero()", "sample < T::zero()", "sample > T::one()", "sample.is_nan()", "sample.is_infinite()", "sample != T::zero() && sample.abs() < T::min_positive_value()", "sample == self.last_out()",
        "self.last_out() == T::zero()", "self.last_out().is_nan()", "self.last_out() < T::zero()", "sample.abs() > num::cast(1e6f64).unwrap()", "sample == T::one()"]
LINE = ["self.write_ptr == 0", "self.read_ptr == 0", "self.read_ptr == self.write_ptr", "self.read_ptr + 1 == self.memory.len()", "self.write_ptr + 1 == self.memory.len()", "self.memory.len() == 1", "self.memory.len() == 2",
        "self.memory.len() > 4096", "self.delay as usize == 0", "self.delay as usize + 1 == self.memory.len()", "self.memory.len() % 2 == 1"]
def conditional():
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)):
        rel = f[len("/repo/src/"):]; src = open(f).read(); head = src.partition("#[cfg(test)]")[0]; pos = 0; fn = ""; args = []
        lines = head.splitlines(True)
        for no, line in enumerate(lines):
            at = pos; pos += len(line); s = line.strip()
            m = re.match(r"(?:pub )?fn (\w+)\((.*)", s)
            if m: fn = m.group(1); args = re.findall(r"(\w+): T\b", m.group(2)); vals = re.findall(r"(\w+): (?:usize|f32)\b", m.group(2))
            elif fn == "set_coefficients" and re.match(r"\w+: T[,)]", s): args.append(s.split(":")[0])
            if not re.match(r"self\.[a-z_0-9\[\]\. ]+ ?[-+*/%]?= .*;$", s) and not re.match(r"\*?sample = .*;$", s) and not re.match(r"self\.[a-z_]+\.?\w+\(.*\);$", s): continue
            cs = []
            if fn == "process": cs += [c.replace("sample", args[0] if args else "sample") for c in PROC]
            elif fn == "clear": cs += ["self.last_out() == T::zero()", "self.last_out().is_nan()", "self.last_out() < T::zero()", "self.last_out() > T::one()"]
            else:
                for a in args[:4]: cs += [f"{a} == T::zero()", f"{a} < T::zero()", f"{a} == T::one()", f"{a} > num::cast(1000f64).unwrap()"]
                if len(args) > 1: cs += [f"{args[0]} == {args[1]}", f"{args[-1]} == {args[-2]}"]
            if rel.startswith("delay"): cs += LINE
            for c in cs:
                new = line.replace(s, "if !(%s) { %s }" % (c, s)); yield rel, no + 1, line, new, src[:at] + new + src[at + len(line):]
PROPS = {"analysis": "C13 C14 C04 C03", "delay": "C06 C07 C08 C09 C04 C03", "filter/rbj": "C12 C04 C16", "filter": "C11 C04 C15", "window": "C15 C10", "util": "C16", "traits": "C01 C02"}
ALL = ["C%02d" % i for i in range(1, 23)]
lock = threading.Lock(); tally = {}
def say(k, *a):
    with lock:
        tally[k] = tally.get(k, 0) + 1
        if a: print(k, *a, flush=True)
slots = list(range(N)); sl = threading.Lock()
def sh(c, cwd, t=900):
    try: return subprocess.run(c, shell=True, cwd=cwd, env=dict(os.environ, VERIF_DIR=cwd.split("/repo")[0].split("/v/")[0] + "/v", RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu"), text=True, capture_output=True, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(c, 124, "", "timeout")
def one(m):
    rel, no, old, new, text = m
    with sl: k = slots.pop()
    d = f"{W}/{k}"
    try:
        p = f"{d}/repo/src/{rel}"; keep = open("/repo/src/" + rel).read(); open(p, "w").write(text)
        try:
            if sh(f"cargo build --offline -q --target-dir {d}/rt", d + "/repo").returncode: return say("nocompile")
            if sh(f"timeout 60 cargo test --offline -q --target-dir {d}/rt", d + "/repo", 300).returncode: return say("tests")
            r = sh("cargo build --offline -q --profile chk || cargo build --offline -q --profile chk --features plain", d + "/v/sim")
            if r.returncode: return say("SIMBUILD", rel, no, new.strip(), r.stderr[-200:])
            top = next(v for q, v in PROPS.items() if rel.startswith(q)).split()
            for q in top + [a for a in ALL if a not in top]:
                n = {"C17": 600, "C21": 60}.get(q, 25000 if q in top else 8000)
                r = sh(f"{d}/v/sim/target/chk/raspsim batch {q} --runs {n} --seed 1 --jobs 2 --noreport 1", d, 600)
                if r.returncode == 1: return say("caught-" + q)
            say("MISSED", f"{rel}:{no}: {old.strip()}  =>  {new.strip() or '(deleted)'}")
        finally: open(p, "w").write(keep)
    finally:
        with sl: slots.append(k)
for k in range(N):
    d = f"{W}/{k}"; shutil.rmtree(d + "/repo", ignore_errors=True); shutil.rmtree(d + "/v/sim/src", ignore_errors=True); os.makedirs(d + "/repo", exist_ok=True); os.makedirs(d + "/v/sim", exist_ok=True)
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}/repo; cp /repo/Cargo.lock {d}/repo/ 2>/dev/null; cp -r {V}/sim/src {V}/sim/Cargo.lock {d}/v/sim/; sed 's#/repo#{d}/repo#' {V}/sim/Cargo.toml > {d}/v/sim/Cargo.toml", shell=True)
ms = list(conditional() if os.environ.get("MODE") == "cond" else mutants())
if len(sys.argv) > 2: ms = [m for m in ms if re.search(sys.argv[2], m[0])]
print(len(ms), "mutants", flush=True)
if os.environ.get("LIST"): [print(m[0], m[1], m[3].rstrip()) for m in ms]; sys.exit()
with ThreadPoolExecutor(N) as ex: list(ex.map(one, ms))
print(sorted(tally.items()))
