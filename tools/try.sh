#!/bin/bash
# try.sh <patch> <property>...: development aid. Applies a patch to a scratch copy of /repo, runs the
# repository's tests there, then the named checks against the copy. Never touches /repo or /verif.
V="$(cd "$(dirname "$0")/.." && pwd)"; . "$V/env.sh"
W=${WORK:-/tmp/try}; mkdir -p "$W"
rm -rf "$W/repo"; mkdir -p "$W/repo"; git -C /repo archive HEAD | tar -x -C "$W/repo"; cp /repo/Cargo.lock "$W/repo/" 2>/dev/null
if [ "$1" != none ]; then (cd "$W/repo" && git init -q . 2>/dev/null; git apply "$(realpath "$1")") || { echo "PATCH DOES NOT APPLY"; exit 9; }; fi
shift
(cd "$W/repo" && CARGO_TARGET_DIR="$W/rt" cargo test --offline >"$W/test.log" 2>&1) && echo "tests: pass" || { echo "tests: FAIL"; tail -30 "$W/test.log"; }
mkdir -p "$W/v/sim"; rm -rf "$W/v/sim/src" "$W/v/sim/target/chk/.fingerprint/rasp-"* "$W/v/sim/target/release/.fingerprint/rasp-"*
cp -r "$V/sim/src" "$V/sim/Cargo.lock" "$W/v/sim/"; sed "s#/repo#$W/repo#" "$V/sim/Cargo.toml" > "$W/v/sim/Cargo.toml"
(cd "$W/v/sim" && for f in "" plain closed plain,closed; do cargo build --offline --quiet --profile chk --features "$f" && cargo build --offline --quiet --release --features "$f" && { echo "seams left out: ${f:-none}" >&3; exit 0; }; done; exit 3) 3>&1 >"$W/sim.log" 2>&1 || { tail -20 "$W/sim.log"; exit 3; }
for p in "$@"; do VERIF_DIR="$W/v" "$W/v/sim/target/chk/raspsim" check $p quick > "$W/out" 2>&1; r=$?; echo "$p rc=$r $(grep -E 'minimised|OK|ERROR' "$W/out" | cut -c1-${CUT:-220} | head -2)"; done
