# sourced by the scripts beside it
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$HERE"
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
export RUSTC_BOOTSTRAP=1            # the allocation-error hook of std is an unstable feature
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
# Build the simulator, with rasp compiled anew from /repo's working tree, in both profiles.
# $1: "fresh" forces rasp to be recompiled whatever the timestamps say.
sim_build() {
  local log="$HERE/sim/target/build.log"
  mkdir -p "$HERE/sim/target"
  if [ "${1:-}" = fresh ]; then
    rm -rf "$HERE"/sim/target/chk/.fingerprint/rasp-* "$HERE"/sim/target/release/.fingerprint/rasp-*
  fi
  (
    flock 9
    cd "$HERE/sim" || exit 3
    # A tree whose generics cannot take the simulator's sample type, or whose traits a caller can no
    # longer implement, is still simulated without that seam.
    for seams in "" plain closed plain,closed; do
      cargo build --offline --locked --quiet --profile chk --features "$seams" &&
      cargo build --offline --locked --quiet --release --features "$seams" && exit 0
    done
    exit 3
  ) >"$log" 2>&1 9>"$HERE/sim/target/.build.lock" && return 0
  cat "$log" >&2
  echo "ERROR: the simulator does not build against /repo" >&2
  return 3
}
