#!/bin/bash
# run.sh quick|thorough|replay|setup [ID] [FILE]: build from /repo's working tree, run one check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=/repo
MODE=${1:?}
ID=${2:-}
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$VERIF/build/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
mkdir -p "$VERIF/build"
LOG=$VERIF/build/build.log

# What the binaries depend on, by content: cargo itself only looks at times.
stamp() {
  { (cd "$REPO" && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum)
    (cd "$VERIF/harness" && find . \( -path ./target -o -name Cargo.lock \) -prune -o -type f -print0 | sort -z | xargs -0 sha256sum)
    rustc --version; } | sha256sum | cut -d' ' -f1
}
one() { # profile: build it unless it is there for this very content
  local P=$1 D=$CARGO_TARGET_DIR/$1 S
  S=$(stamp)
  [ -x "$D/harness" ] && [ "$(cat "$D/harness.stamp" 2>/dev/null)" = "$S" ] && return 0
  rm -f "$D/harness.stamp"
  for f in "$D"/.fingerprint/minisign-* "$D"/.fingerprint/harness-*; do [ -e "$f" ] && rm -rf "$f"; done
  (cd "$VERIF/harness" && cargo build --offline --locked --profile "$P") >>"$LOG" 2>&1 || return 1
  echo "$S" >"$D/harness.stamp"
}
asan() { # AddressSanitizer build with the nightly compiler
  local D=$CARGO_TARGET_DIR/asan S
  S=$(stamp)
  [ -x "$D/harness" ] && [ "$(cat "$D/harness.stamp" 2>/dev/null)" = "$S" ] && return 0
  mkdir -p "$D"; rm -f "$D/harness.stamp"
  local B=$VERIF/build/asan/x86_64-unknown-linux-gnu/fast
  for f in "$B"/.fingerprint/minisign-* "$B"/.fingerprint/harness-*; do [ -e "$f" ] && rm -rf "$f"; done
  (cd "$VERIF/harness" && CARGO_TARGET_DIR=$VERIF/build/asan RUSTFLAGS="-Zsanitizer=address --cfg no_effects" \
     cargo +nightly build --offline --locked --profile fast --target x86_64-unknown-linux-gnu) >>"$LOG" 2>&1 || return 1
  cp "$B/harness" "$D/harness" && echo "$S" >"$D/harness.stamp"
}
build() {
  exec 9>"$VERIF/build/lock"
  flock 9
  : >"$LOG"
  one checked & local A=$!
  one fast & local B=$!
  local C=
  if [ "$ID" = C12 ] || [ "$MODE" = setup ]; then asan & C=$!; fi
  local R=0
  wait $A || R=1
  wait $B || R=1
  [ -z "$C" ] || wait $C || R=1
  exec 9>&-
  if [ $R != 0 ]; then
    echo "build failed:"
    grep -A8 -m3 '^error' "$LOG" || tail -20 "$LOG"
    exit 2
  fi
}
build
[ "$MODE" = setup ] && exit 0
T=$CARGO_TARGET_DIR
export HARNESS_ROOT=$VERIF
export HARNESS_BINS=checked=$T/checked/harness,fast=$T/fast/harness
[ "$ID" = C12 ] && HARNESS_BINS=$HARNESS_BINS,asan=$T/asan/harness
case $MODE in
  quick|thorough) exec "$T/fast/harness" run "$ID" "$MODE" "${VERIF_SEED:-1}" ;;
  replay) exec "$T/fast/harness" replay "$ID" "$3" ;;
  *) echo "usage: run.sh quick|thorough|replay|setup [ID] [FILE]"; exit 2 ;;
esac
