#!/bin/bash
# Builds the harness from /repo's current working tree: with all hooks if that compiles, else with
# those groups of hooks that compile, else against the public interface only.
cd "$(dirname "$0")/harness" || exit 3
export CARGO_TARGET_DIR="${VERIF_TARGET:-/verif/target}" CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
log="$CARGO_TARGET_DIR/build.$$.log"
mkdir -p "$CARGO_TARGET_DIR"
# build FLAGS FEATURES
build() {
  RUSTFLAGS="$1" cargo build --release --offline --locked --no-default-features --features "$2" >"$log" 2>&1
}
done_() { /bin/rm -f "$log"; exit 0; }
groups="sink flush degree codec mlog sync"
build "--cfg verif_hooks" "$groups" && done_
echo "the build with all hooks fails:"
grep -A6 '^error' "$log" | head -20
good="" flags=""
for g in $groups; do
  if RUSTFLAGS="--cfg verif_$g" CARGO_TARGET_DIR="$CARGO_TARGET_DIR/probe" cargo check --offline --locked --no-default-features --features "$g" >"$log" 2>&1; then
    good="$good $g" flags="$flags --cfg verif_$g"
  fi
done
echo "using the hooks:$good"
build "$flags" "$good" && done_
echo "using the public interface only"
build "" "" && done_
grep -A12 '^error' "$log" | head -60
/bin/rm -f "$log"
exit 3
