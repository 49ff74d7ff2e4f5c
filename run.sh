#!/bin/bash
# usage: run.sh build | check <property> | replay <file>
# Builds the harness against /repo's working tree, offline, then runs it.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
export TCV_ROOT=$ROOT CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${TCV_TARGET:-$ROOT/target}
if rustup toolchain list 2>/dev/null | grep -q '^stable-x86_64-unknown-linux-gnu'; then
  export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
fi
ulimit -n "$(ulimit -Hn)" 2>/dev/null
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.tcv-lock"
flock 9
# Cargo decides by modification times; make sure that any change of contents is seen.
sum=$(find /repo/src /repo/Cargo.toml "$ROOT/harness/src" "$ROOT/harness/Cargo.toml" -type f | LC_ALL=C sort | xargs -d '\n' sha256sum | sha256sum)
if [ "$(cat "$CARGO_TARGET_DIR/.tcv-sum" 2>/dev/null)" != "$sum" ]; then
  (cd harness && cargo clean --offline -q -p tchannel_rs -p tcv) >/dev/null 2>&1
fi
log=$CARGO_TARGET_DIR/.tcv-build.log
if ! (cd harness && cargo build --offline --locked -q) >"$log" 2>&1; then
  awk '/^(error|warning)/{p=0} /^error/{p=1} p' "$log" | cut -c1-300 | head -60 >&2
  echo "the harness does not build against /repo" >&2
  exit 2
fi
echo "$sum" >"$CARGO_TARGET_DIR/.tcv-sum"
bin=$CARGO_TARGET_DIR/debug/tcv
flock -u 9
exec 9>&-
[ "$1" = build ] && exit 0
exec "$bin" "$@"
