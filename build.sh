#!/bin/bash
# Builds the harness against /repo's current tree and prints the path of the checker.
# Exit 1: /repo does not build as a dependency.
set -u
ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$ROOT/harness" || exit 2
export CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
mkdir -p target
# what the build depends on, by content (file times of a restored or patched tree may lie)
sum=$({ rustc -V; pwd
  find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
  find "$ROOT/harness" -path "$ROOT/harness/target" -prune -o -type f -print0 | sort -z | xargs -0 sha256sum; } 2>/dev/null | sha256sum)
for kind in hooks plain; do
  bin="$ROOT/harness/target/$kind/debug/ruqcheck"
  if [ -x "$bin" ] && [ "$(cat "target/$kind.sum" 2>/dev/null)" = "$sum $(sha256sum <"$bin")" ]; then
    echo "$bin"; exit 0
  fi
done
rm -f "$ROOT/harness/target/hooks.sum" "$ROOT/harness/target/plain.sum"
build() { # kind, flags, cargo arguments
  [ -d "target/$1" ] && rm -rf "$ROOT/harness/target/$1"/debug/.fingerprint/ruq-* "$ROOT/harness/target/$1"/debug/.fingerprint/ruqcheck-*
  RUSTFLAGS="$2" cargo build --offline --quiet --target-dir "target/$1" $3 >target/build-$1.log 2>&1 || return 1
  local bin="$ROOT/harness/target/$1/debug/ruqcheck"
  echo "$sum $(sha256sum <"$bin")" >"target/$1.sum"
  echo "$bin"
}
build hooks "--cfg tokio_unstable --cfg ruq_verif" "" && exit 0
# a change may have moved what the hooks reach into: the public interface still serves
build plain "--cfg tokio_unstable" "--no-default-features" && exit 0
cat target/build-hooks.log >&2
exit 1
