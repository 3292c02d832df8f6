#!/bin/bash
# run.sh check <ID> quick|thorough | run.sh replay <file> | run.sh list | run.sh show <ID> <tier> <name>
# Builds the explorer together with /repo's working tree and runs it.
# Exit 0: held; 1: violation; 2: no verdict (build or harness error).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=/root
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR=$PWD/target
export VERIF_DIR=$PWD
mkdir -p target evidence
# The source is compiled through include!, so tie its content to the build explicitly.
VERIF_SRC_HASH=$(find /repo/src /repo/Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-32)
export VERIF_SRC_HASH
bin=target/release/mc
exec 9>target/.lock
flock 9
build() { (cd mc && cargo build --offline --release "$@") >target/build.log 2>&1; }
kind=plain
if [ "$2" = C18 ] || { [ "$1" = replay ] && grep -qx 'property C18' "$2" 2>/dev/null; }; then
  # The statistics are read through the module's functions; without them only the rest of C18 is checked.
  if build --features stats,atoms; then kind=stats-atoms
  elif build --features stats; then kind=stats
  elif build --features atoms; then kind=atoms
  elif ! build; then kind=
  fi
elif ! build; then kind=
fi
if [ -z "$kind" ]; then
  cat target/build.log >&2
  echo "harness error: the explorer does not build against /repo" >&2
  exit 2
fi
mkdir -p target/bin
out=target/bin/mc-$VERIF_SRC_HASH-$kind-$$
cp "$bin" "$out"
flock -u 9
exec 9>&-
if [ "$1" = build ]; then rm -f "$PWD/$out"; exit 0; fi
ulimit -c 0
"$out" "$@"
rc=$?
rm -f "$PWD/$out"
exit $rc
