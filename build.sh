#!/bin/bash
# Builds the simulator with the library from /repo's working tree.
# Everything it writes is below /verif/sim/target.
cd "$(dirname "$0")/sim" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_INCREMENTAL=0
unset RUSTFLAGS RUST_BACKTRACE RUST_LIB_BACKTRACE CARGO_BUILD_RUSTC_WRAPPER
export CARGO_TARGET_DIR=$PWD/target RUSTC_WRAPPER=$PWD/rustc-wrap.sh CARGO_NET_OFFLINE=true
mkdir -p target
# The library is rebuilt whenever its content differs from that of the last
# build, whatever the files' times say.
now=$(cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)
if [ "$now" != "$(cat target/repo.sha 2>/dev/null)" ]; then
  rm -f target/repo.sha
  [ -d target/release/.fingerprint ] && find target/release/.fingerprint -maxdepth 1 -name 'sparsetools-*' -exec rm -rf {} +
fi
if ! cargo build --release --offline --locked -q -p dst >target/build.log 2>&1; then
  cat target/build.log >&2
  echo "build.sh: the simulator does not build against /repo" >&2
  exit 2
fi
echo "$now" >target/repo.sha
