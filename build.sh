#!/bin/bash
# Build the monitor (and, through its path dependency, /repo's program) into /verif/target.
# usage: build.sh release|checked|all
set -u
if [ "${1:-}" = all ]; then "$0" release && exec "$0" checked; exit; fi
profile=${1:-release}
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.84.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target
unset BPF_OUT_DIR SBF_OUT_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
out=/verif/target/$profile
if [ $profile = checked ]; then
  # AddressSanitizer (heap and globals) with overflow checks and debug assertions.
  # The panic runtime of the prebuilt std is not instrumented, hence no stack redzones.
  export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zsanitizer=address -Cllvm-args=-asan-stack=0"
  export CARGO_BUILD_TARGET=x86_64-unknown-linux-gnu CARGO_INCREMENTAL=0
  out=/verif/target/$CARGO_BUILD_TARGET/$profile
fi
mkdir -p /verif/target
exec 9>/verif/target/.build.lock
flock 9
cd /verif/monitor || exit 2
# cargo goes by modification times; go by contents instead
sum=$( (cd /repo && find src Cargo.toml build.rs -type f 2>/dev/null | sort | xargs sha256sum; sha256sum /verif/monitor/Cargo.lock) | sha256sum | cut -d' ' -f1)
stamp=/verif/target/.source-$profile
if [ "$(cat $stamp 2>/dev/null)" != "$sum" ]; then
  rm -f $stamp
  rm -rf $out/.fingerprint/magicblock-delegation-program-*
fi
if ! cargo build --profile $profile --offline --locked >/verif/target/build-$profile.log 2>&1; then
  grep -E '^error' -A12 /verif/target/build-$profile.log | head -60
  echo "build failed (profile $profile): /verif/target/build-$profile.log"
  exit 2
fi
echo $sum > $stamp
