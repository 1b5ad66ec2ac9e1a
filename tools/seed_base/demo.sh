#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.84.1 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_TEST_DEBUG=line-tables-only
unset BPF_OUT_DIR SBF_OUT_DIR RUSTFLAGS
export CARGO_TARGET_DIR=/repo/target
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/tests" "$d/dlp"
: > "$d/src/lib.rs"
# The program's sources as they are, built as a plain library: the repository's own crate is also a cdylib, so its builds
# with and without the test feature share one file name, and whichever ran last would be linked here.
cp -r /repo/src "$d/dlp/src"
cp /repo/README.md "$d/dlp/" 2>/dev/null
grep -v '^crate-type' /repo/Cargo.toml | grep -v '^magicblock-delegation-program = ' > "$d/dlp/Cargo.toml"
cp "$here/Cargo.demo.toml" "$d/Cargo.toml"
cp /repo/Cargo.lock "$d/Cargo.lock"
cp "$here/common.rs" "$d/common.rs"
cp "$here/demo.rs" "$d/tests/demo.rs"
cd "$d" && cargo test --offline --test demo
