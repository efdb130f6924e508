#!/bin/bash
# Builds the MIR extractor if needed and dumps the resolved MIR of /repo's
# *current* working tree.  Prints the path of the dump.  Everything is kept in
# /verif/.cache (git-ignored); the dump is keyed by a hash of the sources, so a
# stale dump is never used.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${RUMPY_REPO:-/repo}
C=$V/.cache
mkdir -p "$C"
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
export PYO3_PYTHON=/opt/vp/venv/bin/python
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTUP_TOOLCHAIN RUSTC
exec 9>"$C/lock"
flock 9
key=$( (cd "$REPO" && find src Cargo.toml Cargo.lock build.rs .cargo rust-toolchain* -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; cd "$V/driver" && sha256sum Cargo.toml src/*.rs; rustc +nightly -V) | sha256sum | cut -c1-24)
out=$C/mir-$key.jsonl
if [ ! -s "$out" ]; then
  (cd "$V/driver" && CARGO_TARGET_DIR=$C/driver cargo +nightly build --offline) >"$C/driver.log" 2>&1 || { echo "extractor build failed; see $C/driver.log" >&2; tail -20 "$C/driver.log" >&2; exit 2; }
  find "$C" -maxdepth 1 -name 'mir-*' -delete
  (cd "$REPO" && CARGO_TARGET_DIR=$C/target cargo +nightly clean --offline -p rumpy) >/dev/null 2>&1
  (cd "$REPO" && \
    LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib \
    RUSTC_WORKSPACE_WRAPPER=$C/driver/debug/rumpy-mirdump MIRDUMP_CRATE=rumpy MIRDUMP_OUT=$out \
    CARGO_PROFILE_DEV_DEBUG=0 CARGO_TARGET_DIR=$C/target \
    cargo +nightly check --offline --no-default-features --lib) >"$C/dump.log" 2>&1 || { echo "dump failed; see $C/dump.log" >&2; tail -20 "$C/dump.log" >&2; exit 2; }
  [ -s "$out" ] || { echo "no dump written" >&2; exit 2; }
fi
echo "$out"
