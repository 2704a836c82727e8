#!/bin/bash
# Builds the simulated operating system seam, the simulator and the command from /repo's working
# tree. Everything is written under /verif/target.
set -e
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset CARGO_TARGET_DIR
export RUSTFLAGS="-Awarnings"
T="$ROOT/target"
mkdir -p "$T"
exec 9>"$T/build.lock"
flock 9
# cargo trusts time stamps; a tree that was swapped under it may carry old ones, so the content
# decides
H="$(cd /repo && find src Cargo.toml Cargo.lock -type f | LC_ALL=C sort | xargs sha256sum | sha256sum)"
if [ "$(cat "$T/repo.hash" 2>/dev/null)" != "$H" ]; then
  find "$T" -maxdepth 4 -path '*/.fingerprint/ruruby-parse-*' -prune -exec rm -rf {} +
  echo "$H" >"$T/repo.hash"
fi
S="$(sha256sum <"$ROOT/shim/simos.c")"
if [ ! -f "$T/libsimos.so" ] || [ "$(cat "$T/shim.hash" 2>/dev/null)" != "$S" ]; then
  gcc -O1 -g -Wall -shared -fPIC -o "$T/libsimos.so.tmp" "$ROOT/shim/simos.c" -ldl
  mv "$T/libsimos.so.tmp" "$T/libsimos.so"
  echo "$S" >"$T/shim.hash"
fi
# the command itself, exactly as shipped
cargo build -q --offline --locked --bin ruruby-parse --manifest-path /repo/Cargo.toml --target-dir "$T/cli"
export RUSTC_WRAPPER="$ROOT/tools/rustc-wrap.sh"
cargo build -q --offline --locked --manifest-path "$ROOT/sim/Cargo.toml" --target-dir "$T/sim"
# the variant that reports loads and stores, for the thread scheduler
RPSIM_MEM=1 cargo build -q --offline --locked --manifest-path "$ROOT/sim/Cargo.toml" --target-dir "$T/sim-mem"
