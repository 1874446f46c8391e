#!/bin/bash
# build.sh [oaksim|langsim]: builds the simulators from /repo's current working tree (sources unchanged, instrumented by sim/rustc-wrap.sh).
# Prints nothing but errors; exit status 2 if the build fails.
cd "$(dirname "$0")/sim" || exit 2
export RUSTUP_TOOLCHAIN=nightly-2026-02-15 CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
exec 9>.lock && flock 9
# cargo decides by file times what to rebuild; a restored or copied tree may have old times, so go by content.
h=$(cd /repo && find projects examples Cargo.toml -name target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.json' \) -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
h="$h $(cat Cargo.lock rustc-wrap.sh | sha256sum)"
if [ "$h" != "$(cat target/.sources 2>/dev/null)" ]; then
  for d in target/release/.fingerprint/oak* target/release/.fingerprint/simrt*; do [ -e "$d" ] && rm -rf "$PWD/$d"; done
fi
if ! out=$(cargo build --release --offline ${1:+-p $1} 2>&1); then
  printf '%s\n' "$out" | grep -vE '^warning|^ *\|' | tail -60 >&2
  exit 2
fi
printf '%s' "$h" >target/.sources
