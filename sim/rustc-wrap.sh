#!/bin/bash
# Adds basic-block trace callbacks (SanitizerCoverage trace-pc-guard) to the crates under simulation:
# every basic-block edge of these crates becomes a scheduling point of the simulator.
# The repository's sources are compiled exactly as they are.
rustc="$1"; shift
name=""
prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; break; fi
  prev="$a"
done
case "$name" in
  oak_macros) ;;
  # Nothing of the simulator itself may be inlined into instrumented code.
  simrt) exec "$rustc" "$@" -Zcross-crate-inline-threshold=never ;;
  oak_*|dashmap|oaksim|langsim)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
