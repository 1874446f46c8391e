#!/bin/bash
# replay.sh FILE: rebuild and re-run a replay file; exit 1 if the recorded violation shows up again, with the events of the run.
f=$(realpath "$1") && cd "$(dirname "$0")" || exit 2
s=$(sed -n 's/.*"scenario": *"\([^"]*\)".*/\1/p' "$f" | head -1)
for bin in oaksim langsim; do
  grep -q "name: \"$s\"" sim/$bin/src/*.rs && break
done
./build.sh $bin || exit 2
exec ./sim/target/release/$bin replay "$f"
