#!/bin/bash
# check.sh ID [quick|thorough]: build from /repo's working tree, then run the simulations of property ID.
# Exit 0: held on every run. Exit 1 with "VIOLATION property=ID replay=FILE": broken. Exit 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
case "$1" in
  S03|S04|I0*|A0*) bin=langsim ;;
  *) bin=oaksim ;;
esac
t0=$(date +%s.%N)
./build.sh $bin || exit 2
export OAKSIM_BUILD_S=$(date +%s.%N | awk -v t="$t0" "{printf \"%.1f\", \$1 - t}")
exec ./sim/target/release/$bin check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --dir "$PWD"
