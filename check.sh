#!/bin/bash
# check.sh <property>         build the simulator from /repo's working tree and decide the property
# check.sh replay <file>      re-execute a recorded violation exactly
# check.sh build              build everything
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD LC_ALL=C.UTF-8
B=${VERIF_BUILD:-$PWD/build}
case "$1" in
  build) exec sim/build.sh all;;
  replay) T=$(sed -n 's/^target //p;/^run/q' "$2" | head -1); sim/build.sh "$T" >&2 || exit 2; exec "$B/sim_$T" replay "$2";;
  C16|C17) T=eol;;
  C25|C26) T=mix;;
  C*) T=pasm;;
  *) echo "usage: check.sh ID|replay FILE|build" >&2; exit 2;;
esac
sim/build.sh $T >"$B.log" 2>&1 || { cat "$B.log" >&2; echo "check.sh: the simulator could not be built" >&2; exit 2; }
exec "$B/sim_$T" check "$1"
