#!/bin/bash
# check.sh ID quick|thorough   run the check of a property
# check.sh ID replay FILE      replay a failure
# check.sh - build OUT         only build the simulator
# check.sh - setup             see that the simulator can be built
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/sim/env.sh"
work=$(mktemp -d /tmp/simcheck.XXXXXX) || exit 3
trap 'chmod -R u+w "$work" 2>/dev/null; rm -rf "$work"' EXIT
export GOCACHE="$work/gocache" GOTMPDIR="$work" TMPDIR="$work"
if [ -n "${SIM_GOCACHE:-}" ]; then export GOCACHE="$SIM_GOCACHE"; fi
id=$1; mode=${2:-quick}
repo=${SIM_REPO:-/repo}
tags=""
case "$id" in C11|C12|C13|C14|-) tags="simfull" ;; esac
mkdir -p "$work/gen"
(cd "$here/sim/build" && go build -o "$work/simbuild" .) || { echo "cannot build the build tool" >&2; exit 3; }
out="$work/sim"
[ "$mode" = build ] && out=$3
"$work/simbuild" -repo "$repo" -sim "$here/sim" -work "$work/gen" -tags "$tags" -o "$out" || { echo "cannot build the simulator" >&2; exit 3; }
case "$mode" in build|setup) exit 0 ;; esac
if [ "$mode" = replay ]; then
  "$out" -verif "$here" -replay "$3"; exit $?
fi
shift 2
"$out" -verif "$here" -check "$id" -tier "$mode" -seed "${VERIF_SEED:-1}" "$@"
