#!/bin/bash
# bash check.sh <property> <quick|thorough|replay> [replay file]
# Builds the harness from /repo's current working tree and decides one property.
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=${1:?property}; tier=${2:-quick}
only=""
if [ "$tier" = replay ]; then
  only=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["job"])' "$3")
  tier=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["tier"])' "$3")
fi
seed=${VERIF_SEED:-1}
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOWORK=off
repo=${VERIF_REPO:-/repo}
cd "$repo" || exit 2
work=$(mktemp -d "${TMPDIR:-/tmp}/zzverif.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR="$work"
# the builds that decide the property: seq, conc (instrumented synchronisation), work (counted steps)
modes=$(cat "$here/mc/modes/$prop" 2>/dev/null || echo seq)
budget=300; [ "$tier" = thorough ] && budget=3000
[ -n "${VERIF_BUDGET:-}" ] && budget=$VERIF_BUDGET
known="$here/known_findings.txt"
gen="$work/gen"
(cd "$here/mc/gen" && GO111MODULE=off go build -o "$gen" .) || { echo "generator does not build"; exit 2; }
rc=0; i=0
for mode in $modes; do
  "$gen" -repo "$repo" -mc "$here/mc" -out "$work" -mode "$mode" || exit 2
  race=()
  # the scheduler package itself is compiled without race instrumentation
  [ "$mode" = conc ] && race=(-race "-gcflags=github.com/alexander-yu/stream/zzverif/vsync=-race=false -l")
  build=(go build "${race[@]}" -overlay "$work/overlay-$mode.json" -o "$work/h-$mode" ./zzverif/$mode)
  if ! "${build[@]}" 2>"$work/build.log" && [ "$mode" = conc ]; then
    # channels used in a way the rewriting does not understand: leave them alone (they are then not modelled)
    "$gen" -nochan -repo "$repo" -mc "$here/mc" -out "$work" -mode "$mode" || exit 2
    "${build[@]}" 2>"$work/build.log"
  fi
  if [ ! -x "$work/h-$mode" ]; then
    echo "harness does not build against the current tree:"; head -40 "$work/build.log"; exit 2
  fi
  export GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path=$work/race"; export ZZ_RACELOG="$work/race"
  i=$((i+1))
  "$work/h-$mode" -prop "$prop" -tier "$tier" -seed "$seed" -budget "$budget" -known "$known" \
     -evidence "$work/evidence-$i.json" -replaydir "$here/replays" ${only:+-only "$only"}
  r=$?
  [ $r -ne 0 ] && rc=$r
  [ $r -eq 1 ] && break
done
mkdir -p "$here/evidence"
python3 "$here/tools/merge_evidence.py" "$here/evidence/$prop.json" "$work"/evidence-*.json || rc=2
exit $rc
