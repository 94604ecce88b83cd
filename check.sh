#!/bin/bash
# check.sh PROPERTY        run the check of one property (tier from VERIF_TIER)
# check.sh build           build the simulator only
# check.sh replay FILE     run a replay file again: exit 1 if the violation shows
# Exit: 0 held, 1 violated (with a VIOLATION line), anything else: no answer.
cd "$(dirname "$0")" || exit 3
V=$PWD
what=$1
[ -n "$what" ] || { sed -n 2,5p "$0"; exit 3; }
. /opt/vp/env.sh || exit 3
mkdir -p "$V/.build/bin" "$V/evidence" "$V/replays" || exit 3
export GOCACHE=$V/.build/gocache GOWORK=off
hooks=true

build() { # build NAME [flags]: with the hooks, or without them if they no longer fit
  local name=$1 out=$V/.build/bin/$1.$$
  shift
  local log=$V/.build/build.$$.log
  if (cd "$V/sim" && go build "$@" -tags verif -o "$out" .) 2>"$log"; then :
  elif (cd "$V/sim" && go build "$@" -o "$out" .) 2>>"$log"; then hooks=false
  else cat "$log" >&2; rm -f "$log"; echo "check.sh: the simulator does not build against /repo" >&2; exit 3
  fi
  rm -f "$log"
  mv -f "$out" "$V/.build/bin/$name"
}

case $what in
build)
  build vsim; build vsim-race -race
  exit 0;;
replay)
  f=$2
  if grep -q '"Race": true' "$f"; then build vsim-race -race; b=vsim-race
    export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 atexit_sleep_ms=0"
  else build vsim; b=vsim; fi
  export GOMAXPROCS=1 GOTRACEBACK=single
  exec "$V/.build/bin/$b" replay "$f";;
esac

prop=$what
seed=${VERIF_SEED:-1}
tier=${VERIF_TIER:-quick}
start=$(date +%s.%N)
case $tier in
thorough) secs=600; rsecs=500; big=120;;
*) tier=quick; secs=40; rsecs=35; big=40;;
esac
secs=${VSIM_SECS:-$secs}; rsecs=${VSIM_RSECS:-$rsecs}
parts=()
code=0
run() { # run BINARY SECONDS PART
  parts+=("$3"); rm -f "$3"
  "$V/.build/bin/$1" check -prop "$prop" -seed "$seed" -tier "$tier" -runs 1000000000000 -secs "$2" -big "$big" -replays "$V/replays" -part "$3"
  code=$?
}
build vsim
if [ "$prop" = C06 ]; then
  # plain build for breadth, race build for unsynchronised access
  run vsim "$((secs * 6 / 10))" "$V/.build/$prop.plain.part"
  if [ $code = 0 ]; then
    build vsim-race -race
    run vsim-race "$rsecs" "$V/.build/$prop.race.part"
  fi
else
  run vsim "$secs" "$V/.build/$prop.plain.part"
fi
wall=$(echo "$(date +%s.%N) - $start" | bc 2>/dev/null || python3 -c "import time;print(time.time()-$start)")
"$V/.build/bin/vsim" merge -prop "$prop" -seed "$seed" -tier "$tier" -hooks="$hooks" -wall "$wall" -out "$V/evidence/$prop.json" "${parts[@]}" || { [ $code = 1 ] || code=3; }
# findings that were recorded instead of repaired (none at present)
grep -h "^KNOWN-FINDING: property=$prop " "$V/known-findings.txt" 2>/dev/null
exit $code
