#!/bin/bash
# quiet.sh PATCH SECS [PROPS]: run the checks against /repo plus a patch that keeps
# the behaviour; prints each check that is not quiet.
. /opt/vp/env.sh
patch=$(realpath "$1"); secs=${2:-10}; props=${3:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14}
W=$(mktemp -d /tmp/quiet.XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cp -a /verif/sim "$W/sim"; sed -i "s#=> /repo#=> $W/repo#" "$W/sim/go.mod"
cd "$W/repo" && git apply "$patch" || exit 3
go build ./... || exit 3
go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\|no test files' | head
export GOCACHE=/verif/.build/gocache
cd "$W/sim"; go build -tags verif -o "$W/vsim" . 2>/dev/null || go build -o "$W/vsim" . || exit 3
case "$props" in *C06*) go build -race -tags verif -o "$W/vsimr" . || go build -race -o "$W/vsimr" .;; esac
for p in $props; do
  "$W/vsim" check -prop $p -runs 100000000000 -secs $secs -replays "$W/rp" -part "$W/p" > "$W/log" 2>&1 || { echo "$p rc=$?"; grep -v '^goroutine' "$W/log" | head -5; }
  if [ $p = C06 ]; then "$W/vsimr" check -prop $p -runs 100000000000 -secs $((secs+10)) -replays "$W/rp" -part "$W/p" > "$W/log" 2>&1 || { echo "$p race rc=$?"; head -5 "$W/log"; }; fi
done
echo done "$patch"
