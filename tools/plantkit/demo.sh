#!/bin/bash
# exits 0 if the property's example holds, nonzero otherwise
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go.txt","%s/zzdemo/h.go":"%s/h.go.txt"}}' "$PWD" "$d" "$PWD" "$d" > "$t/o.json"
go build FLAGS-overlay "$t/o.json" -o "$t/demo" ./zzdemo || exit 1
timeout 120 "$t/demo"
