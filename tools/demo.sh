#!/bin/bash
# Compiles demo_test.go (beside this file) into the module through a build
# overlay and runs it: exit 0 when the behaviour is right, nonzero otherwise.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd /repo || exit 1
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"/repo/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$d" > "$tmp/o.json"
race=; if grep -q '^//race' "$d/demo_test.go"; then race=-race; fi
go test -c $race -vet=off -overlay "$tmp/o.json" -o "$tmp/demo.test" ./zzdemo || exit 1
cd "$tmp" && ./demo.test -test.timeout 240s
