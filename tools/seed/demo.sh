#!/bin/bash
# runs demo_test.go inside package xpdf of the tree in the current directory
d="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh 2>/dev/null
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go","%s/zz_rec_test.go":"%s/rec_test.go"}}' "$PWD" "$d" "$PWD" "$d" > "$t/overlay.json"
timeout 250 go test -overlay "$t/overlay.json" -vet=off -count=1 -run '^TestDemo' .
