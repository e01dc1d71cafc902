#!/bin/bash
# tryseed.sh ID [property [tier]]: runs a check on a scratch copy of /repo with the planted bug
id="$1"; d="$(cd "$(dirname "$0")/.." && pwd)"
prop="${2:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/seeded/$id/meta.json")}"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
git clone -q /repo "$w/repo" && git -C "$w/repo" apply "$d/seeded/$id/patch.diff" || exit 9
out="$(VP_REPO="$w/repo" VP_EVIDENCE="$w/ev" "$d/bin/check" "$prop" "${3:-quick}" 2>&1)"; rc=$?
echo "$id $prop rc=$rc $(echo "$out" | grep -m1 -A1 VIOLATION | tr '\n' ' ' | cut -c1-260)"
[ $rc = 1 ] || echo "$out" | tail -3
