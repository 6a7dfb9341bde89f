#!/bin/bash
# run.sh PROPERTY REPO: the bounded stand-ins of a property, run on the real code.
# Exit 0: they pass; 1: a failing input was found (its output is printed); anything else: could not be run.
# A line "KNOWN <what>" is a known finding that still fails.
prop=$1; repo=$2
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$repo" || exit 3
work=$(mktemp -d /tmp/govc-bounded.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
for f in "$here"/*/*_verif_test.go; do
	grep -q "^func Test${prop}" "$f" || continue
	pkg=$(sed -n 's/^\/\/ package-dir: //p' "$f")
	printf '{"Replace": {"%s": "%s"}}' "$repo/$pkg/zz_bounded_$(basename "$f")" "$f" > "$work/ov.json"
	if ! go test -overlay "$work/ov.json" -vet=off -c -o "$work/t.test" "./$pkg" > "$work/build.txt" 2>&1; then
		echo "$(basename "$f") cannot be built for ./$pkg:"; head -20 "$work/build.txt"
		exit 3
	fi
	( cd "$work" && timeout -k 5 120 ./t.test -test.run "^Test${prop}" -test.count 1 -test.timeout 100s > out.txt 2>&1 )
	rc=$?
	head -c 6000 "$work/out.txt"
	[ $rc -ne 0 ] && exit 1
done
exit 0
