#!/bin/bash
# run.sh PROPERTY REPO: looks for a failing run of the property in the real code.
# Exit 1: found one (its output is printed); 0: none found; anything else: could not be run.
prop=$1; repo=$2
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$repo" || exit 3
work=$(mktemp -d /tmp/govc-replay.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
found=0
for f in "$here"/*/*_verif_test.go; do
	grep -q "^func Test${prop}[A-Z_]*(" "$f" || grep -q "^func Test${prop}" "$f" || continue
	pkg=$(sed -n 's/^\/\/ package-dir: //p' "$f")
	n=$(basename "$f")
	printf '{"Replace": {"%s": "%s"}}' "$repo/$pkg/zz_$n" "$f" > "$work/ov.json"
	for race in "-race" ""; do
		rm -f "$work/t.test"
		if ! go test -overlay "$work/ov.json" -vet=off $race -c -o "$work/t.test" "./$pkg" > "$work/build.txt" 2>&1; then
			echo "$n cannot be built for ./$pkg:"; head -20 "$work/build.txt"
			continue
		fi
		( cd "$work" && timeout -k 5 90 ./t.test -test.run "^Test${prop}" -test.count 1 -test.timeout 80s > out.txt 2>&1 )
		rc=$?
		if [ $rc -ne 0 ] && [ $rc -lt 124 ] && ! grep -q "test timed out" "$work/out.txt"; then
			echo "failing run of $n ($race) on ./$pkg:"
			head -c 6000 "$work/out.txt"
			found=1
			break
		fi
		echo "$n $race: exit $rc"; [ $rc -ne 0 ] && head -c 1500 "$work/out.txt"
	done
	[ $found = 1 ] && break
done
exit $found
