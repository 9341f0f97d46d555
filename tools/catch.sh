#!/bin/bash
# catch.sh [-a] ID...: runs the check of each planted bug's property (-a: every
# check) against /repo with the bug applied.
here=$(cd "$(dirname "$0")/.." && pwd)
all=
[ "$1" = -a ] && { all=1; shift; }
for id in "$@"; do
	b=$here/seeded/$id
	prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$b/meta.json")
	props=$prop
	[ -n "$all" ] && props=$(python3 -c 'import json,sys;print(*[c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(sys.argv[1]))["checks"]])' "$here/MANIFEST.json")
	git -C /repo apply "$b/patch.diff" || continue
	line="$id ($prop):"
	for p in $props; do
		"$here/check.sh" "$p" quick >/tmp/catch.out 2>&1
		c=$?
		if [ $c = 1 ] && grep -q "VIOLATION property=$p" /tmp/catch.out; then line="$line $p=caught"; elif [ $c = 0 ]; then line="$line $p=-"; else line="$line $p=error$c"; fi
		[ -z "$all" ] && line="$line $(grep -A1 -m1 VIOLATION /tmp/catch.out | tail -n 1 | cut -c1-160)"
	done
	git -C /repo checkout -- .
	echo "$line"
done
