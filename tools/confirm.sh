#!/bin/bash
# confirm.sh ID...: confirms planted bugs in a scratch copy of /repo.
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
for id in "$@"; do
	b=$here/seeded/$id
	work=$(mktemp -d /tmp/plant.XXXXXXXX) || exit 2
	cp -a /repo "$work/repo"
	cd "$work/repo" || exit 2
	a=0; "$b/demo.sh" >"$work/a" 2>&1 || a=$?
	git apply "$b/patch.diff" || echo "$id: does not apply"
	go build ./... || echo "$id: does not build"
	t=0; go test ./... >"$work/t" 2>&1 || t=$?
	p=0; "$b/demo.sh" >"$work/p" 2>&1 || p=$?
	echo "$id: unchanged=$a tests=$t planted=$p $(tail -n 2 "$work/p" | cut -c1-200 | tr '\n' ' ')"
	[ $a != 0 ] && tail -n 5 "$work/a"
	[ $t != 0 ] && tail -n 5 "$work/t"
	cd /
	rm -rf -- "${work:?}"
done
