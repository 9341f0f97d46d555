#!/bin/bash
# check.sh PROPERTY [TIER [CASE]]: builds the checker against /repo's working
# tree in a scratch directory and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
. /opt/vp/env.sh
work=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
cd "$here/mc" || exit 2
if ! go build -ldflags "-X testing.testBinary=1" -o "$work/check" ./cmd/check >"$work/build.log" 2>&1; then
	cat "$work/build.log"
	echo "error: the checker does not build"
	exit 2
fi
cd "$here" || exit 2
mkdir -p evidence
"$work/check" -prop "$prop" -tier "$tier" -out evidence -case "${3:-}"
