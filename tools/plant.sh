#!/bin/bash
# plant.sh ID PROPERTY DIR: files a planted bug. DIR holds patch.diff, meta.json
# and main.go, a program using the demonstration kit (copies of the reference
# model and engine). Confirms in a scratch copy that the demonstration passes
# without and fails with the patch, and that the tests pass with it.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1 prop=$2 dir=$3
out=$here/seeded/$id
mkdir -p "$out/kit/ref" "$out/kit/eng" "$out/kit/demo"
cp "$here"/mc/go.mod "$here"/mc/go.sum "$out/kit/"
for f in "$here"/mc/ref/*.go; do case $f in *_test.go) ;; *) cp "$f" "$out/kit/ref/";; esac; done
cp "$here"/mc/eng/*.go "$out/kit/eng/"
cp "$dir/main.go" "$here/tools/demo/run.go" "$out/kit/demo/"
cp "$dir/patch.diff" "$dir/meta.json" "$out/"
cat > "$out/demo.sh" <<'EOD'
#!/bin/bash
# Exits 0 if the behaviour is as it should be, 1 otherwise. Run in /repo.
dir=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
work=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
cp -r "$dir/kit" "$work/kit"
cd "$work/kit" || exit 2
sed -i "s#=> /repo#=> $repo#" go.mod
go run ./demo
EOD
chmod +x "$out/demo.sh"
