#!/bin/bash
# Builds the checker once (filling the build cache) and validates the reference
# model against the RFC 9420 test vectors shipped with the repository.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/mc" || exit 1
go build -o /dev/null ./cmd/check || exit 1
go test ./ref
