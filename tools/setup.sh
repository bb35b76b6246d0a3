#!/bin/bash
# Build the verifier from the committed sources and warm the build cache.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/tools/goenv.sh"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/govc"
go build -o "$here/bin/govc" .
cd /repo
GOFLAGS=-mod=readonly go test -vet=off -count=1 -run '^$' . ./dnssec >/dev/null 2>&1 || true
