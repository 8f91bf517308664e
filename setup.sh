#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
D=$(cd "$(dirname "$0")" && pwd)
. "$D/env.sh"
mkdir -p "$D/bin"
cd "$D/checker"
GOFLAGS=-mod=readonly go build -trimpath -buildvcs=false -o "$D/bin/checker.$$" .
mv "$D/bin/checker.$$" "$D/bin/checker"
