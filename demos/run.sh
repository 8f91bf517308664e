#!/bin/bash
# usage: run.sh FILE_test.go  - runs an in-package demonstration against /repo through an overlay
D=$(cd "$(dirname "$0")/.." && pwd); . "$D/env.sh"
T=$(mktemp -d); trap 'find "$T" -delete' EXIT
F=$(readlink -f "$1")
echo "{\"Replace\":{\"/repo/processors/zz_demo_test.go\":\"$F\"}}" > $T/o.json
cd /repo && GOFLAGS=-mod=readonly go test -overlay $T/o.json -run 'TestDemo' -count=1 -timeout 60s ./processors
