#!/bin/bash
# a GeoJSON polygon file one feature of which has no geometry must still filter by the others (exit 0 after the fix)
D=$(cd "$(dirname "$0")/.." && pwd); . "$D/env.sh"
T=$(mktemp -d); trap 'find "$T" -delete' EXIT
cd /repo && go build -o $T/gtfstidy . || exit 2
cat > $T/a.json <<'J'
{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":null},{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[-180,-89],[180,-89],[180,89],[-180,89],[-180,-89]]]}}]}
J
$T/gtfstidy --polygon-file $T/a.json -o $T/out.zip /repo/processors/testfeed
