#!/bin/bash
# usage: catch.sh ID [PROP...] -- applies the planted bug to a scratch copy, runs the checks of its property (or the given ones) on it
. /verif/env.sh
I=$1; D=/verif/seeded/$I; shift
P="$@"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=/tmp/catchwork.$I.$$
cp -a /repo $W; trap 'find $W -delete' EXIT
git -C $W apply $D/patch.diff || exit 1
mkdir -p $W/.git/ev
for p in $P; do echo "== $I $p"; CHK_REPO=$W ${CHK:-/verif/bin/checker} -prop $p -known /verif/known_findings.txt -evidence $W/.git/ev 2>&1 | cut -c1-220 | tail -${LINES_:-4}; [ -n "$REP" ] && head -${REP} $W/.git/ev/$p.report.txt | cut -c1-250; done
