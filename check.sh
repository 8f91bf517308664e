#!/bin/bash
# usage: check.sh PROPERTY TIER
D=$(cd "$(dirname "$0")" && pwd)
. "$D/env.sh"
if [ ! -x "$D/bin/checker" ]; then
  bash "$D/setup.sh" >&2 || { echo "checker does not build"; exit 2; }
fi
exec "$D/bin/checker" -prop "$1" -tier "${VERIF_TIER:-${2:-quick}}" -seed "${VERIF_SEED:-0}" -evidence "$D/evidence" -known "$D/known_findings.txt"
