#!/bin/bash
# run.sh ID [quick|thorough]: decide one property on /repo's current tree.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
bash "$here/build.sh" >"$here/evidence/.build.$$" 2>&1 || { cat "$here/evidence/.build.$$"; rm -f "$here/evidence/.build.$$"; exit 2; }
rm -f "$here/evidence/.build.$$"
exec "$here/bin/typastcheck" -property "$1" -tier "$tier" -verif "$here" -repo "${TYPAST_REPO:-/repo}"
