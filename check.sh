#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Exit 0: held on everything explored. 1: VIOLATION line. 2: no answer.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
worker=worker
race=
[ "$prop" = C21 ] && worker=worker-race race=race
if ! "$here/build.sh" $race >"$here/.build-log.$$" 2>&1; then
  echo "ERROR: build failed"; tail -30 "$here/.build-log.$$"; rm -f "$here/.build-log.$$"; exit 2
fi
rm -f "$here/.build-log.$$"
exec "$here/.build/orch" check -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -worker "$here/.build/$worker" -root "$here"
