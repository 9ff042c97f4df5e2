#!/bin/bash
# usage: replay.sh FILE: executes a replay file against /repo's working tree.
# Exit 1 and a VIOLATION line if it shows the violation, 0 if not.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
worker=worker race=
grep -q '"race_detector": true' "$1" && worker=worker-race race=race
"$here/build.sh" $race >&2 || exit 2
exec "$here/.build/orch" replay -file "$1" -worker "$here/.build/$worker"
