#!/bin/bash
# Replays a violation found by a check against /repo's current working tree.
# Usage: replay.sh FILE.json [-v]
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_OUT=$here/.build/replay
if ! "$here/build.sh"; then
	echo "replay.sh: building the simulator failed" >&2
	exit 3
fi
exec "$VERIF_OUT/drv" -root "$here" -bin "$VERIF_OUT" ${2:+"$2"} -replay "$1"
