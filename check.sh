#!/bin/bash
# Checks one property of /repo's current working tree.
# Usage: check.sh PROPERTY [PROGRAM...] where the programs are the simulated
# ones the check needs: capslock, gitdiff, api.
# Exit status: 0 held, 1 violated (with a VIOLATION line), 3 trouble.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
id=$1
shift
export VERIF_OUT=$here/.build/$id
if ! "$here/build.sh" drv "$@"; then
	echo "check.sh: building the simulator failed" >&2
	exit 3
fi
exec "$VERIF_OUT/drv" -prop "$id" -root "$here" -bin "$VERIF_OUT"
