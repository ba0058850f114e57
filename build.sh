#!/bin/bash
# Builds the simulator against /repo's current working tree.
# Usage: build.sh [capslock] [gitdiff] [api] [drv]; default all.
# The output directory is $VERIF_OUT, by default /verif/.build.
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
. /opt/vp/env.sh
export CGO_ENABLED=0
out=${VERIF_OUT:-$here/.build}
mkdir -p "$out"
exec 9>"$out/lock"
flock 9
cd "$here"
go run "$here/sim/prep/main.go" -goroot "$(go env GOROOT)" -repo /repo -sim "$here/sim" -out "$out"
cd /repo
for t in ${@:-drv capslock gitdiff api}; do
	case $t in
	capslock) go build -overlay "$out/overlay-sim.json" -tags faketime -o "$out/simcapslock" ./cmd/capslock ;;
	gitdiff) go build -overlay "$out/overlay-sim.json" -tags faketime -o "$out/simgitdiff" ./cmd/capslock-git-diff ;;
	api) go build -overlay "$out/overlay-sim.json" -tags faketime -o "$out/simapi" ./internal/verifsim/api ;;
	drv) go build -overlay "$out/overlay-drv.json" -o "$out/drv" ./internal/verifsim/drv ;;
	esac
done
