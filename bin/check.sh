#!/bin/bash
# check.sh PROPERTY [quick|thorough]   or   check.sh replay FILE
# Rebuilds the simulator from /repo's working tree, then runs.
V="$(cd "$(dirname "$0")/.." && pwd)"
if ! bash "$V/bin/build.sh" >"$V/build.log" 2>&1; then
	mkdir -p "$V/build"
	echo "ERROR build failed"
	tail -n 40 "$V/build.log"
	exit 3
fi
rm -f "$V/build.log"
if [ "$1" = replay ]; then
	exec "$V/build/simdrv" replay "$2"
fi
exec "$V/build/simdrv" check "$1" "${2:-${VERIF_TIER:-quick}}" "$V"
