#!/bin/bash
# Builds the simulator against /repo's current working tree, with the
# hooks on (build tag verif) and with the Go runtime's randomness (map
# iteration order, hash seeds) behind a seam owned by the simulator.
# Writes only under /verif/build (ignored by git) and Go's build cache.
set -euo pipefail
V="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${VERIF_REPO:-/repo}"
OUT="${VERIF_OUT:-$V/build}"
. "$V/bin/goenv.sh"
mkdir -p "$OUT"
python3 "$V/bin/prep.py" "$REPO" "$OUT" "$V"
cd "$V/sim"
go build -tags verif -modfile "$OUT/go.mod" -overlay "$OUT/overlay.json" -o "$OUT/simdrv" ./cmd/simdrv
