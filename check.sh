#!/bin/bash
# check.sh <property>: builds against /repo and runs one check. VERIF_TIER=quick|thorough, VERIF_SEED=n.
ROOT=$(cd "$(dirname "$0")" && pwd)
BIN=$("$ROOT/build.sh") || { echo "ERROR: the harness does not build against /repo"; exit 2; }
export VERIF_ROOT="$ROOT" VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
exec "$BIN" "$1"
