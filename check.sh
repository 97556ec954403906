#!/bin/bash
# Usage: check.sh ID    build the monitors from /repo's working tree and decide property ID.
# Environment: VERIF_SEED (default 1), VERIF_TIER quick|thorough, VERIF_SCALE (case multiplier).
cd "$(dirname "$0")" || exit 2
ID="$1"
. ./lib.sh
build_harness || { echo "$ID: the harness does not build against /repo"; exit 2; }
case "$ID" in
C19 | C27 | C29) build_cli || { echo "$ID: the command line tool does not build"; exit 2; } ;;
C24) build_python || { echo "$ID: the python module does not build"; exit 2; } ;;
esac
[ "$ID" = C28 ] && { build_tsan || { echo "$ID: the harness does not build with ThreadSanitizer"; exit 2; }; export VERIF_VH_TSAN="$VH_TSAN"; }
export VERIF_ASAN_RT="$ASAN_RT"
exec "$VH" run "$ID"
