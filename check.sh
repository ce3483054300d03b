#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Exit 0: the property held on everything explored. Exit 1: a line
# "VIOLATION property=... replay=..." says how it was broken. Exit 2: the check
# itself could not run.
V=$(cd "$(dirname "$0")" && pwd)
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
if ! bash "$V/build.sh" >"$V/.build.$P.log" 2>&1; then
  cat "$V/.build.$P.log" >&2
  echo "check $P: the build failed" >&2
  exit 2
fi
rm -f "$V/.build.$P.log"
if [ "$TIER" = thorough ]; then B=${BUDGET:-600}; else B=${BUDGET:-40}; fi
exec "$V/.build/gostsim" check -prop "$P" -tier "$TIER" -seed "$SEED" -budget "$B" -verif "$V"
