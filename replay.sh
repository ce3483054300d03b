#!/bin/bash
# replay.sh FILE: re-executes the recorded run against /repo's current tree.
# Exit 1 if the violation is reproduced, 0 if the property holds on it.
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" >/dev/null || exit 2
exec "$V/.build/gostsim" replayfile "$1"
