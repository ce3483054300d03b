#!/bin/bash
# Builds the simulator once, to warm the Go build cache and to show that it builds.
V=$(cd "$(dirname "$0")" && pwd)
bash "$V/build.sh" && "$V/.build/gostsim" list
