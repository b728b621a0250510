#!/bin/bash
# Build everything the checks need, once.
cd "$(dirname "$0")/.." || exit 1
exec bash build/build.sh eu probe
