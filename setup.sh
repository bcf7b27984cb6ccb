#!/bin/bash
# Builds the engine (offline, from committed files).
set -e
cd "$(dirname "$0")"
bash engine/build.sh "$PWD/build"
