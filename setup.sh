#!/bin/bash
# Builds the MIR extractor (driver/main.rs) and warms the harness's dependencies.
set -e
cd "$(dirname "$0")"
mkdir -p build
rustc +nightly -O --edition 2021 driver/main.rs -o build/mirdump.tmp
mv build/mirdump.tmp build/mirdump
