#!/bin/bash
# Builds everything the checks use, so that a check only rebuilds what changed in /repo.
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
cd harness
cargo build --offline -q --release --bins
cargo build --offline -q --profile checked --bin c05
cd ..
pre/C09.sh || true
