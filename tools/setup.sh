#!/bin/bash
# Builds the symbolic executor and the harness (every check does so again).
set -e
cd "$(dirname "$0")/.."
(cd engine && cargo build --release --offline)
bash tools/build_ir.sh .build
