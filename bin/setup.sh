#!/bin/bash
# builds the conformance harness once (checks rebuild it from /repo's current tree)
cd "$(dirname "$0")/.." || exit 1
. bin/env.sh
export CARGO_TARGET_DIR=$PWD/target CONST_RANDOM_SEED=1
cd harness && exec cargo build --offline -q --bins
