#!/bin/bash
# Builds every harness once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
for c in core full serde; do
    [ -e "$c/Cargo.lock" ] || continue
    ./check.sh "$c" build || exit 1
done
