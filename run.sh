#!/bin/bash
# run.sh <property> quick|thorough: build the checker from /repo's working tree and run one check.
# Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Exit 2: could not build.
cd "$(dirname "$0")" || exit 2
export PMC_TIER="${2:-quick}" PMC_ROOT="$PWD"
mkdir -p out evidence
log="out/build.$1.log"
if ! mc/build.sh >"$log" 2>&1; then
    grep -A12 '^error' "$log" | head -60
    echo "the checker does not build: see $log"
    exit 2
fi
exec mc/target/release/pmc check "$1"
