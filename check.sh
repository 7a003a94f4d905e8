#!/bin/bash
# check.sh <property> <quick|thorough> [--only family:index]
# Exit 0: held on everything explored; 1: VIOLATION; anything else: no verdict.
V=$(cd "$(dirname "$0")" && pwd)
id=$1 tier=${2:-${VERIF_TIER:-quick}}
shift 2
bash "$V/build.sh" || exit 3
export VERIF_SEED=${VERIF_SEED:-1}
exec "$V/build/harness/debug/monitor" run "$id" "$tier" --bins "$V/build/repo/debug" --shim "$V/build/shim.so" \
    --evidence "$V/evidence" --findings "$V/known-findings.txt" "$@"
