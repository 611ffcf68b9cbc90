#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds the simulator from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
log=$(mktemp)
if ! bash build.sh >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec "${VSIM_TARGET:-/verif/target}/x86_64-unknown-linux-gnu/release/vsim" check "$1" "${2:-${VERIF_TIER:-quick}}"
