#!/bin/bash
# check.sh <property> [quick|thorough]
d="$(cd "$(dirname "$0")" && pwd)"
"$d/build.sh" || { echo "cannot build the harness"; exit 3; }
[ -n "$2" ] && export VERIF_TIER="$2"
export VERIF_DIR="${VERIF_DIR:-$d}"
exec "${VERIF_TARGET:-/verif/target}/release/harness" check "$1"
