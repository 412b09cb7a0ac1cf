#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild from /repo's working tree, then search.
# exit 0 held, 1 violation (VIOLATION line on stdout), 2 the check itself could not run.
cd "$(dirname "$0")" || exit 2
bash build.sh "$1" >&2 || exit 2
exec target/bin/sim check "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}"
