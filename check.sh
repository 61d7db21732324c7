#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   - decides one property from /repo's current source
cd "$(dirname "$0")" || exit 2
. ./env.sh
build_dxa || exit 2
exec "$DXA" check "$1" "${2:-${VERIF_TIER:-quick}}"
