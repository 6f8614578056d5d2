#!/bin/bash
# usage: check.sh ID [--quick|--thorough]   builds what the property needs from /repo, runs its check
cd "$(dirname "$0")" || exit 2
. ./build.sh
build_for "$1" || exit 2
exec "$SIM" check "$@"
