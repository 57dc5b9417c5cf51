#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec "$PY" -W ignore -m symx.run "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
