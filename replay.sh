#!/bin/bash
# usage: replay.sh FILE.json   (exit 1: the real code violates the property)
F=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec "$PY" -W ignore -m symx.replay "$F"
