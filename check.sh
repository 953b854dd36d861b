#!/bin/bash
# check.sh <PROPERTY> <quick|thorough>
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.inc
exec /opt/venv/bin/python lib/run.py "$1" "${2:-${VERIF_TIER:-quick}}"
