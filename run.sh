#!/bin/bash
# run.sh ID: runs one check (VERIF_SEED, VERIF_TIER from the environment).
cd "$(dirname "$0")" || exit 2
export VERIF_REPO="${VERIF_REPO:-/repo}"
export PYTHONPATH="$PWD/lib:$VERIF_REPO/python" PYTHONDONTWRITEBYTECODE=1 TZ=UTC
unset SPARK_REMOTE SPARK_HOME
id=$(echo "$1" | tr 'A-Z' 'a-z')
exec timeout -k 10 "${VERIF_TIMEOUT:-3000}" /opt/vp/venv/bin/python -u "checks/$id.py"
