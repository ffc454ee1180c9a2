#!/bin/bash
# check.sh <property> <tier>: run one property's monitors on /repo's working tree.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=${VERIF_REPO:-/repo}
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
SCR=$(mktemp -d /tmp/imtv.XXXXXX)
trap 'rm -rf "$SCR"' EXIT
export MPLCONFIGDIR=$SCR/mpl VERIF_SCRATCH=$SCR
mkdir -p "$SCR/mpl"
cp -r /opt/mplconfig/. "$SCR/mpl/" 2>/dev/null
cd "$D"
PY=/opt/venv/bin/python
VERIF_TIER=${2:-${VERIF_TIER:-quick}} $PY -W ignore run.py "$1" "${@:3}"
