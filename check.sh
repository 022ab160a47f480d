#!/bin/bash
# check.sh <property id>: runs one check with the seed and tier of the environment.
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec python3-vt -W ignore -m vp.run "$1"
