#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt -m pyv.check "$1" --tier "${2:-quick}"
