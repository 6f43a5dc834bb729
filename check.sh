#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
exec python3 -m amx.check "$1" --tier "${2:-quick}"
