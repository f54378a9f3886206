#!/bin/bash
# run.sh C06 [--tier thorough]: one check against /repo's current working tree
cd "$(dirname "$0")" || exit 4
bash extractor/build.sh >&2 || exit 4
export PYTHONHASHSEED=0
exec python3 -m sa.check "$@"
