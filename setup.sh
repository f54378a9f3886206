#!/bin/bash
# Builds the source extractor and warms its cache for the current tree.
cd "$(dirname "$0")" || exit 1
bash extractor/build.sh || exit 1
python3 -c 'from sa import frontend; db = frontend.load(); print(len(db["fns"]), "functions extracted")'
