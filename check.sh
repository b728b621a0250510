#!/bin/bash
# check.sh ID [build targets...]: rebuild from /repo's working tree, run one check.
cd "$(dirname "$0")" || exit 2
ID=$1; shift
mkdir -p work out
if ! bash build/build.sh ${@:-eu} > "work/build-$ID.log" 2>&1; then
    tail -40 "work/build-$ID.log" >&2
    echo "ERROR: build failed" >&2
    exit 2
fi
exec timeout -k 5 860 python3 -m euv.run "$ID"
