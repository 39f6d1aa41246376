#!/bin/bash
# Builds the symbolic engine from committed sources (offline).
set -eu
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin evidence
(cd engine && go build -o ../bin/vxe .)
# warm the build cache for loading /repo
echo "engine built: $PWD/bin/vxe"
