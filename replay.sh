#!/bin/bash
# usage: replay.sh evidence/replay-<id>-<n>.json : runs the recorded inputs natively against /repo
set -u
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
./setup.sh >/dev/null || exit 2
exec ./bin/vxe -root "$PWD" -repo "${VX_REPO:-/repo}" -replay "$1"
