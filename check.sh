#!/bin/bash
# usage: check.sh <property>   (VERIF_TIER=quick|thorough)
set -u
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
./setup.sh >/dev/null || exit 2
exec ./bin/vxe -root "$PWD" -repo "${VX_REPO:-/repo}" -property "$1" "${@:2}"
