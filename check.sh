#!/bin/bash
# check.sh PROPERTY: builds the engine from /verif/engine and decides the property on /repo's working tree.
# Tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
prop=$1; shift
if [ "$prop" = C18 ]; then exec env PYTHONDONTWRITEBYTECODE=1 python3-vt pysym/c18.py "$@"; fi
bin=$(mktemp -d /tmp/verifengine.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
(cd engine && go build -o "$bin/engine" .) || exit 2
"$bin/engine" -prop "$prop" -tier "${VERIF_TIER:-quick}" "$@"
