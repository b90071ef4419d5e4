#!/bin/bash
# usage: check.sh PROP quick|thorough
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= HOME=${HOME:-/root}
cd "$(dirname "$0")/.." || exit 2
if [ ! -x bin/gocv ] || [ -n "$(find gocv -name '*.go' -newer bin/gocv -not -path '*/vendor/*' -print -quit)" ]; then
  bash tools/mk.sh || exit 2
fi
exec ./bin/gocv check "$1" "${2:-${VERIF_TIER:-quick}}"
