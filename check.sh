#!/bin/bash
# check.sh PROPERTY TIER: decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
need=0
if [ ! -x bin/engine ]; then need=1; else
  for f in engine/*.go; do [ "$f" -nt bin/engine ] && need=1; done
fi
if [ $need = 1 ]; then
  mkdir -p bin
  (cd engine && go build -o ../bin/engine.$$ . && mv ../bin/engine.$$ ../bin/engine) || { echo "cannot build the engine"; exit 2; }
fi
exec bin/engine -prop "$1" -tier "${2:-quick}" -repo "${VERIF_REPO:-/repo}" -verif "$PWD"
