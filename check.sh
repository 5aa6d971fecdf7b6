#!/bin/sh
# check.sh <property> <tier>: builds the verifier when needed and checks one property.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR="$(pwd)"
if [ ! -x bin/govc ]; then
  bash engine/build.sh >/dev/null 2>&1 || { mkdir -p replay; echo "engine does not build" > replay/$1-build.txt; bash engine/build.sh; exit 2; }
fi
exec bin/govc check -prop "$1" -tier "$2"
