#!/bin/bash
# check.sh ID: decides one property on /repo's current working tree.
cd "$(dirname "$0")/.." || exit 2
if ! out=$(bin/build.sh 2>&1); then
  echo "cannot build the checker: $out" >&2
  exit 2
fi
export VERIF_DIR="$PWD"
exec .build/checker "$@"
