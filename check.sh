#!/bin/bash
# check.sh PROPERTY: decide one property on /repo's current source (REPO overrides the tree).
cd "$(dirname "$0")" || exit 2
here=$PWD
if [ ! -x bin/checker ] || [ -n "$(find checker -newer bin/checker -type f -print -quit)" ]; then
  bash setup.sh || exit 2
fi
exec bin/checker -property "$1" -repo "${REPO:-/repo}" -verif "$here"
