#!/bin/bash
# check.sh ID [quick|thorough]: verifies a property against /repo's current source.
cd "$(dirname "$0")" || exit 2
. gover/env.sh
if [ ! -x bin/gover ] || [ -n "$(find gover -newer bin/gover -name '*.go' -print -quit)" ]; then
  ./setup.sh || exit 2
fi
exec bin/gover check "$@"
