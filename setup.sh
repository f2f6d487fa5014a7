#!/bin/bash
# setup.sh builds the verifier from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
. gover/env.sh
mkdir -p bin
(cd gover && go build -o ../bin/gover .)
