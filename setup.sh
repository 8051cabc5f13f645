#!/bin/bash
# Builds the static checker from the committed sources, offline.
cd "$(dirname "$0")/checker" || exit 2
. /opt/vp/env.sh
mkdir -p ../bin
go build -o ../bin/checker.tmp.$$ . && mv ../bin/checker.tmp.$$ ../bin/checker
