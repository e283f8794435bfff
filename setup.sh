#!/bin/bash
# Builds the symbolic execution engine (setup_cmd).
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
export GOWORK=off CGO_ENABLED=0
cd engine
mkdir -p ../bin
go build -o ../bin/engine.$$ . && mv -f ../bin/engine.$$ ../bin/engine
