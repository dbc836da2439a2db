#!/bin/bash
# Checks that the harness builds offline (every check rebuilds it itself).
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod
cd "$(dirname "$0")/harness" && go build -o /dev/null . 
