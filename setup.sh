#!/bin/bash
# Builds the symbolic execution engine from the committed sources, offline.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p bin evidence replays
cd engine && GOFLAGS=-mod=mod GOPROXY=off GOWORK=off go build -o ../bin/engine .
