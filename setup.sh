#!/bin/bash
# Builds the analyser from the committed files, offline.
cd "$(dirname "$0")" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
cd lint && go build -o ../bin/lint .
