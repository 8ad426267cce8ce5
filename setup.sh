#!/bin/bash
# Builds the verifier from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
V=$PWD
. /opt/vp/env.sh
cd "$V/gvc" && mkdir -p "$V/bin" && go build -o "$V/bin/gvc" .
