#!/bin/bash
# check.sh <property>: verifies one property against /repo's current source.
cd "$(dirname "$0")" || exit 2
V=$PWD
. /opt/vp/env.sh
cd "$V" || exit 2
if [ ! -x "$V/bin/gvc" ]; then ./setup.sh >&2 || exit 2; fi
exec "$V/bin/gvc" -repo /repo -contracts "$V/contracts" -verif "$V" -prop "$1"
