#!/bin/bash
# check.sh ID [--thorough]: builds the simulator against /repo's working tree and runs the check of one property.
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
cd "$V" || exit 3
. "$V/build.inc"
case "$1" in C07|C08|C09|C10|C11|C19) whole || exit 3;; esac
simulator || exit 3
exec "$V/target/sim/debug/sim" check "$@"
