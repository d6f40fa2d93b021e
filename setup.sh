#!/bin/bash
# Builds everything once (every check builds it again from /repo's current tree if it has to).
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
. "$V/build.inc"
whole && simulator
