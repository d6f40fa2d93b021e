#!/bin/bash
. /opt/vp/env.sh >/dev/null 2>&1; cd /verif/sim; gcc -O1 -fPIC -shared -fvisibility=hidden -w -o /verif/target/shim.so proc/shim.c -ldl; cargo build --offline --locked --manifest-path /repo/Cargo.toml -p cordy --target-dir /verif/target/cordy 2>&1 | grep -E "^error" -A9; RUSTFLAGS="${RUSTFLAGS:-} -Awarnings" cargo build --offline --target-dir /verif/target/sim 2>&1 | grep -E "^error" -A9 | head -${1:-60}
