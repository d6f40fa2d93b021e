# sourced by check.sh and setup.sh: the builds, outside /repo
logged() { local l; l=$(mktemp) ; if ! "$@" > "$l" 2>&1; then tail -60 "$l"; rm -f "$l"; echo "does not build: $*"; return 1; fi; rm -f "$l"; }
# the simulator, linked with /repo's cordy-sys and cordy-web
simulator() { RUSTFLAGS="${RUSTFLAGS:-} -Awarnings" logged cargo build --offline --manifest-path "$V/sim/Cargo.toml" --target-dir "$V/target/sim"; }
# the cordy binary as it is, and the world that is preloaded into it
whole() {
  mkdir -p "$V/target"
  logged gcc -O1 -fPIC -shared -fvisibility=hidden -w -o "$V/target/shim.so.$$" "$V/sim/proc/shim.c" -ldl && mv "$V/target/shim.so.$$" "$V/target/shim.so" || return 1
  RUSTFLAGS="${RUSTFLAGS:-} -Awarnings" logged cargo build --offline --locked --manifest-path /repo/Cargo.toml -p cordy --target-dir "$V/target/cordy"
}
