#!/bin/bash
# check.sh ID quick|thorough   builds the simulator against /repo's working tree and runs one check
# check.sh build               only builds
# check.sh replay FILE         re-executes a replay file
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_DIR="$here" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$here/sim/target" RUSTC_WRAPPER="$here/sim/rustc-wrap.sh"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WORKSPACE_WRAPPER
log="$here/sim/target/build.$$.log"
mkdir -p "$here/sim/target" "$here/evidence"
# build PROFILE: the build that the checks run, or (P28) the one with overflow checks and debug assertions
build() {
  if ! (cd "$here/sim" && cargo build --profile "$1" --offline) >"$log" 2>&1; then
    grep -E "^error" -A12 "$log" | head -60
    echo "check.sh: the simulator does not build against /repo"
    exit 2
  fi
  rm -f "$log"
}
what="${1:-}"
profile=release
case "$what" in
  "") echo "usage: check.sh ID quick|thorough | build | replay FILE"; exit 2 ;;
  build) build release; build checked; exit 0 ;;
  P28) profile=checked ;;
  replay) grep -q '"property": *"P28"' "$2" && profile=checked ;;
esac
build "$profile"
bin="$here/sim/target/$profile/lazsim"
if [ "$what" = replay ]; then
  exec "$bin" replay "$2"
fi
exec "$bin" check "$what" "${2:-quick}"
