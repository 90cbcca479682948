#!/bin/bash
# check.sh <id> [--tier T] [--seed N]     run a check
# check.sh <id> --one <replay file>       evaluate one recorded case again
# check.sh setup                          build only
# Builds the monitors together with the code under test (/repo's working tree).
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
mkdir -p "$here/work"
. "$here/tools/fresh.sh"
log="$here/work/build-$$.log"
cd "$here/harness" || exit 2
if ! cargo build --release --offline --locked --target-dir "$here/target" >"$log" 2>&1; then
    tail -60 "$log"
    echo "the monitors cannot be built with the code under test"
    exit 2
fi
rm -f "$log"
cd "$here" || exit 2
bin="$here/target/release/sdpmon"
case "$1" in
setup)
    bash "$here/tools/variants.sh" features
    bash "$here/tools/variants.sh" races
    exit 0
    ;;
C22) bash "$here/tools/variants.sh" races ;;
C24) bash "$here/tools/variants.sh" features ;;
esac
if [ "$2" = --one ]; then
    exec "$bin" --one "$1" "$3"
fi
exec "$bin" "$@"
