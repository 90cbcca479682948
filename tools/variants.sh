#!/bin/bash
# variants.sh features | races | miri
# Builds the probe in its variants into target/probe/. A variant that cannot be
# built leaves <name>.failed with the compiler's output.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
out="$here/target/probe"
mkdir -p "$out"
cd "$here/probe" || exit 2
one() { # name, profile arguments, features
    local log="$out/$1.log" dir=debug
    [ "$2" = --release ] && dir=release
    rm -f "$out/$1" "$out/$1.failed"
    if cargo build --offline --locked $2 ${3:+--features $3} --target-dir "$out/build-$dir" >"$log" 2>&1; then
        cp "$out/build-$dir/$dir/sdpprobe" "$out/$1"
    else
        mv "$log" "$out/$1.failed"
    fi
}
all() { # prefix, profile
    one "$1-none" "$2" ""
    one "$1-debug" "$2" enhanced_debug
    one "$1-serialize" "$2" serialize
    one "$1-both" "$2" enhanced_debug,serialize
}
case "$1" in
features)
    all dev "" &
    all release --release &
    wait
    ;;
races)
    one release-both --release enhanced_debug,serialize &
    (
        rm -f "$out/tsan" "$out/tsan.failed"
        if RUSTFLAGS=-Zsanitizer=thread cargo +nightly build --offline --locked -Zbuild-std \
            --target x86_64-unknown-linux-gnu --release --features enhanced_debug,serialize \
            --target-dir "$out/build-tsan" >"$out/tsan.log" 2>&1; then
            cp "$out/build-tsan/x86_64-unknown-linux-gnu/release/sdpprobe" "$out/tsan"
        else
            mv "$out/tsan.log" "$out/tsan.failed"
        fi
    ) &
    wait
    ;;
esac
exit 0
