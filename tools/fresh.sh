# fresh.sh (sourced; needs $here): cargo decides by file times what to build again.
# A source file put back with an older time would be missed, so when the content
# of the code under test differs from that of the last build, forget this crate's
# fingerprints.
sum=$(cd /repo && { find src -type f -print0 | sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
if [ "$sum" != "$(cat "$here/target/source.sum" 2>/dev/null)" ]; then
    find "$here/target" -type d -path '*/.fingerprint/webrtc-sdp-*' -prune -exec rm -rf {} + 2>/dev/null
    mkdir -p "$here/target"
    echo "$sum" >"$here/target/source.sum"
fi
