#!/bin/bash
# check.sh <PROPERTY>            builds the harness against /repo's working tree and runs one check
# check.sh --build               only builds
# check.sh --replay <FILE>       runs one recorded case again
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${VERIF_TARGET:-$ROOT/harness/target}"
mkdir -p "$CARGO_TARGET_DIR"
build() {
    # cargo decides by modification times; decide by content instead, so that a tree that was
    # swapped under a kept target directory is never served a stale build
    local h
    h=$(cd /repo && find Cargo.toml build.rs src -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -d' ' -f1)
    if [ "$(cat "$CARGO_TARGET_DIR/.repo-hash" 2>/dev/null)" != "$h" ]; then
        find "$CARGO_TARGET_DIR/release/.fingerprint" -maxdepth 1 -type d \
            \( -name 'libfranka-rs-*' -o -name 'franka-verif-*' \) -exec rm -rf {} + 2>/dev/null
    fi
    (cd "$ROOT/harness" && cargo build --release --offline --quiet) >"$CARGO_TARGET_DIR/build.log" 2>&1 || {
        echo "build failed:" >&2
        tail -40 "$CARGO_TARGET_DIR/build.log" >&2
        return 2
    }
    echo "$h" >"$CARGO_TARGET_DIR/.repo-hash"
}
exec 9>"$CARGO_TARGET_DIR/.lock"
flock 9
build || exit 2
flock -u 9
exec 9>&-
BIN="$CARGO_TARGET_DIR/release/franka-verif"
case "${1:-}" in
    --build) exit 0 ;;
    --replay) exec "$BIN" replay "$2" ;;
esac
ID="$1"
shift
# the defects that were found and are not repaired (none at present), one line each
grep "^KNOWN-FINDING: property=$ID " "$ROOT/known-findings.txt" 2>/dev/null
rm -f "$ROOT/replays/$ID-candidate.replay"
"$BIN" check "$ID" "$@"
rc=$?
# a memory fault or abort of the code under test; being killed (137) or ended (143) is no verdict
crashed() { case $1 in 132 | 134 | 135 | 136 | 139) return 0 ;; *) return 1 ;; esac }
if crashed $rc; then
    # believe it if it happens again
    "$BIN" check "$ID" "$@"
    rc=$?
    find "$CARGO_TARGET_DIR" -maxdepth 1 -name 'model-scratch-*' -exec rm -rf {} + 2>/dev/null
    if crashed $rc; then
        mkdir -p "$ROOT/replays"
        R="$ROOT/replays/$ID-crash.replay"
        rm -f "$R"
        [ -f "$ROOT/replays/$ID-candidate.replay" ] && mv "$ROOT/replays/$ID-candidate.replay" "$R"
        echo "the process under test dies with signal $((rc - 128)): VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} $ROOT/check.sh $ID" | sed 's/^/# /' >>"$R"
        echo "process died with signal $((rc - 128))"
        echo "VIOLATION property=$ID replay=$R"
        exit 1
    fi
fi
exit $rc
