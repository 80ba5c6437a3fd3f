#!/bin/bash
# check.sh <property> <quick|thorough> [harness args]: rebuild from /repo's working tree, then search.
# exit 0 held, 1 violated (VIOLATION line), 2 no answer
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
ID=$1; TIER=$2; shift 2
export VERIF_ROOT=$ROOT CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$ROOT/harness/target
mkdir -p "$ROOT/evidence" "$ROOT/replays"
# cargo decides by modification time; a copied tree can carry old times, so decide by content
STAMP=$CARGO_TARGET_DIR/repo.sha256
NOW=$(cd /repo && find Cargo.toml midi2 midi2_proc -path '*/target' -prune -o -type f \( -name '*.rs' -o -name 'Cargo.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
if [ -d "$CARGO_TARGET_DIR" ] && [ "$(cat "$STAMP" 2>/dev/null)" != "$NOW" ]; then
    (cd harness && cargo clean --offline --release -p midi2 -p midi2_proc -p harness >/dev/null 2>&1)
fi
LOG=$ROOT/replays/build.log
if ! (cd harness && cargo build --offline --release) >"$LOG" 2>&1; then
    echo "harness build failed:"; grep -E '^error' -A12 "$LOG" | head -60
    exit 2
fi
echo "$NOW" > "$STAMP"
[ "$ID" = build ] && exit 0
ARGS=()
[ "$TIER" = thorough ] && ARGS+=(--thorough)
exec "$CARGO_TARGET_DIR/release/harness" run "$ID" --seed "${VERIF_SEED:-1}" "${ARGS[@]}" "$@"
