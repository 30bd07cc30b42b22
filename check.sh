#!/bin/bash
# check.sh <property> [quick|thorough]: builds the explorer for one property against /repo's working tree and runs it.
# exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: the check itself could not run.
ID=${1:?usage: check.sh <property> [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_ROOT
VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
cd "$VERIF_ROOT/mc" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VERIF_ROOT/mc/target"
LOG=$(mktemp)
BIN=$(mktemp -d)
trap 'rm -rf "$LOG" "$BIN"' EXIT
if ! cargo build --release --offline --quiet --no-default-features --features "$ID" >"$LOG" 2>&1; then
  cat "$LOG" >&2
  if [ "$ID" = C21 ] && cargo build --release --offline --quiet --no-default-features --features C15 >/dev/null 2>&1; then
    # Everything compiles without serde support but not with it: a type is no longer (de)serialisable.
    mkdir -p "$VERIF_ROOT/evidence"
    cp "$LOG" "$VERIF_ROOT/evidence/C21.replay.txt"
    python3 - "$VERIF_ROOT/evidence/C21.json" "$TIER" <<'PY'
import json, os, sys
json.dump({"property": "C21", "tier": sys.argv[2], "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
  "coverage": {"states": 0, "transitions": 0, "note": "a public type does not implement Serialize/Deserialize, see the replay file"},
  "assumptions": [], "wall_s": 0.0, "violations": 1}, open(sys.argv[1], "w"), indent=1)
PY
    echo "VIOLATION property=C21 replay=$VERIF_ROOT/evidence/C21.replay.txt"
    exit 1
  fi
  echo "the explorer does not build against /repo" >&2
  exit 2
fi
cp target/release/mc "$BIN/mc" || exit 2
"$BIN/mc" "$ID" "$TIER"
