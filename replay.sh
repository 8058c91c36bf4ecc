#!/bin/bash
# usage: replay.sh FILE   re-runs the episode of a replay file, printing what happened
DIR="$(cd "$(dirname "$0")" && pwd)"
F="$(realpath "$1")"
. "$DIR/build.sh" || exit 2
if grep -q '"property": "W01"' "$F"; then
  export VERIF_TIER="${VERIF_TIER:-quick}" VERIF_SEED="$(sed -n 's/.*"seed": \([0-9]*\).*/\1/p' "$F" | tail -1)"
  . "$DIR/sdk/compose.sh" || exit 2
fi
exec "$BIN" replay "$F" 2>&1 >/dev/null
