#!/bin/bash
# usage: check.sh ID [quick|thorough]   (run from /verif; the tier may also come from VERIF_TIER)
# Builds the monitor together with /repo's current working tree and judges one property.
set -u
DIR="$(cd "$(dirname "$0")" && pwd)"
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_TIER="$TIER" VERIF_SEED="${VERIF_SEED:-1}"
. "$DIR/build.sh" || exit 2
OUT="$(mktemp)"
if [ "$ID" = W01 ]; then
  # what the published SDK's own client, composer and hooks send, recorded by the SDK driver
  . "$DIR/sdk/compose.sh" || { rm -f "$OUT"; exit 2; }
fi
"$BIN" run "$ID" "$DIR" "$OUT" >/dev/null
RC=$?
cat "$OUT"
rm -f "$OUT"
[ -n "${SDK_TMP:-}" ] && rm -f "$SDK_TMP/cases" "$SDK_TMP/composed" && rmdir "$SDK_TMP"
exit $RC
