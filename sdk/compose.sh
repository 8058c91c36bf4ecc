# sourced (BIN, DIR set): runs drawn calls through the published SDK, sets SDK_OUT
SDK_TMP="$(mktemp -d)"
N=40
[ "$VERIF_TIER" = thorough ] && N=2000
export SDK_OUT="$SDK_TMP/composed"
"$BIN" sdkcases "$SDK_TMP/cases" $N && node "$DIR/sdk/drive.mjs" "${SDK_ROOT:-/repo/ts/sdk}" "$SDK_TMP/cases" "$SDK_OUT"
