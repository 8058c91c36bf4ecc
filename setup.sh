#!/bin/bash
# builds the monitor once, to show that it builds from the committed files
DIR="$(cd "$(dirname "$0")" && pwd)"
. "$DIR/build.sh" || exit 1
echo "built $BIN"
