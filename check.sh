#!/bin/bash
# check.sh PROPERTY quick|thorough : builds the harness from /repo's working tree and decides one property.
V=$(cd "$(dirname "$0")" && pwd)
case "$1" in
B*|A*) kind=bevy ;;
*) kind=core ;;
esac
BIN=$(bash "$V/build.sh" $kind | tail -1)
if [ ! -x "$BIN" ]; then
	echo "check.sh: the harness does not build" >&2
	exit 2
fi
export VERIF_DIR="$V"
exec "$BIN" check "$1" "${2:-quick}"
