#!/bin/bash
# usage: check.sh PROPERTY-ID TIER  -- builds the explorer from /repo's working tree and decides one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
id=$1; tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$here/.build" "$here/evidence"
bin="$here/.build/mc-$id-$$"
trap 'rm -f "$bin"' EXIT
cd "$here/mc" || exit 2
if ! go build -o "$bin" . >"$here/.build/build-$id.log" 2>&1; then
  echo "cannot build the explorer against /repo:"; tail -20 "$here/.build/build-$id.log"; exit 2
fi
"$bin" -property "$id" -tier "$tier"
