#!/bin/bash
# Warms the build cache; every check rebuilds from /repo itself.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
mkdir -p "$here/.build" "$here/evidence"
cd "$here/mc" && go vet . && go build -o "$here/.build/setup-mc" . && rm -f "$here/.build/setup-mc"
