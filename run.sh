#!/bin/bash
# run.sh PROPERTY TIER: builds the checker if needed and runs one check.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-quick}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
export GOCACHE=$here/.cache/go-build
mkdir -p "$here/bin" "$here/.cache" "$here/evidence"
bin=$here/bin/lpgcheck
if [ ! -x "$bin" ] || [ -n "$(find "$here/checker" -newer "$bin" -name '*.*' 2>/dev/null | head -1)" ]; then
  if ! (cd "$here/checker" && go build -o "$bin.$$" . && mv "$bin.$$" "$bin") >"$here/.cache/build.log" 2>&1; then
    cat "$here/.cache/build.log"
    echo "cannot build the checker"
    exit 2
  fi
fi
repo=${LPG_REPO:-/repo}
exec "$bin" -repo "$repo" -verif "$here" -tier "$tier" check "$id"
