#!/bin/bash
# Builds the checker from the committed files.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE=$here/.cache/go-build
mkdir -p "$here/bin" "$here/.cache" "$here/evidence"
cd "$here/checker" && go build -o "$here/bin/lpgcheck" .
