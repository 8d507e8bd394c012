#!/bin/bash
# Builds the harness once, so that the Go build cache is warm. Every check
# builds again from /repo's working tree.
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
work=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
cp "$root/harness/go.mod" "$root/harness/go.sum" "$work/"
cd "$root/harness" && go build -modfile="$work/go.mod" -o "$work/harness" .
go build -modfile="$work/go.mod" -tags guided -gcflags=github.com/gogama/...=-d=libfuzzer -ldflags=-checklinkname=0 -o "$work/guided" . || echo "no instrumented program"
