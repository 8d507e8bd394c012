#!/bin/bash
# run.sh ID [--replay FILE]: builds the harness from /repo's working tree and
# runs the check of one property. VERIF_SEED and VERIF_TIER as usual.
root=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
id=$1; shift
args=()
if [ "$1" = --replay ]; then args=(-replay "$(realpath "$2")"); shift 2; fi
repo=${VERIF_REPO:-/repo}
work=$(mktemp -d /tmp/verif-build.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
# The module file is a copy, so that the build never rewrites committed files.
sed "s#=> /repo#=> $repo#" "$root/harness/go.mod" > "$work/go.mod"
cp "$root/harness/go.sum" "$work/go.sum"
built=
if [ "$id" = I01 ]; then
  # With the race detector, if this machine has what it needs.
  (cd "$root/harness" && CGO_ENABLED=1 go build -race -modfile="$work/go.mod" -o "$work/harness" . 2>"$work/race.txt") && built=1
  [ "$built" ] || { echo "building without the race detector:" >&2; tail -3 "$work/race.txt" >&2; }
fi
if [ "$id" = P01 ]; then
  (cd "$root/harness" && go build -modfile="$work/go.mod" -o "$work/host" .) && export VERIF_HOST=$work/host
  if (cd "$root/harness" && GOARCH=386 go build -modfile="$work/go.mod" -o "$work/harness" .); then
    built=1
  else
    # The first sub-check type-checks the code for it and reports the error.
    args+=(-sub architectures -mustfail)
  fi
fi
[ "$built" ] || (cd "$root/harness" && go build -modfile="$work/go.mod" -o "$work/harness" .) || { echo "build failed" >&2; exit 3; }
if [ "$id" = T09 ] || [ "$id" = B01 ]; then
  # The workers are built for a big-endian architecture and run in an emulator.
  cc=
  for c in gcc clang cc; do command -v $c >/dev/null && { cc=$c; break; }; done
  $cc -O2 -o "$work/mips" "$root/emu/mips.c" -lm || { echo "building the emulator failed" >&2; exit 3; }
  if (cd "$root/harness" && GOARCH=mips GOMIPS=hardfloat CGO_ENABLED=0 go build -modfile="$work/go.mod" -o "$work/harness-mips" .); then
    export VERIF_EMULATOR=$work/mips VERIF_EMULATED=$work/harness-mips
  else
    # The first sub-check type-checks the code for it and reports the error.
    args+=(-sub architectures -mustfail)
  fi
fi
if [ "$id" != I01 ] && [ "$id" != P01 ] && [ "$id" != B01 ] && [ "$id" != T09 ]; then
  # For the guided search, with coverage instrumentation.
  if (cd "$root/harness" && go build -modfile="$work/go.mod" -tags guided -gcflags=github.com/gogama/...=-d=libfuzzer -ldflags=-checklinkname=0 -o "$work/guided" . 2>"$work/guided.txt"); then
    export VERIF_GUIDED=$work/guided
  else
    { echo "no instrumented program, so no guided search:"; tail -3 "$work/guided.txt"; } >&2
  fi
fi
VERIF_REPO=$repo "$work/harness" -id "$id" -root "$root" "${args[@]}" "$@"
