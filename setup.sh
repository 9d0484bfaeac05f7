#!/bin/bash
# warms Go's build cache with the code under test, the monitors and the race-instrumented variants
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
repo=${VERIF_REPO:-/repo}
export GOFLAGS=-buildvcs=false GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d) || exit 1
trap 'rm -rf "$work"' EXIT
cd "$repo" || exit 1
go build -o "$work/" ./cmd/bbn ./cmd/bbni && go build -race -o "$work/" ./cmd/bbni
{
  printf '{"Replace": {'; sep=""
  for f in "$here"/harness/*.go; do printf '%s"%s/zzverif/%s": "%s"' "$sep" "$repo" "$(basename "$f")" "$f"; sep=", "; done
  printf '}}\n'
} > "$work/overlay.json"
go build -overlay "$work/overlay.json" -o "$work/h" ./zzverif
go build -race -overlay "$work/overlay.json" -o "$work/h" ./zzverif
exit 0
