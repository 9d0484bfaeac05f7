#!/bin/bash
# usage: check.sh PROPERTY [harness flags]   (VERIF_TIER, VERIF_SEED from the environment)
# Builds the monitors together with the code of /repo's working tree, runs one property's check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=$1; shift
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-buildvcs=false GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d "${TMPDIR:-/tmp}/vcheck-$id.XXXXXX") || exit 3
trap 'rm -rf "$work"' EXIT INT TERM

# the harness is compiled inside the module through an overlay: /repo itself is not written to
{
  printf '{"Replace": {'
  sep=""
  for f in "$here"/harness/*.go; do
    printf '%s"%s/zzverif/%s": "%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=", "
  done
  printf '}}\n'
} > "$work/overlay.json"

race=""; tools=""
case " $id " in
  " C17 ") race="-race";;
esac
case " $id " in
  " C15 "|" C16 "|" C22 "|" C24 ") tools="bbn";;
  " C12 "|" C18 "|" C20 "|" C23 ") tools="bbn bbni";;
  " C19 ") tools="bbn bbni-race";;
esac
build() { (cd "$repo" && go build "$@") >>"$work/build.log" 2>&1; }
if ! build $race -overlay "$work/overlay.json" -o "$work/harness" ./zzverif; then
  echo "BUILD-ERROR: the tree or the harness does not compile"; cat "$work/build.log"; exit 3
fi
for t in $tools; do
  case $t in
    bbni-race) build -race -o "$work/bbni" ./cmd/bbni ;;
    *)         build -o "$work/$t" ./cmd/$t ;;
  esac || { echo "BUILD-ERROR: ./cmd/$t does not compile"; cat "$work/build.log"; exit 3; }
done

mkdir -p "$here/evidence/replay"
export GORACE="halt_on_error=0 exitcode=66 log_path=$work/race"
# an explosion of memory shall end the check, not the machine
[ -z "$race" ] && [ "$id" != C19 ] && ulimit -v 20000000
"$work/harness" -verif "$here" -bin "$work" "$@" "$id" 2>"$work/stderr"
rc=$?
head -c 20000 "$work/stderr" >&2
reports=$(cat "$work"/race.* 2>/dev/null | grep -c "WARNING: DATA RACE")
if [ "$reports" -gt 0 ]; then
  cat "$work"/race.* > "$here/evidence/replay/$id.race.txt"
  head -60 "$here/evidence/replay/$id.race.txt"
  echo "race detector: $reports reports"
  echo "VIOLATION property=$id replay=$here/evidence/replay/$id.race.txt"
  exit 1
fi
case $rc in
  0|1|3) exit $rc;;
esac
# a Go runtime abort (stack exhaustion, concurrent map writes, os.Exit in the library) takes the
# monitor down with the code under test: that is an observed crash of the library.
if grep -qE "^(fatal error|panic|runtime): ?|goroutine stack exceeds|^SIG" "$work/stderr" || [ $rc -eq 2 ]; then
  { echo "seed=${VERIF_SEED:-1} tier=${VERIF_TIER:-quick} exit=$rc"; head -c 60000 "$work/stderr"; } > "$here/evidence/replay/$id.crash.txt"
  echo "the process running the code under test was brought down (exit $rc)"
  echo "VIOLATION property=$id replay=$here/evidence/replay/$id.crash.txt"
  exit 1
fi
exit 3
