#!/bin/bash
# run.sh PROPERTY TIER: builds the monitor program against /repo's working tree and runs one check.
# Exit 0: held; 1: violated (with a VIOLATION line); anything else: no answer.
set -u
PROP=${1:?property}
TIER=${2:-quick}
shift; shift || true
VERIF=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
for g in /opt/veriftools/go1.27.3; do
  [ -x "$g/bin/go" ] && export GOROOT=$g PATH=$g/bin:$PATH
done
export GOFLAGS=-mod=mod GOENV=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOTELEMETRY=off GOWORK=off
WORK=$(mktemp -d "${TMPDIR:-/tmp}/qv.XXXXXXXX") || exit 2
trap 'rm -rf "$WORK"' EXIT
cp -r "$VERIF/harness" "$WORK/src" || exit 2
cd "$WORK/src" || exit 2
RACE=
case " $(cat "$VERIF/race_checks") " in *" $PROP "*) RACE=-race ;; esac
if ! go build $RACE -tags verif -o "$WORK/qv" . >"$WORK/build.log" 2>&1; then
  cat "$WORK/build.log" >&2
  echo "the monitor program doesn't build against /repo" >&2
  exit 2
fi
mkdir -p "$WORK/run"
cd "$WORK/run" || exit 2
"$WORK/qv" run -prop "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" -dir "$WORK/run" -verif "$VERIF" "$@"
