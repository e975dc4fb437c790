#!/bin/bash
# run.sh ID: builds the harness against /repo's working tree and runs check ID.
# Exit 0: the property held; 1: VIOLATION line printed; 2: no answer.
set -u
cd "$(dirname "$0")" || exit 2
ROOT="$PWD"
ID="${1:?usage: run.sh ID|build}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod VERIF_ROOT="$ROOT"
case "$ID" in
C14) BUILD=(go build -race -gcflags=all=-d=checkptr=0) ;;
*)   BUILD=(go build) ;;
esac
TMP="$(mktemp -d /tmp/vmon-bin-XXXXXX)" || exit 2
trap 'rm -rf "$TMP"' EXIT
# go.mod and go.sum stay as committed: the build works on copies
cp harness/go.mod "$TMP/go.mod" && cp harness/go.sum "$TMP/go.sum" || exit 2
if ! (cd harness && "${BUILD[@]}" -modfile="$TMP/go.mod" -o "$TMP/vmon" .) >"$TMP/log" 2>&1; then
  cat "$TMP/log"
  echo "INCONCLUSIVE: the harness does not build against /repo"
  exit 2
fi
if [ "$ID" = C39 ]; then
  if ! (cd harness && go build -modfile="$TMP/go.mod" -o "$TMP/mapdebugger" github.com/akhenakh/oureadb/cmd/mapdebugger) >"$TMP/log" 2>&1; then
    cat "$TMP/log"
    echo "INCONCLUSIVE: cmd/mapdebugger does not build"
    exit 2
  fi
  export VMON_MAPDEBUGGER="$TMP/mapdebugger"
fi
"$TMP/vmon" check "$ID"
