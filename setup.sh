#!/bin/bash
# Warms the Go build cache for both builds of the harness; no check needs it.
cd "$(dirname "$0")/harness" || exit 1
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
T="$(mktemp -d /tmp/vmon-setup-XXXXXX)" || exit 1
trap 'rm -rf "$T"' EXIT
cp go.mod go.sum "$T/" || exit 1
go build -modfile="$T/go.mod" -o "$T/a" . && go build -race -gcflags=all=-d=checkptr=0 -modfile="$T/go.mod" -o "$T/b" . && go build -modfile="$T/go.mod" -o "$T/c" github.com/akhenakh/oureadb/cmd/mapdebugger
