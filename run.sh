#!/bin/bash
# run.sh setup|check|replay ... : builds the driver, then runs it.
set -e
cd "$(dirname "$0")"
export VERIF_DIR="$PWD"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOCACHE="$PWD/.work/gocache"
unset GOEXPERIMENT GODEBUG
mkdir -p .work
(cd sim && go build -o "$VERIF_DIR/.work/vsim" ./cmd/vsim) || { echo "vsim: build of the driver failed" >&2; exit 2; }
exec .work/vsim "$@"
