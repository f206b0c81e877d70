#!/bin/bash
# Builds the instrumenter, the driver and the instrumented code once, to fill
# the Go build cache and to fail early; check.sh builds for itself.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export GOFLAGS= GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=${CGO_ENABLED:-1}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/ivysim.XXXXXX")
trap 'rm -rf "$scratch"' EXIT
cd "$here/sim"
go build -o "$scratch/instr" ./cmd/instr
go build -o "$scratch/driver" ./cmd/driver
"$scratch/instr" -repo "$repo" -rt "$here/sim/_rt" -out "$scratch/inst"
cd "$scratch/inst"
go build -o "$scratch/worker" ./zzsim/zworker
go build -race -gcflags=robpike.io/ivy/zzsim=-race=false -o "$scratch/workerrace" ./zzsim/zworker
echo "setup: ok"
