#!/bin/bash
# check.sh ID quick|thorough     decide one property on /repo's current tree
# check.sh replay FILE           run one replay file again
# Everything is built from /repo's working tree in a scratch directory.
# Exit 0: held on everything explored. Exit 1: violation. Exit 2: could not tell.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
id=${1:?usage: check.sh ID quick|thorough, or check.sh replay FILE}
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
export GOFLAGS= GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
export CGO_ENABLED=${CGO_ENABLED:-1}
scratch=$(mktemp -d "${TMPDIR:-/tmp}/ivysim.XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
fail() { echo "check.sh: $*" >&2; exit 2; }

(cd "$here/sim" && go build -o "$scratch/instr" ./cmd/instr && go build -o "$scratch/driver" ./cmd/driver) || fail "cannot build the simulator"
"$scratch/instr" -repo "$repo" -rt "$here/sim/_rt" -out "$scratch/inst" || fail "cannot instrument $repo"
(cd "$scratch/inst" && go build -o "$scratch/worker" ./zzsim/zworker) || fail "cannot build the instrumented code"
prop=$id
if [ "$id" = replay ]; then
	prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$tier" | head -1)
fi
race=
if [ "$prop" = C10 ]; then
	(cd "$scratch/inst" && go build -race -gcflags=robpike.io/ivy/zzsim=-race=false -o "$scratch/workerrace" ./zzsim/zworker) || fail "cannot build with the race detector"
	race=$scratch/workerrace
fi
common=(-worker "$scratch/worker" -raceworker "$race" -replaydir "$here/replays" -known "$here/KNOWN_FINDINGS.txt")
if [ "$id" = replay ]; then
	"$scratch/driver" "${common[@]}" -replay "$tier"
	exit $?
fi
case $tier in quick|thorough) ;; *) fail "tier is quick or thorough" ;; esac
"$scratch/driver" "${common[@]}" -prop "$id" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$id.json" -instrstats "$scratch/inst/zzstats.json" ${VERIF_ARGS:-}
