#!/bin/bash
# check.sh ID: builds what is needed from /repo's working tree and runs the
# check of property ID at the tier in VERIF_TIER (quick, if unset).
# Exit 0: the property held on everything explored; 1: it is violated.
set -u
id=$1
tier=${VERIF_TIER:-quick}
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
start=$(date +%s)

export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset HELIUM_DUMP_TEST_FILES GODEBUG GOGC GOMEMLIMIT GOMAXPROCS

w=$(mktemp -d /tmp/verif-check.XXXXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
trap 'exit 2' INT TERM HUP

# the module is built with its own go.mod and the sums of what it requires
cp "$repo/go.mod" "$w/helium.mod" && cp "$here/helium.sum" "$w/helium.sum" || exit 2
export GOFLAGS="-mod=mod -modfile=$w/helium.mod"

(cd "$here/harness/instr" && GO111MODULE=off GOFLAGS= go build -o "$w/instr" .) || exit 2
mkdir "$w/o"
build() {
	"$w/instr" "$@" "$repo" "$w/o" "$here/harness" >"$w/instr.log" 2>&1 &&
	(cd "$repo" && go build -overlay "$w/o/overlay.json" -o "$w/check" ./internal/zzverif/check) >"$w/build.log" 2>&1
}
if ! build; then
	# what cannot be instrumented is checked as it is
	cat "$w/instr.log" "$w/build.log" 2>/dev/null | head -20 >&2
	rm -rf "$w/o"; mkdir "$w/o"
	build -plain || { cat "$w/build.log" >&2; exit 2; }
fi
lint=
if [ "$id" = C23 ]; then
	(cd "$repo" && go build -o "$w/helium-lint" ./cmd/helium-lint) || exit 2
	lint=$w/helium-lint
fi
race=
if [ "$id" = C14 ]; then
	# the same, not instrumented, with the race detector
	mkdir "$w/r"
	"$w/instr" -plain "$repo" "$w/r" "$here/harness" >"$w/instr.log" 2>&1 &&
	(cd "$repo" && CGO_ENABLED=1 go build -race -overlay "$w/r/overlay.json" -o "$w/race" ./internal/zzverif/check) >"$w/build.log" 2>&1 || { cat "$w/build.log" >&2; exit 2; }
	race=$w/race
fi

limit=240
[ "$tier" = thorough ] && limit=780
mkdir -p "$here/evidence"
TMPDIR=$w "$w/check" -p "$id" -tier "$tier" -out "$here/evidence" -known "$here/known_findings.txt" \
	-lint "$lint" -race "$race" -deadline $((start + limit)) &
wait $!
