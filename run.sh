#!/bin/bash
# run.sh ID TIER: builds the harness from /repo's working tree and runs the
# check of one property. run.sh build builds both binaries only.
# Exit: 0 held, 1 violated (with a VIOLATION line), else trouble.
cd "$(dirname "$0")/harness" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1
export GOFLAGS="$GOFLAGS -buildvcs=false"
out=$(cd .. && pwd)/bin
mkdir -p "$out"
# Some checks look inside internal/match (tag im); the others run without, in
# case it no longer has the functions they use.
build() { # name, flags
	go build "${@:2}" -tags im -o "$out/$1" . && return
	echo "run.sh: building without the checks of internal/match" >&2
	go build "${@:2}" -o "$out/$1" .
}
if [ "$1" = build ]; then
	build vh && build vh-race -race
	exit
fi
name=vh
flags=()
if [ "$1" = C15 ] || [ "$1" = C32 ]; then
	name=vh-race
	flags=(-race)
fi
build "$name" "${flags[@]}" || exit 2
exec "$out/$name" check "$1" "$2"
