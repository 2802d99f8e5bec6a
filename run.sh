#!/bin/bash
# run.sh PROPERTY...   decides the given properties for the tree in $REPO (default /repo)
# run.sh --setup       builds the checker
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/go/bin:/opt/veriftools/go1.23.12/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
V=$PWD
B=$V/bin/texlint
build() {
	mkdir -p "$V/bin"
	(cd checker && go build -o "$B.$$" . && mv "$B.$$" "$B")
}
if [ ! -x "$B" ] || [ -n "$(find checker -newer "$B" -type f -print -quit)" ]; then
	build || exit 2
fi
[ "$1" = --setup ] && exit 0
rc=0
for p in "$@"; do
	"$B" check "$p" "$V" "${REPO:-/repo}" || rc=$?
done
exit $rc
