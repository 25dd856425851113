#!/bin/bash
# Usage: mutant.sh PATCH TIER ID...
#
# Development aid: runs checks against a scratch copy of /repo with PATCH
# applied. Not used by any registered command.
set -u
PATCH=$(realpath "$1") TIER=$2
shift 2
export HOME=/root
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS=
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
W=$(mktemp -d /tmp/verif-mut.XXXXXXXX) || exit 3
cleanup() {
	case "$W" in
	/tmp/verif-mut.????????) rm -rf -- "$W" ;;
	esac
}
trap cleanup EXIT
mkdir "$W/repo" "$W/work" "$W/ev"
git -C /repo archive HEAD | tar -x -C "$W/repo" || exit 3
(cd "$W/repo" && git init -q . && git apply "$PATCH") || { echo "PATCH DOES NOT APPLY"; exit 3; }
if [ "${TESTS:-}" ]; then
	if (cd "$W/repo" && GOFLAGS=-mod=mod go test -race -vet=off -count=1 -timeout 90s ./... >"$W/tests" 2>&1); then echo "tests pass"; else echo "TESTS FAIL"; grep -E '^(--- FAIL|FAIL|#)|\[FAIL\]' "$W/tests" | head -5; fi
fi
sed "s|=> /repo|=> $W/repo|" /verif/mc/go.mod >"$W/go.mod"
cp /verif/mc/go.sum "$W/go.sum"
cd /verif/mc || exit 3
go build -mod=mod -modfile="$W/go.mod" -buildvcs=false -o "$W/mc" . || { echo "BUILD FAILS"; exit 3; }
export VERIF_WORK="$W/work" VERIF_EVIDENCE="$W/ev" VERIF_REPO="$W/repo"
for id in "$@"; do
	out=$("$W/mc" check "$id" "$TIER" 2>&1)
	rc=$?
	case $rc in
	0) echo "$id quiet" ;;
	1) echo "$id CAUGHT: $(echo "$out" | sed -n 2,3p | cut -c1-160 | tr '\n' ' ')" ;;
	*) echo "$id ERROR rc=$rc: $(echo "$out" | head -5 | cut -c1-300)" ;;
	esac
done
