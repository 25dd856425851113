#!/bin/bash
# Usage: run.sh PROPERTY [quick|thorough]
#
# Builds the model checker together with the current working tree of /repo and
# decides one property. Exits 0 if it holds, 1 if it is violated, and with
# another status if the check itself could not be carried out.
set -u
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}

export HOME=/root
export PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOFLAGS=
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build

W=$(mktemp -d /tmp/verif-mc.XXXXXXXX) || exit 3
cleanup() {
	case "$W" in
	/tmp/verif-mc.????????) rm -rf -- "$W" ;;
	esac
}
trap cleanup EXIT

cp /verif/mc/go.mod "$W/go.mod" && cp /verif/mc/go.sum "$W/go.sum" || exit 3
cd /verif/mc || exit 3

# The evidence of an earlier run must not survive.
mkdir -p /verif/evidence
case "$ID" in
C[0-9][0-9]) rm -f -- "/verif/evidence/$ID.json" "/verif/evidence/$ID-violation.json" ;;
--build-only) ;;
*)
	echo "unknown property: $ID" >&2
	exit 3
	;;
esac

if ! go build -mod=mod -modfile="$W/go.mod" -buildvcs=false -o "$W/mc" . ; then
	echo "cannot build the model checker" >&2
	exit 3
fi

[ "$ID" = --build-only ] && exit 0

export VERIF_WORK="$W"
"$W/mc" check "$ID" "$TIER"
