#!/bin/bash
# check.sh ID [tier]: build the checker from /verif/checker and run one property.
set -u
cd "$(dirname "$0")"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
bin=$PWD/.bin/chk
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
if ! bash ./setup.sh; then
	echo "the checker could not be built" >&2
	exit 2
fi
exec "$bin" -prop "$id" -tier "$tier" -repo "${VERIF_REPO:-/repo}" -out "${VERIF_OUT:-$PWD}"
