#!/bin/bash
# check.sh ID [quick|thorough]: build the machinery against the working tree of /repo and decide one property.
set -u
ID=${1:?usage: check.sh ID [TIER]}
TIER=${2:-${VERIF_TIER:-quick}}
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export VERIF_DIR VERIF_REPO=$REPO VERIF_SEED=${VERIF_SEED:-1}
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
S=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 3
trap 'rm -rf "$S"' EXIT
. "$VERIF_DIR/build.sh" || exit 3
mkdir -p "$S/cov"
export VERIF_BIN=$S/bin GOCOVERDIR=$S/cov
"$S/bin/verif" run "$ID" "$TIER"
