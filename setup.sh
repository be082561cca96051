#!/bin/bash
# setup.sh: builds the machinery once, so that a missing tool shows before any check runs. Checks build for themselves.
set -u
ID=setup
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOSUMDB=off
S=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 3
trap 'rm -rf "$S"' EXIT
. "$VERIF_DIR/build.sh" || exit 3
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/out"
echo ready
