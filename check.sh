#!/bin/bash
# usage: check.sh PROPERTY      (VERIF_SEED, VERIF_TIER)
# Builds the command line binary and the monitoring harness from /repo's working tree
# into a scratch directory, runs the monitors of one property and removes the scratch.
set -u
prop=${1:?usage: check.sh PROPERTY}
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
unset GOTEMPLATE_NO_VALUE GOTEMPLATE_STRICT_ERROR GOTEMPLATE_SUBSTITUTES GOTEMPLATE_IGNORE_RAZOR GOTEMPLATE_DEBUG GOTEMPLATE_PATH GOTEMPLATE_INTERNAL_LOG_LEVEL GOTEMPLATE_TEMPLATE_LOG_LEVEL
scratch=$(mktemp -d /tmp/vmon.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 2' INT TERM
export VMON_SCRATCH=$scratch/work VMON_DIR=$here VMON_CLI=$scratch/gotemplate VMON_RACE=$scratch/vmon-race
mkdir -p "$VMON_SCRATCH"
# go.mod / go.sum are copied so that the build never rewrites a committed file
cp -r "$here/harness" "$scratch/src" || exit 2
(cd /repo && go build -o "$scratch/gotemplate" .) || { echo "build of /repo failed"; exit 2; }
(cd "$scratch/src" && go build -o "$scratch/vmon" .) || { echo "build of the harness failed"; exit 2; }
if grep -q "^$prop$" "$here/race-properties.txt" 2>/dev/null; then
  (cd "$scratch/src" && go build -race -o "$scratch/vmon-race" .) || { echo "race build failed"; exit 2; }
fi
"$scratch/vmon" run "$prop"
