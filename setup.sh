#!/bin/bash
# Warms the build cache used by the checks (nothing is kept in /verif). A failure here is not
# final: every check builds what it needs.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
s=$(mktemp -d /tmp/vsetup.XXXXXX) && cp -r "$here/harness" "$s/src" && cd "$s/src" && go build -o "$s/vmon" .
rc=$?
rm -rf "$s"
exit $rc
