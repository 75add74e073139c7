#!/bin/bash
# Warms Go's build cache; the checks build everything they need themselves.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on HOME=${HOME:-/root}
work=$(mktemp -d "${TMPDIR:-/tmp}/ferrymc.XXXXXX") || exit 2
trap 'rm -rf "$work"' EXIT
(cd "$here/mc/rewrite" && go build -o "$work/rewrite" .) || exit 1
exit 0
