#!/bin/bash
# Builds the analyser into bin/ unless the binary there is of this source.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off HOME=${HOME:-/root}
sum=$(cat sa/*.go sa/refs/* sa/cstub/* sa/go.mod sa/go.sum | sha256sum | cut -d' ' -f1)
if [ -x bin/vsa ] && [ "$(cat bin/vsa.sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
mkdir -p bin
(cd sa && go build -o "$VERIF/bin/vsa.$$" .) || exit 1
mv "bin/vsa.$$" bin/vsa && echo "$sum" > bin/vsa.sum
