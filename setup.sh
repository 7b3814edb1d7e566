#!/bin/bash
# Builds /verif/bin/govc from the committed sources (offline).
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin
h=$(cat govc/*.go govc/go.mod | sha256sum | cut -d' ' -f1)
if [ -x bin/govc ] && [ "$(cat bin/govc.sum 2>/dev/null)" = "$h" ]; then exit 0; fi
(cd govc && go build -o "../bin/govc.$$" .) && mv "bin/govc.$$" bin/govc && echo "$h" > bin/govc.sum
