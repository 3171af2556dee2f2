#!/bin/bash
# Builds the symbolic engine from the committed sources, offline.
export HOME=${HOME:-/root}
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
cd "$(dirname "$(readlink -f "$0")")/engine" || exit 3
mkdir -p ../bin
exec go build -o ../bin/gosym .
