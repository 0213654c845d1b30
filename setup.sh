#!/bin/bash
# Builds the verifier (offline, standard library only).
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$(dirname "$0")" || exit 1
mkdir -p bin evidence
(cd govc && go build -o ../bin/govc .) || exit 1
