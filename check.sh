#!/bin/bash
# check.sh PROPERTY quick|thorough
export PATH=/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$(dirname "$0")" || exit 1
bash setup.sh >&2 || { mkdir -p evidence/replay; echo "the verifier does not build" > evidence/replay/$1.txt; echo "VIOLATION property=$1 replay=$PWD/evidence/replay/$1.txt no-failing-input-found"; exit 1; }
exec ./bin/govc check -verif "$PWD" -specs "$PWD/contracts" -prop "$1" -tier "${2:-quick}"
