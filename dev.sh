#!/bin/bash
# developer helper: build the analyzer into /tmp and run it
cd /verif/analyzer && (export GOROOT=/opt/veriftools/go1.26.10 PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=vendor; go vet . && go build -o /tmp/an .) || exit 1
. /opt/vp/env.sh
/tmp/an "$@" 2>&1 | if [ -n "$T" ]; then cat; else grep -v "^      via"; fi | cut -c1-300 | head -${N:-40}
