#!/bin/bash
# Builds the verifier from the committed files, offline.
cd "$(dirname "$0")" || exit 1
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on GOWORK=off
mkdir -p .bin && cd govc && go build -o ../.bin/govc-setup . && echo built
