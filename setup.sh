#!/bin/bash
# Builds the simulator once, which also fills the build cache.
cd "$(dirname "$0")/sim" || exit 1
export PATH="$PATH:/usr/local/go/bin" GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
go vet ./... && go build -o /dev/null ./cmd/vsim
