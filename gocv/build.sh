#!/bin/bash
# builds the verifier with the installed Go 1.27 toolchain (offline)
cd "$(dirname "$0")" && PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOROOT= go build -o "${1:-/tmp/gocv}" .
