#!/bin/bash
# builds /verif/bin/gocv from the committed sources (vendored dependencies, no network)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off HOME=${HOME:-/root}
cd "$(dirname "$0")/../gocv" && GOFLAGS=-mod=vendor go build -o ../bin/gocv .
