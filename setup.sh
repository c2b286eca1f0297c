#!/bin/bash
# Builds the verifier from the committed sources (vendored dependencies, offline).
cd "$(dirname "$0")" || exit 2
mkdir -p bin
cd govc && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off go1.26 build -o ../bin/govc .
