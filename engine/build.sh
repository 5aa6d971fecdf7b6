#!/bin/bash
# builds the verifier into /verif/bin
cd "$(dirname "$0")" && mkdir -p ../bin && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/govc .
