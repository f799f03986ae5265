#!/bin/bash
cd "$(dirname "$0")/engine" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/gosym .
