#!/bin/bash
# builds the analyser into /verif/bin (ignored by git)
set -e
cd "$(dirname "$0")/checker"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1
mkdir -p ../bin
go build -o ../bin/checker.tmp.$$ . && mv ../bin/checker.tmp.$$ ../bin/checker
