#!/bin/bash
# Builds the verifier and warms the Go build cache.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1
mkdir -p bin evidence
(cd govc && go build -o ../bin/govc .) || exit 1
(cd /repo && go vet ./... >/dev/null 2>&1; go test -count=1 -run XXX ./... >/dev/null 2>&1)
exit 0
