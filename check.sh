#!/bin/bash
# check.sh PROPERTY: builds the verifier and runs one property's check against /repo.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR="$PWD" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1
export HOME="${HOME:-/root}"
mkdir -p bin evidence
(cd govc && go build -o ../bin/govc.$$ .) || { echo "govc does not build"; exit 1; }
./bin/govc.$$ check "$1"
rc=$?
rm -f "./bin/govc.$$"
[ "$rc" = 0 ] || rc=1
exit $rc
