#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off GOFLAGS=-mod=readonly GONOSUMDB='*'
VERIF_CHECKS=1 VERIF_EVIDENCE=/tmp/setup-ev.$$ ./check.sh A11 > /dev/null
rm -f /tmp/setup-ev.$$
exit 0
