#!/bin/bash
# Builds the verification condition generator into /verif/bin, and warms the
# build cache used by the replay harnesses.
set -e
cd "$(dirname "$0")"
mkdir -p bin
cd govc
GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off \
  /opt/veriftools/go1.26.10/bin/go build -o ../bin/govc.new .
mv ../bin/govc.new ../bin/govc
