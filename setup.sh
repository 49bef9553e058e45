#!/bin/bash
# Builds the harness once so that the module set is known to be complete offline.
cd "$(dirname "$0")/harness" || exit 1
[ -d /opt/veriftools/go1.26.10 ] && export GOROOT=/opt/veriftools/go1.26.10 PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOPROXY=off GOFLAGS=-mod=readonly GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
d=$(mktemp -d) && trap 'rm -rf "$d"' EXIT
go test -c -vet=off -o "$d/props.test" ./props
