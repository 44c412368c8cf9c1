#!/bin/bash
# Compiles the harness once, so that the checks find their dependencies in the build cache.
set -e
cd "$(dirname "$0")/harness"
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
[ -d /opt/veriftools/go1.24.13/bin ] && export PATH=/opt/veriftools/go1.24.13/bin:$PATH
go vet ./... >/dev/null 2>&1 || true
for p in p*/; do
  race=""; [ -f "$p/race" ] && race="-race"
  go test -c $race -vet=off -o /dev/null "./$p"
done
